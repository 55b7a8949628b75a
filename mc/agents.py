"""Small real learning agents for the checks."""
import contextlib
import os
import shutil
import tempfile

import gin
import numpy as np


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix='mc-')
  try:
    yield d
  finally:
    shutil.rmtree(d, ignore_errors=True)


def config(name, extra=()):
  """The agent's published gin file, shrunk."""
  from balloon_learning_environment.agents import agent_registry
  gin.clear_config()
  f = agent_registry.REGISTRY[name][1]
  small = ['networks.MLPNetwork.num_layers=1',
           'networks.MLPNetwork.hidden_units=2']
  if name == 'dqn':
    small += ['OutOfGraphReplayBuffer.replay_capacity=60',
              'OutOfGraphReplayBuffer.batch_size=2',
              'JaxDQNAgent.update_horizon=1',
              'JaxDQNAgent.min_replay_history=4',
              'JaxDQNAgent.update_period=1',
              'JaxDQNAgent.target_update_period=3',
              'dqn_agent.create_optimizer.learning_rate=0.1']
  elif name.endswith('quantile'):
    small = ['agents.networks.QuantileNetwork.num_layers=1',
             'agents.networks.QuantileNetwork.hidden_units=2',
             'JaxQuantileAgent.num_atoms=2',
             'OutOfGraphPrioritizedReplayBuffer.replay_capacity=60',
             'OutOfGraphPrioritizedReplayBuffer.batch_size=2',
             'JaxQuantileAgent.update_horizon=1',
             'JaxQuantileAgent.min_replay_history=4',
             'JaxQuantileAgent.update_period=1',
             'JaxQuantileAgent.target_update_period=3',
             'dqn_agent.create_optimizer.learning_rate=0.1']
  gin.parse_config_files_and_bindings([f], small + list(extra),
                                      finalize_config=False)


_EXT = set()


def binding(name, obj):
  """Registers obj (a callable) so that gin bindings can refer to @name."""
  if name not in _EXT:
    gin.external_configurable(obj, name=name, module='mc')
    _EXT.add(name)
  return f'@mc.{name}'


def no_exploration():
  from balloon_learning_environment.agents import exploration
  r = binding('PlainExploration', exploration.Exploration)
  return f'QuantileAgent.exploration_wrapper_constructor = {r}'


def make(name, shape=(2,), seed=0, extra=()):
  """A fresh agent of the given registered name."""
  from balloon_learning_environment.agents import agent_registry
  config(name, extra)
  cls = agent_registry.REGISTRY[name][0]
  return cls(3, observation_shape=shape, seed=seed)


def tree(x):
  """Comparable form of parameters."""
  import jax
  return [np.asarray(v).tolist() for v in jax.tree_util.tree_leaves(x)]


def dense(params):
  """[(kernel, bias)] of a chain of flax Dense layers, in order."""
  p = params['params'] if 'params' in params else params
  names = sorted(p, key=lambda n: int(n.rsplit('_', 1)[1]))
  return [(np.asarray(p[n]['kernel'], float), np.asarray(p[n]['bias'], float))
          for n in names]


def mlp(layers, x):
  """Forward pass: relu between layers, none after the last."""
  x = np.asarray(x, float).reshape(-1)
  for i, (k, b) in enumerate(layers):
    x = x @ k + b
    if i + 1 < len(layers):
      x = np.maximum(x, 0.)
  return x


def params_of(a):
  return a.network_params if hasattr(a, 'network_params') else a.online_params


def q_values(a, x, num_actions=3):
  """Reference action values of a learning agent (mean over atoms)."""
  y = mlp(dense(params_of(a)), x)
  return y.reshape(num_actions, -1).mean(axis=1)


def forward(a):
  """f(obs) -> set of greedy actions (several if tied to 1e-5)."""
  def f(obs):
    q = q_values(a, obs)
    return {i for i in range(len(q)) if q[i] >= q.max() - 1e-5}
  return f
