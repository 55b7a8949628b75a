"""Stand-ins for acme, dm_env, haiku, rlax, reverb and launchpad.

None of these is installed here.  What the adapters of the repository rely on
is given its documented behaviour (environment wrappers, time steps, builder,
actors, checkpointer, epsilon-greedy); every other name is a class that
accepts anything, so that the modules import.
"""
import importlib.abc
import importlib.machinery
import sys
import types

import numpy as np

ROOTS = ('acme', 'dm_env', 'haiku', 'rlax', 'reverb', 'launchpad')


class Any:
  """Accepts everything."""

  def __init__(self, *args, **kwargs):
    self.args, self.kwargs = args, kwargs

  def __call__(self, *args, **kwargs):
    return Any(*args, **kwargs)

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    return Any()

  def __class_getitem__(cls, item):
    return cls


class Module(types.ModuleType):

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    full = f'{self.__name__}.{name}'
    if full in REAL:
      value = REAL[full]
    elif name[0].islower() and name not in ('make_environment_spec',):
      return importlib.import_module(full)
    else:
      value = type(name, (Any,), {})
    setattr(self, name, value)
    return value

  def __call__(self, *args, **kwargs):
    return Any(*args, **kwargs)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):

  def find_spec(self, fullname, path=None, target=None):
    if fullname.split('.')[0] in ROOTS:
      return importlib.machinery.ModuleSpec(fullname, self, is_package=True)
    return None

  def create_module(self, spec):
    m = Module(spec.name)
    m.__path__ = []
    return m

  def exec_module(self, module):
    pass


# ---------------------------------------------------------------- dm_env
class TimeStep:
  def __init__(self, step_type, reward, discount, observation):
    self.step_type, self.reward = step_type, reward
    self.discount, self.observation = discount, observation

  def first(self):
    return self.step_type == 0

  def mid(self):
    return self.step_type == 1

  def last(self):
    return self.step_type == 2

  def _replace(self, **kw):
    return TimeStep(**dict(self.__dict__, **kw))


class Environment:
  pass


class GymWrapper(Environment):
  """A gym environment as a dm_env: an episode that is over restarts."""

  def __init__(self, environment):
    self.environment = environment
    self._over = True

  def reset(self):
    self._over = False
    return TimeStep(0, None, None, self.environment.reset())

  def step(self, action):
    if self._over:
      return self.reset()
    obs, r, done, info = self.environment.step(
        action.item() if isinstance(action, np.generic) or
        isinstance(action, np.ndarray) else action)
    self._over = done
    if done:
      return TimeStep(2, r, 1.0 if (info or {}).get('TimeLimit.truncated')
                      else 0.0, obs)
    return TimeStep(1, r, 1.0, obs)

  def __getattr__(self, name):
    return getattr(self.__dict__['environment'], name)


class Wrapper(Environment):

  def __init__(self, environment):
    self._environment = environment

  @property
  def environment(self):
    return self._environment

  def reset(self):
    return self._environment.reset()

  def step(self, action):
    return self._environment.step(action)

  def __getattr__(self, name):
    return getattr(self.__dict__['_environment'], name)


class StepLimitWrapper(Wrapper):

  def __init__(self, environment, step_limit=None):
    super().__init__(environment)
    self._limit, self._n = step_limit, 0

  def reset(self):
    self._n = 0
    return self._environment.reset()

  def step(self, action):
    if self._limit is not None and self._n >= self._limit:
      return self.reset()
    t = self._environment.step(action)
    if t.first():
      self._n = 0
      return t
    self._n += 1
    if self._limit is not None and self._n >= self._limit:
      return TimeStep(2, t.reward, t.discount, t.observation)
    return t


def _single(x):
  if x is None or isinstance(x, OAR):
    return x
  x = np.asarray(x)
  return x.astype(np.float32) if x.dtype == np.float64 else x


class SinglePrecisionWrapper(Wrapper):

  def _cast(self, t):
    return TimeStep(t.step_type, _single(t.reward), _single(t.discount),
                    _single(t.observation))

  def reset(self):
    return self._cast(self._environment.reset())

  def step(self, action):
    return self._cast(self._environment.step(action))


class OAR:
  def __init__(self, observation, action, reward):
    self.observation, self.action = observation, action
    self.reward = reward


class ObservationActionRewardWrapper(Wrapper):

  def reset(self):
    t = self._environment.reset()
    return t._replace(observation=OAR(t.observation, 0, np.float32(0)))

  def step(self, action):
    t = self._environment.step(action)
    return t._replace(observation=OAR(t.observation, action, t.reward))


# ---------------------------------------------------------------- agents
class DQNConfig:
  def __init__(self, **kw):
    self.__dict__.update(kw)


class Learner:
  """Holds the parameters that actors read."""

  def __init__(self, key, networks):
    self.params = networks.init(key)

  def get_variables(self, names=None):
    return [self.params]


class Actor:
  """Selects by its policy, with the newest parameters of the source."""

  def __init__(self, key, policy, source):
    self._key, self._policy, self._source = key, policy, source
    self._state = None
    self.log = []

  def select_action(self, observation):
    self.log.append(('select', observation))
    eps = getattr(self._state, 'epsilon', 0.05)
    return np.asarray(self._policy(self._source.get_variables()[0], self._key,
                                   observation, eps))

  def observe_first(self, timestep):
    self.log.append(('first', timestep))

  def observe(self, action, next_timestep):
    self.log.append(('observe', action, next_timestep))

  def update(self, wait=False):
    self.log.append(('update', wait))


class DQNBuilder:
  def __init__(self, config=None, loss_fn=None, actor_backend=None):
    self.config, self.loss_fn = config, loss_fn

  def make_actor(self, random_key, policy, environment_spec=None,
                 variable_source=None, adder=None):
    return Actor(random_key, policy, variable_source)

  def make_learner(self, random_key, networks, dataset=None, logger_fn=None,
                   environment_spec=None, replay_client=None, counter=None):
    return Learner(random_key, networks)


class FeedForwardNetwork:
  def __init__(self, init, apply):
    self.init, self.apply = init, apply


class Spec:
  def __init__(self, *args, **kw):
    self.__dict__.update(kw)
    self.args = args


class EnvironmentSpec:
  def __init__(self, observations, actions, rewards, discounts):
    self.observations, self.actions = observations, actions
    self.rewards, self.discounts = rewards, discounts


class CoreActor:
  """The interface that actors implement."""


class epsilon_greedy:

  def __init__(self, epsilon=None):
    self.epsilon = epsilon

  def sample(self, key, values, epsilon=None):
    import jax
    e = self.epsilon if epsilon is None else epsilon
    if float(e) <= 0:
      return int(np.argmax(values))
    k1, k2 = jax.random.split(key)
    if float(jax.random.uniform(k1)) < float(e):
      return int(jax.random.randint(k2, (), 0, len(values)))
    return int(np.argmax(values))


class Status:
  def expect_partial(self):
    return self


class Checkpointer:
  """acme.tf.savers.Checkpointer over numbered files (numbers in a dict)."""
  STORE = {}       # path of a checkpoint -> parameters

  def __init__(self, objects_to_save, directory='~/acme', subdirectory='default',
               time_delta_minutes=10., enable_checkpointing=True, add_uid=True,
               max_to_keep=1, checkpoint_ttl_seconds=None,
               keep_checkpoint_every_n_hours=None):
    import os
    base = os.path.join(directory, 'uid') if add_uid else directory
    self._dir = os.path.join(base, 'checkpoints', subdirectory)
    self._objects = objects_to_save
    outer = self

    class Manager:
      @property
      def latest_checkpoint(self):
        mine = [p for p in Checkpointer.STORE
                if os.path.dirname(p) == outer._dir]
        return max(mine, key=lambda p: int(p.rsplit('-', 1)[1]),
                   default=None)

    class Checkpoint:
      def restore(self, path):
        for o in outer._objects.values():
          o.params = Checkpointer.STORE[path]
        return Status()

    self._checkpoint_manager, self._checkpoint = Manager(), Checkpoint()
    self.restore()

  def restore(self):
    p = self._checkpoint_manager.latest_checkpoint
    if p:
      self._checkpoint.restore(p)


def zeros_like(spec):
  if isinstance(spec, Spec):
    shape = spec.__dict__.get('shape', spec.args[0] if spec.args else ())
    return np.zeros(tuple(shape), np.float32)
  return np.zeros_like(spec)


def make_environment_spec(env):
  return EnvironmentSpec(Spec(shape=(1099,)), Spec(num_values=3), Spec(shape=()),
                         Spec(shape=()))


REAL = {
    'dm_env.TimeStep': TimeStep, 'dm_env.Environment': Environment,
    'acme.wrappers.gym_wrapper.GymWrapper': GymWrapper,
    'acme.wrappers.GymWrapper': GymWrapper,
    'acme.wrappers.step_limit.StepLimitWrapper': StepLimitWrapper,
    'acme.wrappers.StepLimitWrapper': StepLimitWrapper,
    'acme.wrappers.SinglePrecisionWrapper': SinglePrecisionWrapper,
    'acme.wrappers.ObservationActionRewardWrapper':
        ObservationActionRewardWrapper,
    'acme.wrappers.observation_action_reward.OAR': OAR,
    'acme.agents.jax.dqn.DQNConfig': DQNConfig,
    'acme.agents.jax.dqn.DQNBuilder': DQNBuilder,
    'acme.core.Actor': CoreActor,
    'acme.jax.networks.FeedForwardNetwork': FeedForwardNetwork,
    'acme.jax.utils.tile_nested': lambda x, n: np.tile(
        x, (n,) + (1,) * np.ndim(x)),
    'acme.jax.utils.zeros_like': zeros_like,
    'acme.specs.Array': Spec, 'acme.specs.DiscreteArray': Spec,
    'acme.specs.BoundedArray': Spec,
    'acme.specs.EnvironmentSpec': EnvironmentSpec,
    'acme.specs.make_environment_spec': make_environment_spec,
    'acme.make_environment_spec': make_environment_spec,
    'acme.tf.savers.Checkpointer': Checkpointer,
    'rlax.epsilon_greedy': epsilon_greedy,
}


def install():
  """Installs the stand-ins in this process (unless already there)."""
  if not any(isinstance(f, Finder) for f in sys.meta_path):
    sys.meta_path.append(Finder())
