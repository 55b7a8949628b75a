"""C35: names and configuration files resolve to what they name."""
import itertools
import json
import os
import shutil
import subprocess
import sys
import unittest.mock as mock

import balloon_learning_environment
from balloon_learning_environment import train_lib
from balloon_learning_environment.agents import agent_registry
from balloon_learning_environment.agents import exploration
from balloon_learning_environment.env import generative_wind_field
from balloon_learning_environment.env import grid_based_wind_field
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.rendering import renderer
from balloon_learning_environment.utils import run_helpers
from mc import agents
import gin
import numpy as np

PROP, LEVEL = 'C35', 'model_checking'
TECHNIQUE = ('every registered name and every combination of configuration '
             'sources within bounds, on the real code, against a reference '
             'resolution order; model files in every combination of places')
RULE = ('names: every agent, wind field, collector and near-miss of a name. '
        'gin: every ordered choice of agent file (default, override), up to two '
        'additional files and up to two bindings, each setting or not setting '
        'a parameter, from two working directories. models: every combination '
        'of given path (none, good, bad, directory), packaged file and file '
        'relative to the working directory, for both models, in a copy of the '
        'package. main: the training entry point for every choice of wind '
        'field, renderer, agent and overrides with the training loop recorded.')
ASSUMPTIONS = ['the packaged file is installed in a scratch copy of the '
               'package, whose models module is the one in the repository']

ROOT = os.path.dirname(os.path.dirname(balloon_learning_environment.__file__))
CLASSES = {'random': 'RandomAgent', 'mlp': 'MLPAgent', 'dqn': 'DQNAgent',
           'perciatelli44': 'Perciatelli44', 'quantile': 'QuantileAgent',
           'finetune_perciatelli': 'QuantileAgent',
           'station_seeker': 'StationSeekerAgent',
           'random_walk': 'RandomWalkAgent'}
FILES = {'mlp': 'mlp.gin', 'dqn': 'dqn.gin', 'quantile': 'quantile.gin',
         'finetune_perciatelli': 'finetune_perciatelli.gin'}


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='names'), dict(kind='winds'), dict(kind='collectors')]
  out += [dict(kind='create', name=n) for n in CLASSES]
  out += [dict(kind='gin', agent=a, override=o, full=not q)
          for a in (['random', 'mlp', 'dqn'] if q else
                    ['random', 'mlp', 'dqn', 'quantile', 'station_seeker',
                     'random_walk', 'perciatelli44'])
          for o in (False, True)]
  out += [dict(kind='models', name=n) for n in ('offlineskies22',
                                                'perciatelli44')]
  out += [dict(kind='main', agent=a) for a in ('random', 'station_seeker',
                                               'mlp')]
  out.append(dict(kind='gym'))
  return out


def run(case, rec):
  gin.clear_config()
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)
  gin.clear_config()


NEAR = ['', 'DQN', 'dqn ', ' dqn', 'dqn.gin', 'quantile2', 'perciatelli',
        'none', 'None', 'generative ', 'Simple', 'random-walk', 'randomwalk']


def do_names(case, rec):
  for n, c in CLASSES.items():
    got = agent_registry.agent_constructor(n)
    rec.check(got.__name__ == c, 'agent', f'agent {n!r} is {got}')
    f = agent_registry.get_default_gin_config(n)
    want = FILES.get(n)
    rec.check(f is None if want is None else
              f is not None and os.path.basename(f) == want and
              os.path.exists(os.path.join(ROOT, f)), 'config',
              f'default configuration of {n!r} is {f}')
    rec.check(run_helpers.get_agent_gin_file(n, None) == f, 'gin-file',
              f'{n}: {run_helpers.get_agent_gin_file(n, None)}')
    for o in ('/x/y.gin', 'rel.gin', ''):
      rec.check(run_helpers.get_agent_gin_file(n, o) == o, 'gin-file',
                f'{n}: override {o!r} gives '
                f'{run_helpers.get_agent_gin_file(n, o)!r}')
    rec.ev(outcome=n)
    rec.state(n)
  rec.check(set(agent_registry.REGISTRY) >= set(CLASSES), 'registry',
            f'{set(agent_registry.REGISTRY)}')
  for n in NEAR + [None, 'simple', 'console']:
    rec.raises(ValueError, lambda: agent_registry.agent_constructor(n),
               'unknown', f'agent {n!r}')
    rec.raises(ValueError, lambda: agent_registry.get_default_gin_config(n),
               'unknown', f'agent {n!r}')
    rec.raises(ValueError, lambda: run_helpers.create_agent(n, 3, (4,)),
               'unknown', f'agent {n!r}')
    rec.ev(outcome=n)
  if 'acme_eval_agent' not in agent_registry.REGISTRY:
    rec.raises(ValueError, lambda: agent_registry.agent_constructor(
        'acme_eval_agent'), 'acme', 'the acme agent without acme')


def do_winds(case, rec):
  f = run_helpers.get_wind_field_factory('simple')
  rec.check(isinstance(f(), wind_field.SimpleStaticWindField), 'simple',
            f'{f()}')
  g = run_helpers.get_wind_field_factory('generative')
  from mc.checks import c34
  w = c34.with_model(lambda p: g())
  rec.check(isinstance(w, grid_based_wind_field.GridBasedWindField), 'generative',
            f'{w}')
  import jax
  a = c34.with_model(lambda p: generative_wind_field.GenerativeWindFieldSampler(
  ).sample_field(jax.random.PRNGKey(1), None))
  w.reset_forecast(jax.random.PRNGKey(1), None)
  from balloon_learning_environment.utils import units
  import datetime as dt
  v = w.get_forecast(units.Distance(km=0.), units.Distance(km=0.), 5000.,
                     dt.timedelta())
  rec.check(np.allclose([v.u.meters_per_second, v.v.meters_per_second],
                        a[10, 10, 0, 0], rtol=1e-4, atol=1e-5), 'generative',
            'the generative wind field does not serve generated winds')
  # Every wind field built is its own: another one in use changes nothing.
  def apart(make):
    one, two = make(), make()
    t0 = dt.datetime(2013, 3, 25, tzinfo=dt.timezone.utc)
    ask = lambda f: [(x.u.meters_per_second, x.v.meters_per_second)
                     for h in (0, 7) for x in (f.get_ground_truth(
                         units.Distance(km=30. * h), units.Distance(km=-20.),
                         8000., dt.timedelta(hours=h)),)]
    one.reset(jax.random.PRNGKey(1), t0)
    before = ask(one)
    two.reset(jax.random.PRNGKey(2), t0)
    rec.check(ask(one) == before and ask(two) != before, 'apart',
              f'{make}: two wind fields built by one factory are one')
    rec.trans(3)
  apart(f)
  c34.with_model(lambda p: apart(g))
  c34.with_model(lambda p: apart(
      lambda: run_helpers.get_wind_field_factory('generative')()))
  for n in NEAR + [None, 'dqn']:
    rec.raises(ValueError, lambda: run_helpers.get_wind_field_factory(n),
               'unknown', f'wind field {n!r}')
    rec.ev(outcome=n)
  rec.state('winds')
  rec.trans(3)


def do_collectors(case, rec):
  names = {'console': 'ConsoleCollector', 'pickle': 'PickleCollector',
           'tensorboard': 'TensorboardCollector'}
  for r in range(0, 4):
    for sel in itertools.product(names, repeat=r):
      got = list(train_lib.get_collector_data(list(sel)))
      rec.check([c.__name__ for c in got] == [names[s] for s in sel],
                'collectors', f'{sel} gives {got}')
      rec.ev(outcome=sel)
      rec.state(sel)
  # Unknown names are skipped.
  for bad in (['Console'], ['console', 'x', 'pickle'], [''], ['pickle ']):
    got = [c.__name__ for c in train_lib.get_collector_data(bad)]
    rec.check(got == [names[b] for b in bad if b in names], 'collectors',
              f'{bad} gives {got}')


def do_create(case, rec):
  name = case['name']
  import tensorflow as tf  # pylint: disable=unused-import
  with agents.scratch() as top:
    from mc.checks import c32
    data, _ = c32.graph(1)
    path = os.path.join(top, 'p.pb')
    with open(path, 'wb') as f:
      f.write(data)
    for n in (3,):
      gin.clear_config()
      small = [f"load_perciatelli44.path = '{path}'"]
      if name == 'dqn':
        small += ['networks.MLPNetwork.hidden_units=2',
                  'OutOfGraphReplayBuffer.replay_capacity=60']
      if name.startswith(('quantile', 'fine')):
        small += ['agents.networks.QuantileNetwork.hidden_units=9',
                  'JaxQuantileAgent.num_atoms=4',
                  'OutOfGraphPrioritizedReplayBuffer.replay_capacity=60']
      run_helpers.bind_gin_variables(name, None, small)
      a = run_helpers.create_agent(name, n, observation_shape=(1099,))
      rec.check(type(a).__name__ == CLASSES[name], 'create',
                f'agent {name!r} is a {type(a).__name__}')
      rec.check(a.get_name() == CLASSES[name], 'create', a.get_name())
      act = a.begin_episode(np.full(1099, .5, np.float32))
      rec.check(int(act) in range(n), 'create', f'{name}: action {act!r}')
      if name in ('dqn', 'quantile', 'finetune_perciatelli'):
        rec.check(a.gamma == .993 and a.update_horizon == 5 and
                  a.min_replay_history == 500 and a.update_period == 4 and
                  a.target_update_period == 100, 'configured', f'{name}: not '
                  'its own configuration')
      if name == 'finetune_perciatelli':
        _, layers = c32.graph(1)
        for p in (a.online_params, a.target_network_params):
          got = agents.dense(p)
          rec.check(all(np.array_equal(g[0], l[0]) and
                        np.array_equal(g[1], l[1])
                        for g, l in zip(got, layers)) and len(got) == 8,
                    'finetune', 'does not start from the Perciatelli weights')
      if name == 'quantile':
        ex = [type(v).__name__ for v in vars(a).values()
              if isinstance(v, exploration.Exploration)]
        rec.check(ex == ['MarcoPoloExploration'], 'explores', f'{ex}')
      rec.ev(outcome=name)
      rec.state((name, n))
      rec.trans()


@gin.configurable(module='mcc')
def probe(a=None, b=None, c=None):
  return (a, b, c)


def do_gin(case, rec):
  """File < additional files in order < bindings in order."""
  contents = ['', 'probe.a = {0}', 'probe.a = {0}\nprobe.b = {0}',
              'probe.b = {0}']
  vals = range(len(contents)) if case['full'] else (0, 2, 3)
  binds = [[], ['probe.a = 91'], ['probe.a = 91', 'probe.a = 92'],
           ['probe.b = 93', 'probe.c = 94'],
           ["probe.c = 'x=y'", 'probe.a = 95']]
  agent = case['agent']
  cwd = os.getcwd()
  with agents.scratch() as top:
    def put(name, i, v):
      p = os.path.join(top, name)
      with open(p, 'w') as f:
        f.write(contents[i].format(v) + '\n')
      return p
    try:
      for w in itertools.product(
          vals if case['override'] else (0,), [None] + list(vals),
          [None] + list(vals), range(len(binds)), (top, cwd)):
        own, one, two, bi, here = w
        os.chdir(here)
        gin.clear_config()
        want = dict(a=None, b=None, c=None)

        def learn(i, v):
          if i in (1, 2):
            want['a'] = v
          if i in (2, 3):
            want['b'] = v
        f = None
        if case['override']:
          f = put('own.gin', own, 10)
          if here == top and one is None:
            f = 'own.gin'
          learn(own, 10)
        add = []
        if one is not None:
          add.append(put('one.gin', one, 20))
          learn(one, 20)
        if two is not None:
          add.append(put('two.gin', two, 30))
          learn(two, 30)
        for b in binds[bi]:
          k, v = b.split(' = ')
          want[k[-1]] = eval(v)  # pylint: disable=eval-used
        run_helpers.bind_gin_variables(agent, f, binds[bi], add)
        got = probe()
        rec.check(got == (want['a'], want['b'], want['c']), 'order',
                  f'{agent}, own {f} {own}, files {one, two}, bindings '
                  f'{binds[bi]} in {here}: {got}, expected {want}')
        if agent in FILES:
          mark = {'mlp': 'networks.MLPNetwork.hidden_units',
                  'dqn': 'JaxDQNAgent.gamma',
                  'quantile': 'JaxQuantileAgent.gamma'}[agent]
          try:
            v = gin.query_parameter(mark)
          except ValueError:
            v = None
          exp = None if case['override'] else {'mlp': 256}.get(agent, .993)
          rec.check(v == exp, 'default', f'{agent}, override '
                    f'{case["override"]}: {mark} is {v}, expected {exp}')
        rec.trans()
        rec.state((agent, w[:4]))
        rec.ev(outcome=(agent, case['override'], w[:4]))
        rec.trace()
    finally:
      os.chdir(cwd)
    for bad in (['nowhere.Thing.x = 1'], ['probe.zz = 1'], ['garbage']):
      gin.clear_config()
      rec.raises(Exception, lambda: run_helpers.bind_gin_variables(
          agent, None, bad), 'bad-binding', f'binding {bad}')
    gin.clear_config()
    rec.raises(Exception, lambda: run_helpers.bind_gin_variables(
        agent, os.path.join(top, 'absent.gin')), 'absent', 'an absent file')
    rec.raises(Exception, lambda: run_helpers.bind_gin_variables(
        agent, None, [], [os.path.join(top, 'absent.gin')]), 'absent',
               'an absent additional file')


CHILD = r'''
import json, os, sys
top, name = sys.argv[1:3]
sys.path.insert(0, os.path.join(top, 'pkg'))
from balloon_learning_environment.models import models
assert models.__file__.startswith(top), models.__file__
fname = {'offlineskies22': 'offlineskies22_decoder.msgpack',
         'perciatelli44': 'perciatelli44.pb'}[name]
load = getattr(models, 'load_' + name)
pk = os.path.join(top, 'pkg/balloon_learning_environment/models', fname)
os.makedirs(os.path.join(top, 'cwd/balloon_learning_environment/models'))
os.chdir(os.path.join(top, 'cwd'))
rel = os.path.join('balloon_learning_environment/models', fname)
good = os.path.join(top, 'good.bin')
def put(p, data):
  if data is None:
    if os.path.exists(p): os.remove(p)
  else:
    open(p, 'wb').write(data)
put(good, b'given')
put('good.bin', b'given-relative')
out = []
import gin
for p in (False, True):
  for r in (False, True):
    put(pk, b'packaged' if p else None)
    put(rel, b'relative' if r else None)
    for path in (None, good, 'good.bin', os.path.join(top, 'bad.bin'), rel, ''):
      for via in ('arg', 'gin'):
        gin.clear_config()
        try:
          if via == 'gin':
            if path is not None:
              gin.bind_parameter('load_%s.path' % name, path)
            v = load()
          else:
            v = load(path)
          v = v.decode() if isinstance(v, bytes) else repr(v)
        except Exception as e:
          v = type(e).__name__
        out.append([p, r, path and path.replace(top, 'TOP'), via, v])
print('RESULT' + json.dumps(out))
'''


def do_models(case, rec):
  src = os.path.dirname(balloon_learning_environment.__file__)
  with agents.scratch() as top:
    top = os.path.realpath(top)
    dst = os.path.join(top, 'pkg', 'balloon_learning_environment')
    os.makedirs(dst)
    open(os.path.join(dst, '__init__.py'), 'w').close()
    shutil.copytree(os.path.join(src, 'models'), os.path.join(dst, 'models'),
                    ignore=shutil.ignore_patterns(
                        '__pycache__', '*.msgpack', '*.pb'))
    r = subprocess.run([sys.executable, '-c', CHILD, top, case['name']],
                       capture_output=True, text=True, cwd=top,
                       env=dict(os.environ, PYTHONPATH='',
                                PYTHONDONTWRITEBYTECODE='1'))
    lines = [l for l in r.stdout.splitlines() if l.startswith('RESULT')]
    if not rec.check(lines, 'models', f'{case}: {r.stderr[-800:]}'):
      return
    for p, rl, path, via, got in json.loads(lines[0][6:]):
      if path is None:
        want = 'packaged' if p else 'relative' if rl else 'RuntimeError'
      elif path == 'TOP/good.bin':
        want = 'given'
      elif path == 'good.bin':
        want = 'given-relative'
      elif path.startswith('balloon'):
        want = 'relative' if rl else 'ValueError'
      else:
        want = 'ValueError'
      rec.check(got == want, 'lookup', f'{case["name"]}: path {path} ({via}), '
                f'packaged {p}, relative {rl}: {got}, expected {want}')
      rec.trans()
      rec.state((case['name'], p, rl, path, via))
      rec.ev(outcome=(case['name'], p, rl, path, via))
    rec.trace()


def do_gym(case, rec):
  import gym
  from gym.envs import registration
  from balloon_learning_environment.env import balloon_env
  from balloon_learning_environment.env import gym as ble_gym
  before = len(registration.registry)
  for _ in range(3):
    ble_gym.register_env()
  rec.check(len(registration.registry) == before, 'register', 'registered '
            'again')
  for name in ('BalloonLearningEnvironment-v0',
               'balloon_learning_environment:BalloonLearningEnvironment-v0'):
    for s in (0, 4):
      env = gym.make(name, wind_field_factory=wind_field.SimpleStaticWindField,
                     seed=s, disable_env_checker=True)
      rec.check(type(env.unwrapped) is balloon_env.BalloonEnv, 'gym',
                f'{name} is {env}')
      rec.check(isinstance(env.unwrapped.get_simulator_state().wind_field,
                           wind_field.SimpleStaticWindField), 'gym',
                'the wind field named is not used')
      o = env.unwrapped.reset()
      ref = balloon_env.BalloonEnv(
          wind_field_factory=wind_field.SimpleStaticWindField, seed=s)
      rec.check(np.array_equal(o, ref.reset()), 'gym', f'{name}, seed {s}: '
                'another environment than the class builds')
      rec.ev(outcome=(name, s))
      rec.state((name, s))
  rec.raises(Exception, lambda: gym.make('BalloonLearningEnvironment-v7'),
             'gym', 'an unknown version')


def do_main(case, rec):
  """The training entry point with the loop recorded."""
  import matplotlib
  matplotlib.use('Agg')
  from absl import flags
  from balloon_learning_environment import train
  from mc.checks import c34

  def go(_):
    with agents.scratch() as top:
      for wind, rend, cols, over, nums in itertools.product(
          ('simple', 'generative'), (None, 'matplotlib'),
          ([], ['console'], ['pickle', 'console']), (False, True),
          ((7, 30, 2, 4, 1), (1, 960, 10, 1, 3))):
        if rend and cols:
          continue
        args = ['train', f'--agent={case["agent"]}', f'--base_dir={top}',
                f'--wind_field={wind}', f'--num_iterations={nums[0]}',
                f'--max_episode_length={nums[1]}',
                f'--render_period={nums[2]}',
                f'--episodes_per_iteration={nums[3]}',
                f'--run_number={nums[4]}']
        if rend:
          args.append(f'--renderer={rend}')
        args += [f'--collectors={c}' for c in cols]
        if over:
          args.append('--gin_bindings=probe.a = 5')
        calls = []
        keep = gin.query_parameter('load_offlineskies22.path')
        gin.clear_config()
        gin.bind_parameter('load_offlineskies22.path', keep)
        flags.FLAGS.unparse_flags()
        for n in ('collectors', 'gin_bindings', 'renderer'):
          flags.FLAGS[n].unparse() if hasattr(
              flags.FLAGS[n], 'unparse') else None
        flags.FLAGS(args)
        with mock.patch.object(train_lib, 'run_training_loop',
                               lambda *a, **k: (calls.append((a, k)),
                                                a[1].reset())):
          train.main(args[:1])
        where = f'{args[1:]}'
        png = os.path.join(top, 'balloon_path.png')
        rec.check(os.path.exists(png) == bool(rend), 'main-image', f'{where}: '
                  f'image written: {os.path.exists(png)}')
        if os.path.exists(png):
          os.remove(png)
        if not rec.check(len(calls) == 1, 'main', f'{where}: {len(calls)} '
                         'training loops'):
          continue
        import inspect
        sig = inspect.signature(train_lib_loop)
        b = sig.bind(*calls[0][0], **calls[0][1])
        b.apply_defaults()
        g = b.arguments
        vals = list(g.values())
        rec.check(vals[0] == os.path.join(top, case['agent'], str(nums[4])),
                  'main-dir', f'{where}: trains in {vals[0]}')
        env, agent = vals[1], vals[2]
        inner = env.unwrapped.get_simulator_state().wind_field
        rec.check(isinstance(inner, wind_field.SimpleStaticWindField) ==
                  (wind == 'simple') and isinstance(
                      inner, grid_based_wind_field.GridBasedWindField) ==
                  (wind == 'generative'), 'main-wind', f'{where}: {inner}')
        r = [type(v).__name__ for v in vars(env.unwrapped).values()
             if isinstance(v, renderer.Renderer)]
        rec.check(r == (['MatplotlibRenderer'] if rend else []),
                  'main-renderer', f'{where}: {r}')
        rec.check(type(agent).__name__ == CLASSES[case['agent']], 'main-agent',
                  f'{where}: {agent}')
        rec.check(g['num_iterations'] == nums[0] and
                  g['max_episode_length'] == nums[1] and
                  g['render_period'] == nums[2] and
                  g['episodes_per_iteration'] == nums[3], 'main-numbers',
                  f'{where}: {vals[3:]}')
        names = [c.__name__.replace('Collector', '').lower()
                 for c in g['collector_constructors']]
        rec.check(names == (cols or ['console']), 'main-collectors',
                  f'{where}: {names}')
        rec.check(probe()[0] == (5 if over else None), 'main-binding',
                  f'{where}: {probe()}')
        rec.trans()
        rec.ev(outcome=tuple(args[3:]))
        rec.state((case['agent'], wind, rend, tuple(cols), over, nums))
      rec.trace()
      import matplotlib.pyplot as plt
      plt.close('all')
  c34.with_model(go)


train_lib_loop = train_lib.run_training_loop
