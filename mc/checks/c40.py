"""C40: the training program."""
import glob
import itertools
import os
import pickle
import types

from absl import flags
from balloon_learning_environment import train
from balloon_learning_environment.agents import agent_registry
from balloon_learning_environment.env import generative_wind_field
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.rendering import matplotlib_renderer
import gin
import gym
from gym.envs import registration
import matplotlib.image
from mc import agents
from mc import scripted
from mc.checks import c25
import numpy as np

PROP, LEVEL = 'C40', 'model_checking'
RULE = ('grid: every combination of iterations, episodes per iteration, step '
        'limit, render period and episode end within small bounds, given as '
        'flags to the real main(), with a recording environment and agents: '
        'the protocol equals the reference word of the training loop. '
        'histories: every word of runs of the program over (agent, run '
        'number, iterations): each run continues its own checkpoints only. '
        'wiring: every wind field, renderer, collector subset, image, gin '
        'source combination. refuse: unknown names.')
ASSUMPTIONS = ['the environment and the learning agents are recording '
               'stand-ins registered under names of their own; the flags, the '
               'program, the loop, the collectors and gin are the real ones']

F = flags.FLAGS
NOW = types.SimpleNamespace(log=[], lengths=[], image=None, envs=[], agents=[])


class ProbeEnv(scripted.Env):
  """Records how it was made; its spaces are unlike the balloon's."""
  metadata = {'render_modes': ['human', 'rgb_array'], 'render_fps': 1}
  ACTIONS, SHAPE = 5, (7,)

  def __init__(self, **kw):
    super().__init__(NOW.lengths, NOW.log)
    self.action_space = gym.spaces.Discrete(self.ACTIONS)
    self.observation_space = gym.spaces.Box(-1., 1., self.SHAPE)
    NOW.envs.append((type(self).__name__, kw))

  def render(self, mode='human', **kw):
    self.log.append(('render',))
    return NOW.image


class OtherEnv(ProbeEnv):
  ACTIONS, SHAPE = 2, (3, 4)


class Probe(scripted.Agent):
  """Leaves an empty file per checkpoint, and continues after the last."""

  def __init__(self, num_actions, observation_shape=None, level=0, depth=0,
               width=0):
    super().__init__(NOW.log, num_actions)
    NOW.agents.append((type(self).__name__, num_actions,
                       tuple(observation_shape), level, depth, width))

  def save_checkpoint(self, d, i):
    super().save_checkpoint(d, i)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, f'probe.{i}'), 'w').close()

  def reload_latest_checkpoint(self, d):
    super().reload_latest_checkpoint(d)
    return max([int(f.rsplit('.', 1)[1]) for f in
                glob.glob(os.path.join(glob.escape(d), 'probe.*'))] or [-1])


class Probe2(Probe):
  pass


Probe = gin.configurable('MCProbe')(Probe)
Probe2 = gin.configurable('MCProbe2')(Probe2)
ENVS = {'MCProbe-v0': ProbeEnv, 'MCOther-v3': OtherEnv}
for _n, _c in ENVS.items():
  if _n not in registration.registry:
    registration.register(id=_n, entry_point=_c, disable_env_checker=True,
                          order_enforce=False)


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='grid', its=i, epi=e, limit=m, tier=tier)
         for i in (0, 1, 2, 3) for e in (1, 2, 3) for m in (1, 2, 3)
         if i * e <= (4 if q else 6)]
  out += [dict(kind='histories', first=a, depth=3 if q else 4)
          for a in range(len(RUNS) * 2)]
  out += [dict(kind='wiring', part=p) for p in (
      'winds', 'collectors', 'image', 'gin', 'refuse', 'defaults')]
  return out


def run(case, rec):
  saved = dict(agent_registry.REGISTRY)
  try:
    agent_registry.REGISTRY['probe'] = (Probe, None)
    agent_registry.REGISTRY['probe2'] = (Probe2, None)
    globals()['do_' + case['kind']](case, rec)
  finally:
    agent_registry.REGISTRY.clear()
    agent_registry.REGISTRY.update(saved)
    gin.clear_config()
  rec.sample(case)


def parse(argv):
  for names in F.flags_by_module_dict().values():
    for f in names:
      f.unparse()
      f.using_default_value = True
  F(['train'] + argv)


def program(base, lengths=(), image=None, env='MCProbe-v0', agent='probe',
            wind='simple', **kw):
  """One run of the program; returns what the environment and agent saw."""
  argv = [f'--base_dir={base}', f'--env_name={env}', f'--agent={agent}',
          f'--wind_field={wind}']
  if 'collectors' not in kw:
    argv.append('--collectors=nosuch')
  for k, v in kw.items():
    for x in (v if isinstance(v, (list, tuple)) else [v]):
      argv.append(f'--{k}={x}')
  gin.clear_config()
  NOW.log, NOW.lengths, NOW.image = [], lengths, image
  NOW.envs, NOW.agents = [], []
  parse(argv)
  train.main(['train'])
  return NOW.log


def words(log):
  return [x for x in log if x[0] in ('reset', 'begin', 'step', 'env', 'end',
                                     'save')]


def renders(log):
  out = []
  for i, x in enumerate(log):
    if x[0] == 'env':
      nxt = [y[0] for y in log[i + 1:]]
      cut = next((k for k, y in enumerate(nxt) if y in ('env', 'end')),
                 len(nxt))
      out.append('render' in nxt[:cut])
  return out


def actions(n):
  """The reference word of c25 acts among 3; these agents among n."""
  k = 0

  def fix(word):
    nonlocal k
    a = None
    out = []
    for x in word:
      if x[0] in ('begin', 'step'):
        k += 1
        a = (k * k + 1) % n
        out.append(x[:-1] + (a,))
      elif x[0] == 'env':
        out.append(('env', a))
      else:
        out.append(x)
    return out
  return fix


def do_grid(case, rec):
  its, epi, limit = case['its'], case['epi'], case['limit']
  n = its * epi
  lens = [1, limit, None] if n <= 2 else [1, None]
  for lengths in itertools.product(sorted(set(lens), key=str), repeat=n):
    for period in ((1, 2, 3) if n <= 2 or case['tier'] != 'quick' else (2,)):
      with agents.scratch() as base:
        log = program(base, lengths, num_iterations=its,
                      episodes_per_iteration=epi, max_episode_length=limit,
                      render_period=period)
        ref = dict(its=its, epi=epi, limit=limit, start=-1)
        ea, _, re_ = c25.expected(ref, lengths, os.path.join(base, 'probe',
                                                             '1'), period)
        where = f'{case} lengths {lengths} period {period}'
        c25.diff(rec, words(log), actions(5)(ea), 'protocol', where)
        c25.diff(rec, renders(log), re_, 'render', where)
        rec.check(len(NOW.envs) == 1 and len(NOW.agents) == 1, 'once',
                  f'{where}: made {NOW.envs} and {NOW.agents}')
      rec.ev(outcome=(its, epi, limit, lengths, period))
      rec.trans(len(log))
      rec.trace()
      rec.state((its, epi, limit, lengths))


RUNS = [('probe', 1), ('probe', 11), ('probe2', 1), ('probe', 0)]


def do_histories(case, rec):
  """Words of runs; each continues the checkpoints of its name and number."""
  ops = [(a, n, i) for a, n in RUNS for i in (1, 3)]
  for rest in itertools.product(range(len(ops)), repeat=case['depth'] - 1):
    word = (case['first'],) + rest
    done = {}
    with agents.scratch() as base:
      for j, o in enumerate(word):
        a, n, i = ops[o]
        log = program(base, agent=a, run_number=n, num_iterations=i,
                      episodes_per_iteration=1, max_episode_length=1)
        ck = os.path.join(base, a, str(n), 'checkpoints')
        start = done.get((a, n), 0)
        where = f'run {j} of {[ops[k] for k in word]}'
        rec.check([x for x in log if x[0] == 'save'] == [
            ('save', ck, k) for k in range(start, i)], 'continues',
            f'{where}: saves {[x[1:] for x in log if x[0] == "save"]}, '
            f'expected {list(range(start, i))} in {ck}')
        rec.check(sum(x[0] == 'reset' for x in log) == max(0, i - start),
                  'continues', f'{where}: {log}')
        rec.check([x for x in log if x[0] == 'reload'] == [('reload', ck)],
                  'continues', f'{where}: reloads from another directory')
        done[a, n] = max(start, i)
        rec.trans()
      rec.state(tuple(sorted(done.items())))
      rec.trace()
      rec.ev(outcome=word)


def do_wiring(case, rec):
  globals()['part_' + case['part']](case, rec)


def small(base, **kw):
  return program(base, **dict(dict(num_iterations=1, max_episode_length=2,
                                   episodes_per_iteration=2), **kw))


def part_winds(case, rec):
  del case
  winds = {'simple': wind_field.SimpleStaticWindField,
           'generative': generative_wind_field.generative_wind_field_factory}
  for w, env, agent, renderer in itertools.product(
      winds, ENVS, ('probe', 'probe2'), (None, 'matplotlib')):
    with agents.scratch() as base:
      kw = {} if renderer is None else {'renderer': renderer}
      small(base, wind=w, env=env, agent=agent, **kw)
      where = f'{w} {env} {agent} {renderer}'
      cls = ENVS[env]
      if not rec.check(len(NOW.envs) == 1 and len(NOW.agents) == 1, 'once',
                       f'{where}: made {NOW.envs}, {NOW.agents}'):
        continue
      name, made = NOW.envs[0]
      rec.check(name == cls.__name__, 'environment', f'{where}: {name}')
      made = dict(made)
      r = made.pop('renderer', None)
      rec.check(r is None if renderer is None else isinstance(
          r, matplotlib_renderer.MatplotlibRenderer), 'renderer',
                f'{where}: {r}')
      f = made.pop('wind_field_factory', None)
      rec.check(f is winds[w] or type(f()) is type(winds[w]()), 'wind',
                f'{where}: {f}')
      rec.check(not made, 'environment', f'{where}: also {made}')
      rec.check(NOW.agents[0][:3] == (
          {'probe': 'MCProbe', 'probe2': 'MCProbe2'}[agent].replace('MC', ''),
          cls.ACTIONS, cls.SHAPE), 'agent', f'{where}: {NOW.agents}')
      rec.ev(outcome=where)
      rec.trans()
      rec.trace()
      rec.state(where)


def part_collectors(case, rec):
  del case
  names = ['console', 'pickle', 'tensorboard', 'nosuch']
  for k in range(len(names) + 1):
    for i, sub in enumerate(itertools.permutations(names, k)):
      with agents.scratch() as base:
        kw = {'collectors': list(sub)} if sub else {}
        n = (1, 2, 11, 0)[i % 4]
        small(base, run_number=n, **kw)
        where = f'collectors {sub} run {n}'
        m = os.path.join(base, 'probe', str(n), 'metrics')
        got = sorted(d for d in (os.listdir(m) if os.path.isdir(m) else [])
                     if glob.glob(os.path.join(m, d, '*')))
        want = sorted(set(sub) - {'nosuch'})
        rec.check(got == want, 'collectors', f'{where}: wrote {got}')
        if 'pickle' in sub:
          fs = sorted(glob.glob(os.path.join(m, 'pickle', '*')))
          rec.check(len(fs) == 2, 'collectors', f'{where}: {fs}')
        top = [sorted(os.listdir(d)) for d in (base, os.path.join(base,
                                                                  'probe'))]
        rec.check(top == [['probe'], [str(n)]], 'apart', f'{where}: {top} in '
                  'the base directory')
        rec.ev(outcome=where)
        rec.trans()
        rec.trace()
        rec.state(where)


def part_image(case, rec):
  del case
  ims = {'none': None, 'list': [[1, 2]],
         'rgb': (np.arange(60).reshape(4, 5, 3) * 4).astype(np.uint8)}
  ims['other'] = 255 - ims['rgb']
  for word in itertools.product(ims, repeat=3):
    with agents.scratch() as base:
      last = None
      for i, k in enumerate(word):
        small(base, image=ims[k], run_number=(1, 1, 2)[i])
        last = k if k in ('rgb', 'other') else last
        f = os.path.join(base, 'balloon_path.png')
        got = None if not os.path.exists(f) else np.round(
            matplotlib.image.imread(f)[..., :3] * 255)
        rec.check((got is None) == (last is None) and
                  (got is None or np.array_equal(got, ims[last])), 'image',
                  f'run {i} of {word}: not the last image rendered')
        rec.trans()
      rec.ev(outcome=word)
      rec.trace()
  for (k, im), n, agent in itertools.product(ims.items(), (1, 3),
                                             ('probe', 'probe2')):
    with agents.scratch() as base:
      log = small(base, image=im, run_number=n, agent=agent)
      found = [os.path.relpath(f, base) for f in
               glob.glob(base + '/**', recursive=True) if f.endswith('.png')]
      want = ['balloon_path.png'] if k in ('rgb', 'other') else []
      rec.check(found == want, 'image', f'{k}: images {found}')
      if found == want and want:
        got = matplotlib.image.imread(os.path.join(base, found[0]))
        rec.check(np.array_equal(np.round(got[..., :3] * 255), im), 'image',
                  'the image saved is not the one rendered')
      last = [x[0] for x in log]
      rec.check(last[-1] == 'render' or not want, 'image',
                f'{k}: ends with {last[-3:]}')
      rec.ev(outcome=(k, n, agent))
      rec.trans()
      rec.trace()


def part_gin(case, rec):
  """Default file, file given, bindings: later ones win, per parameter."""
  del case
  with agents.scratch() as base:
    files = {}
    for name, text in (('default', 'MCProbe.level = 1\nMCProbe.depth = 1\n'
                        'MCProbe2.width = 9\n'),
                       ('given', 'MCProbe.depth = 2\n')):
      files[name] = os.path.join(base, name + '.gin')
      with open(files[name], 'w') as f:
        f.write(text)
    binds = [[], ['MCProbe.depth = 3'], ['MCProbe.width = 4'],
             ['MCProbe.level = 7', 'MCProbe.depth = 8'],
             ['MCProbe.level = 7', 'MCProbe.level = 6']]
    for has, given, bs in itertools.product((False, True), (False, True),
                                            binds):
      agent_registry.REGISTRY['probe'] = (Probe,
                                          files['default'] if has else None)
      want = dict(level=0, depth=0, width=0)
      if given:
        want['depth'] = 2
      elif has:
        want.update(level=1, depth=1)
      for b in bs:
        k, v = b.split('.')[1].split(' = ')
        want[k] = int(v)
      kw = {'agent_gin_file': files['given']} if given else {}
      if bs:
        kw['gin_bindings'] = bs
      small(os.path.join(base, 'runs'), num_iterations=0, **kw)
      where = f'default file {has}, given {given}, bindings {bs}'
      got = NOW.agents[0][3:] if NOW.agents else None
      rec.check(got == tuple(want.values()), 'gin', f'{where}: level, depth, '
                f'width {got}, expected {want}')
      rec.ev(outcome=where)
      rec.trans()
      rec.trace()
      rec.state(where)


def part_refuse(case, rec):
  del case
  for kw in (dict(wind='nosuch'), dict(wind=''), dict(agent='nosuch'),
             dict(env='NoSuch-v0'), dict(renderer='nosuch'),
             dict(gin_bindings='MCNoSuch.x = 1'),
             dict(gin_bindings='MCProbe.nosuch = 1'),
             dict(agent_gin_file='/nonexistent-dir/a.gin')):
    with agents.scratch() as base:
      out = os.path.join(base, 'out')
      try:
        small(out, **kw)
        rec.fail('refuse', f'{kw}: accepted')
      except Exception as e:  # pylint: disable=broad-except
        rec.ev(outcome=(str(kw), type(e).__name__))
      rec.check(not os.path.exists(out) and not NOW.log, 'refuse',
                f'{kw}: something was run')
      rec.trans()
      rec.trace()
  for missing in ([], ['--agent=probe']):
    rec.raises(flags.IllegalFlagValueError, lambda m=missing: parse(m),
               'refuse', 'no base directory')


def part_defaults(case, rec):
  del case
  parse(['--base_dir=x'])
  for k, v in dict(agent='dqn', env_name='BalloonLearningEnvironment-v0',
                   num_iterations=200, max_episode_length=960, run_number=1,
                   wind_field='generative', agent_gin_file=None,
                   collectors=['console'], gin_bindings=[], renderer=None,
                   render_period=10, episodes_per_iteration=50).items():
    rec.check(F[k].value == v, 'defaults', f'--{k} is {F[k].value!r} unless '
              f'given, expected {v!r}')
    rec.ev(outcome=k)
  # the whole program with the real environment and an agent that acts alone
  with agents.scratch() as base:
    program(base, env='BalloonLearningEnvironment-v0', agent='random',
            num_iterations=1, max_episode_length=2, episodes_per_iteration=2,
            collectors=['pickle'], renderer='matplotlib')
    fs = sorted(glob.glob(os.path.join(base, 'random', '1', 'metrics',
                                       'pickle', '*')))
    rec.check(len(fs) == 2, 'whole', f'{fs}')
    for f in fs:
      with open(f, 'rb') as g:
        rec.check(len(pickle.load(g)) == 3, 'whole', f'{f}: not two steps and '
                  'a summary')
    rec.check(os.path.exists(os.path.join(base, 'balloon_path.png')), 'whole',
              'no image of the flight')
    rec.trans(4)
    rec.trace()
