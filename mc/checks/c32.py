"""C32: baseline controllers."""
import copy
import itertools
import math
import os

from balloon_learning_environment.agents import agent as agent_lib
from balloon_learning_environment.agents import perciatelli44
from balloon_learning_environment.agents import random_walk_agent
from balloon_learning_environment.agents import station_seeker_agent
from mc import agents
import gin
import numpy as np

PROP, LEVEL = 'C32', 'model_checking'
TECHNIQUE = ('exhaustive lattices of wind columns for the station seeker, '
             'all words of episodes for the random walk with its hidden target '
             'located by probing copies, compared with reference controllers')
RULE = ('pairs: two reachable levels out of a lattice of uncertainty x bearing '
        'x magnitude on both sides of the balloon at several distances and '
        'offsets: the action shows which one is preferred. column: full columns '
        'with 1 to 3 changed levels and every window of reachable levels of a '
        'grid. walk: sequences of episodes and steps for a set of keys; at each '
        'step copies of the agent are probed with a bisected pressure. '
        'frozen: the frozen agent on generated graphs. random: actions of the '
        'random agent for action counts 1 to 4.')
ASSUMPTIONS = ['scores closer than 1e-5 are not ordered',
               'the distribution of the walk is judged on an enumerated set of '
               'keys within 5 standard deviations',
               'the published Perciatelli44 weights are not in this checkout: '
               'graphs of its layout are generated']

CENTER = 180
UP, DOWN, STAY = 2, 0, 1


def column(distance, levels):
  """1099 features with the given {level: (uncertainty, bearing, magnitude)}."""
  f = np.zeros(1099, np.float32)
  f[7] = distance / (250. + distance)
  w = f[16:].reshape(361, 3)
  w[:] = (0., 1., 1.)
  for l, v in levels.items():
    w[l] = v
  return f


def score(f):
  """Reference scores of the valid levels, {level: score}."""
  x = float(f[7])
  d = 250. * x / (1. - x)
  w = f[16:].reshape(361, 3).astype(float)
  a = math.exp(-d / 35.)
  bw = .6 + (.45 - .6) * min(max((d - 250.) / 250., 0.), 1.)
  out = {}
  for l in range(361):
    u, b, m = w[l]
    if (u, b, m) == (0., 1., 1.):
      continue
    mag = 30. * m / (1. - m)
    wind = (1. - a) * math.exp(-bw * b * math.pi) + a * math.exp(-.07 * mag)
    out[l] = ((1. - u + .01) * wind + u * .5 +
              .05 * math.exp(-.001 * abs(l - CENTER)))
  return out


def allowed(f):
  """Actions towards a best level."""
  s = score(f)
  top = max(s.values())
  return {UP if l < CENTER else DOWN if l > CENTER else STAY
          for l, v in s.items() if v >= top - 1e-5}


def cases(tier):
  q = tier == 'quick'
  out = []
  for d in ((0., 20., 60., 251., 375., 700.) if q else
            (0., 10., 20., 35., 60., 120., 249., 251., 300., 375., 450., 499.,
             501., 700., 2000.)):
    for off in ((1, 1), (40, 3), (0, 100), (180, 180)):
      out.append(dict(kind='pairs', d=d, off=list(off), fine=not q))
  out += [dict(kind='column', d=d) for d in (0., 40., 300., 600.)]
  out += [dict(kind='windows', lo=lo) for lo in range(0, 181, 30 if q else 10)]
  out += [dict(kind='walk', keys=[k, k + 4], n=12 if q else 25)
          for k in range(0, 48 if q else 192, 4)]
  out += [dict(kind='walkall', keys=48 if q else 192, n=12)]
  out += [dict(kind='walklong', keys=[k, k + 20]) for k in range(
      2000, 2080 if q else 2320, 20)]
  out += [dict(kind='random'), dict(kind='refuse'), dict(kind='real')]
  out += [dict(kind='frozen', model=m) for m in range(2 if q else 6)]
  out.append(dict(kind='frozen', model=-1))
  return out


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def seeker():
  return station_seeker_agent.StationSeekerAgent(3, (1099,))


def judge(rec, a, f, where, first=True):
  before = f.copy()
  act = a.begin_episode(f) if first else a.step(.3, f)
  want = allowed(f)
  rec.transitions += 1
  rec.check(np.array_equal(before, f), 'pure', f'{where}: the observation was '
            'changed')
  ok = int(act) in want
  if len(want) > 1:
    rec.count('ties')
  rec.check(ok, 'seeker', f'{where}: action {act}, expected {want}')
  return int(act)


def do_pairs(case, rec):
  a = seeker()
  up, down = case['off']
  if case['fine']:
    vals = list(itertools.product((0., .3, .7, 1.), (0., .25, .5, .75, 1.),
                                  (0., .2, .5, .8, .95)))
  else:
    vals = list(itertools.product((0., .4, 1.), (0., .3, .6, 1.), (0., .3, .8)))
  for i, v in enumerate(vals):
    for j, w in enumerate(vals):
      f = column(case['d'], {CENTER - up: v, CENTER + down: w})
      act = judge(rec, a, f, f'{case["d"]} km, level -{up} {v}, level +{down} '
                  f'{w}', first=(i + j) % 2 == 0)
      rec.state((v, w, case['d'], act))
      if up == 0 or down == 0:
        rec.count(f'act{act}')
    rec.ev(outcome=(case['d'], tuple(case['off']), v), n=len(vals))
  rec.trace(len(vals) ** 2)


def do_column(case, rec):
  """Uniform columns with up to two better or worse levels."""
  a = seeker()
  base = [(.2, .5, .3), (1., .5, .5), (0., 0., 0.)]
  for b in base:
    for k in range(0, 361, 20):
      for v in ((0., 0., 0.), (.5, .1, .2), (0., .9, .9), (0., 1., 1.)):
        for k2 in (None, 10, 179, 181, 350):
          f = column(case['d'], {l: b for l in range(361)})
          f[16 + 3 * k:19 + 3 * k] = v
          if k2 is not None:
            f[16 + 3 * k2:19 + 3 * k2] = (.1, .2, .25)
          act = judge(rec, a, f, f'{case["d"]} km, column of {b}, level {k} '
                      f'{v}, level {k2}')
          rec.ev(outcome=(b, k, v, k2, act))
          rec.state((b, k, v, k2, act))
      rec.trace()


def do_windows(case, rec):
  """Columns whose reachable levels form every window of a grid."""
  a = seeker()
  lo = case['lo']
  for hi in range(181, 361, 15):
    for d in (10., 100., 400.):
      for g in (1., -1.):
        lv = {l: (.1 + .2 * ((l * 7) % 5) / 5,
                  .5 + .4 * math.sin(l / 20. * g), .3) for l in range(lo, hi)}
        if lo > CENTER:
          lv[CENTER] = (0., .5, .5)
        act = judge(rec, a, column(d, lv), f'levels {lo}..{hi} at {d} km')
        rec.ev(outcome=(lo, hi, d, g))
        rec.state((lo, hi, d, g, act))
        rec.trace()


def do_real(case, rec):
  """On observations of the real environment, deterministic in them."""
  from mc import world
  for kind in ('static', 'smooth'):
    env = world.make_env(3, kind)
    a, b = seeker(), seeker()
    obs = env.reset()
    for i in range(25):
      act = judge(rec, a, obs, f'{kind} environment, step {i}', first=i == 0)
      rec.check(act == int(b.begin_episode(obs)), 'memoryless', f'{kind} step '
                f'{i}: depends on the past')
      obs, _, done, _ = env.step(act)
      rec.ev(outcome=(kind, i, act))
      rec.state((kind, i))
      if done:
        break
    rec.trace()


# ------------------------------------------------------------- random walk
PMIN, PMAX = 5000., 14000.


def obs_at(p):
  f = np.zeros(1099, np.float32)
  f[0] = (p - PMIN) / (PMAX - PMIN)
  return f


def probe(rec, a, op, where):
  """The target after op ('begin' or 'step'), by bisection on copies."""
  def act(p):
    c = copy.deepcopy(a)
    v = c.begin_episode(obs_at(p)) if op == 'begin' else c.step(.1, obs_at(p))
    rec.transitions += 1
    if int(v) not in (0, 1, 2):
      rec.fail('valid', f'{where}: action {v!r}')
    return int(v)
  lo, hi = -3e5, 3e5
  if act(lo) != DOWN or act(hi) != UP:
    rec.fail('walk', f'{where}: actions {act(lo)}, {act(hi)} far from any '
             'target')
    return None
  # Edges: DOWN below target-100, UP above target+100.
  def edge(val, lo, hi):
    while hi - lo > .5:
      mid = (lo + hi) / 2
      if act(mid) == val:
        hi = mid
      else:
        lo = mid
    return (lo + hi) / 2
  u = edge(UP, lo, hi)
  s, e = lo, u
  while e - s > .5:
    mid = (s + e) / 2
    if act(mid) == DOWN:
      s = mid
    else:
      e = mid
  d = (s + e) / 2
  rec.check(abs(u - d - 200.) < 2.5, 'walk-band', f'{where}: goes up above '
            f'{u:.1f} and down below {d:.1f} Pa: {u - d:.1f} Pa apart, '
            'expected 200')
  for x in (d + 5., (u + d) / 2, u - 5.):
    rec.check(act(x) == STAY, 'walk-band', f'{where}: at {x} Pa, target '
              f'{(u + d) / 2}: does not stay')
  for x in (d - 5., d - 50., d - 800.):
    rec.check(act(x) == DOWN, 'walk-band', f'{where}: at {x} Pa, target '
              f'{(u + d) / 2}: does not descend')
  return (u + d) / 2


def path(rec, key, ops, full=True):
  """Targets along a word of 'b' and 's'."""
  a = random_walk_agent.RandomWalkAgent(3, (1099,), seed=key)
  out = []
  for i, o in enumerate(ops):
    op = 'begin' if o == 'b' else 'step'
    if full:
      out.append(probe(rec, a, op, f'random walk, key {key}, after {ops[:i]}'))
    a.begin_episode(obs_at(9000.)) if o == 'b' else a.step(1., obs_at(7000.))
  return out, a


def do_walk(case, rec):
  for key in range(*case['keys']):
    ops = 'b' + 's' * case['n']
    t, _ = path(rec, key, ops)
    if None in t:
      return
    rec.check(6500. <= t[0] + 1 and t[0] - 1 <= 11500., 'walk-start',
              f'key {key}: the first target is {t[0]}')
    # The same whatever the balloon does: probing with copies showed it is
    # decided before the observation; same key, same walk.
    u, _ = path(rec, key, ops[:4])
    rec.check(all(abs(x - y) < 1.5 for x, y in zip(t, u)), 'walk-key',
              f'key {key}: {t[:4]} and {u}')
    # A new episode draws a new target, and its walk starts afresh.
    v, _ = path(rec, key, ops[:6] + 'bsss')
    if None in v:
      return
    z = [(v[7 + i] - v[6 + i]) / (180. * .1666 * (i + 1)) for i in range(3)]
    rec.check(6500. <= v[6] + 1 and v[6] - 1 <= 11500. and
              abs(v[6] - t[0]) > 1e-3 and max(map(abs, z)) < 5., 'walk-restart',
              f'key {key}: after a new episode the targets are {v[6:]}')
    w, _ = path(rec, key, 'bbb')
    if None in w:
      return
    rec.check(max(abs(v[6] - v[5]), abs(w[1] - w[0]), abs(w[2] - w[1])) > 2.,
              'walk-restart', f'key {key}: new episodes keep the target: '
              f'{v[5:7]}, {w}')
    for i in range(1, len(t)):
      z = (t[i] - t[i - 1]) / (180. * .1666 * i)
      rec.check(abs(z) < 5., 'walk-step', f'key {key}: step {i} moves the '
                f'target by {t[i] - t[i - 1]} Pa: {z} standard deviations')
      rec.state((key, i, round(t[i])))
    rec.trace()
    rec.ev(outcome=(key, tuple(round(x) for x in t)))


def do_walkall(case, rec):
  """Mean and spread over the keys; targets read by coarse probing."""
  z = []
  first = []
  for key in range(case['keys']):
    a = random_walk_agent.RandomWalkAgent(3, (1099,), seed=1000 + key)
    prev = None
    for i in range(5):
      t = coarse(a, 'begin' if i == 0 else 'step')
      rec.transitions += 1
      if i == 0:
        first.append(t)
        a.begin_episode(obs_at(8000.))
      else:
        z.append((t - prev) / (180. * .1666 * i))
        a.step(0., obs_at(8000.))
      prev = t
    rec.ev(outcome=(key, round(prev)))
    rec.state(('all', key))
  n = len(z)
  m = sum(z) / n
  v = sum(x * x for x in z) / n
  rec.check(abs(m) < 5 / n ** .5, 'walk-mean', f'mean of {n} moves is {m} '
            'standard deviations')
  rec.check(abs(v - 1) < 5 * (2 / n) ** .5, 'walk-variance', f'variance of '
            f'{n} moves is {v} times the specified')
  rec.check(len(set(round(x) for x in z)) > 1 and
            len(set(round(x) for x in first)) > case['keys'] // 2, 'walk-keys',
            'the targets of different keys coincide')
  r = sum(x * y for x, y in zip(z, z[1:])) / n
  rec.check(abs(r) < 5 / n ** .5, 'walk-correlated', f'successive moves have '
            f'correlation {r}')
  rec.trace()


def do_walklong(case, rec):
  """The spread keeps growing with the time since the episode began."""
  z = {}
  for key in range(*case['keys']):
    a = random_walk_agent.RandomWalkAgent(3, (1099,), seed=key)
    a.begin_episode(obs_at(8000.))
    for i in range(1, 1013):
      late = i % 500 < 12 and i >= 500
      if late:
        t = coarse(a, 'step', 2e7)
      if late and i % 500:
        z.setdefault(i // 500, []).append((t - prev) / (180. * .1666 * i))
        rec.state((key, i))
      if late:
        prev = t
      a.step(0., obs_at(8000.))
      rec.transitions += 1
    rec.ev(outcome=(key, round(prev)))
    rec.trace()
  for when, v in z.items():
    var = sum(x * x for x in v) / len(v)
    rec.check(abs(var - 1) < 5 * (2 / len(v)) ** .5, 'walk-variance',
              f'after {500 * when} steps the variance of {len(v)} moves is '
              f'{var} times the specified')


def coarse(a, op, far=1e5):
  lo, hi = -far, far
  while hi - lo > 4.:
    mid = (lo + hi) / 2
    c = copy.deepcopy(a)
    v = c.begin_episode(obs_at(mid)) if op == 'begin' else c.step(
        0., obs_at(mid))
    if int(v) == UP:
      hi = mid
    else:
      lo = mid
  return (lo + hi) / 2 - 100.


# ------------------------------------------------------------- others
def do_random(case, rec):
  for n in (1, 2, 3, 4):
    a = agent_lib.RandomAgent(n, (1099,))
    seqs = []
    for s in (1, 1, 2):
      np.random.seed(s)
      seq = [a.begin_episode(np.zeros(1099))] + [
          a.step(0., np.zeros(1099)) for _ in range(300)]
      a.end_episode(0.)
      seqs.append([int(x) for x in seq])
      rec.transitions += 301
    rec.check(all(0 <= x < n for s in seqs for x in s), 'random-valid',
              f'{n} actions: {set(seqs[0])}')
    rec.check(set(seqs[0]) == set(range(n)), 'random-all', f'{n} actions: only '
              f'{set(seqs[0])}')
    for x in range(n):
      c = seqs[0].count(x) / 301
      rec.check(abs(c - 1 / n) <= 5 * (1 / n * (1 - 1 / n) / 301) ** .5,
                'random-uniform', f'{n} actions: {x} with frequency {c}')
    rec.check(seqs[0] == seqs[1] and (n == 1 or seqs[0] != seqs[2]),
              'random-seed', f'{n} actions: not a function of the seed')
    rec.ev(outcome=n)
    rec.state(n)
    rec.trace(3)


def do_refuse(case, rec):
  a = seeker()
  rec.raises(Exception, lambda: a.begin_episode(column(10., {})),
             'no-level', 'no reachable level')
  for n in (0, 16, 1098, 1100):
    f = np.zeros(n, np.float32)
    rec.raises(Exception, lambda: a.begin_episode(f), 'shape', f'{n} features')
    rec.raises(Exception, lambda: random_walk_agent.RandomWalkAgent(
        3, (1099,), seed=0).begin_episode(f), 'shape', f'{n} features (walk)')
  for bad in (None,):
    rec.raises(Exception, lambda: a.begin_episode(bad), 'shape', 'None')
    rec.raises(Exception, lambda: a.step(0., bad), 'shape', 'None')
  for f in (seeker(), random_walk_agent.RandomWalkAgent(3, (1099,), seed=0),
            agent_lib.RandomAgent(3, (1099,))):
    rec.check(f.get_name() == type(f).__name__, 'name', f.get_name())
    rec.check(f.reload_latest_checkpoint('/nonexistent') == -1, 'nothing',
              f'{f.get_name()} restores a checkpoint')
    f.set_mode('eval')
    f.set_mode(agent_lib.AgentMode.TRAIN)
    f.save_checkpoint('/nonexistent', 1)
    f.load_checkpoint('/nonexistent', 1)
    rec.check(not os.path.exists('/nonexistent'), 'nothing', 'files written')
    rec.ev(outcome=f.get_name())
  rec.state('refuse')


def graph(seed):
  """A frozen graph laid out like Perciatelli44: (bytes, layers)."""
  import tensorflow as tf
  tf1 = tf.compat.v1
  r = np.random.RandomState(seed)
  layers = []
  g = tf.Graph()
  with g.as_default():
    x = h = tf1.placeholder(tf.float32, [1, 1099], name='observation')
    with tf1.name_scope('Online'):
      for i in range(8):
        n = 'fully_connected' + (f'_{i}' if i else '')
        shape = (1099 if i == 0 else 9, 12 if i == 7 else 9)
        k = (r.randn(*shape) / shape[0] ** .5).astype('f')
        if 0 < i < 7:
          k = (np.eye(9) + .2 * k).astype('f')
        b = (.3 * r.randn(shape[1]) + (i == 0)).astype('f')
        layers.append((k.astype(float), b.astype(float)))
        w = tf.identity(tf.constant(k, name=n + '/weights'),
                        name=n + '/weights/read')
        h = tf.matmul(h, w) + tf.constant(b, name=n + '/biases')
        if i < 7:
          h = tf.nn.relu(h)
    q = tf.reduce_mean(tf.reshape(h, [1, 3, 4]), axis=2, name='q_values')
    tf.argmin(q, axis=1, name='sleepwalk_action')
  return g.as_graph_def().SerializeToString(), layers


def do_frozen(case, rec):
  models = range(3) if case['model'] < 0 else [case['model']]
  obs = [np.random.RandomState(i).uniform(-1, 2, 1099).astype('f')
         for i in range(60)]
  from balloon_learning_environment.agents import quantile_agent
  with agents.scratch() as top:
    alive = []
    acts = set()
    for m in models:
      data, layers = graph(m)
      path_ = os.path.join(top, f'{m}.pb')
      with open(path_, 'wb') as f:
        f.write(data)
      gin.clear_config()
      gin.bind_parameter('load_perciatelli44.path', path_)
      alive.append((m, perciatelli44.Perciatelli44(3, [1099]), layers))
      w = quantile_agent.QuantileAgent.load_perciatelli_weights()
      got = agents.dense(w)
      rec.check(len(got) == 8 and all(
          np.array_equal(g[0], l[0]) and np.array_equal(g[1], l[1])
          for g, l in zip(got, layers)), 'weights', f'the weights taken from '
                'the frozen agent are not the ones of its model')
      for n, a, lay in alive:
        for i, o in enumerate(obs):
          q = agents.mlp(lay, o).reshape(3, 4).mean(axis=1)
          act = a.begin_episode(o) if i % 2 else a.step(1., o)
          rec.check(isinstance(act, int) and q[act] >= q.max() - 1e-5, 'frozen',
                    f'frozen agent of model {n} (model {m} loaded last), '
                    f'observation {i}: action {act!r}, values {q}')
          rec.transitions += 1
          rec.state((n, i, act))
          acts.add((n, act))
        a.end_episode(0., True)
        rec.trace()
        rec.ev(outcome=(n, m))
    for n, s in ((2, [1099]), (4, [1099]), (3, [1098]), (3, [1099, 1]),
                 (3, [])):
      rec.raises(ValueError, lambda: perciatelli44.Perciatelli44(n, s),
                 'frozen-shape', f'{n} actions, shape {s}')
  gin.clear_config()
  rec.check(len(acts) > len(models), 'vacuous', f'only {acts}')
