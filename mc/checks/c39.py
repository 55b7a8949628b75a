"""C39: the adapters to Acme, on stand-ins for Acme itself."""
import functools
import itertools
import os

from mc import acme_stub
acme_stub.install()

from balloon_learning_environment import acme_utils
from balloon_learning_environment.agents import acme_eval_agent
from balloon_learning_environment.agents import agent as agent_lib
from balloon_learning_environment.agents import marco_polo_exploration as mp
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.utils import units
from mc import agents
from mc import words
from mc import world
import gin
import jax
import numpy as np

PROP, LEVEL = 'C39', 'model_checking'
TECHNIQUE = ('all action words, episode-length words and call words of the '
             'adapters replayed on the real code (with stand-ins for the '
             'interfaces of Acme) against reference automata')
RULE = ('env: every action word up to a depth x step limits x distances from '
        'the station around the radius, training and evaluation, against the '
        'plain environment with the same seed. combined: every word of '
        'episode lengths around the phase changes x probability 0, 1, 0.5, '
        'over a scripted actor. maker: with and without an adder, over 200 '
        'draws. policy: every action as the best one x keys x epsilon. agent: '
        'all words of loads and queries up to a depth.')
ASSUMPTIONS = ['Acme, haiku, rlax and dm_env are not installed: stand-ins '
               'with the documented behaviour of their interfaces take their '
               'place (mc/acme_stub.py); training itself is not run',
               'an environment loop calls observe_first, then select_action, '
               'observe and update in turn']

RL, EX = 80, 40
RADIUS = 50.


class Drift(wind_field.WindField):
  """A uniform wind to the east."""

  def reset_forecast(self, key, date_time):
    pass

  def get_forecast(self, x, y, pressure, elapsed_time):
    return world.wind(9., 0.)


def cases(tier):
  q = tier == 'quick'
  depth = 3 if q else 5
  out = [dict(kind='env', limit=l, ev=e, depth=depth, oar=o)
         for l in ((1, 2, 3, 7) if q else (1, 2, 3, 4, 5, 7, 20))
         for e in (False, True) for o in ((False,) if l != 3 else
                                          (False, True))]
  out += [dict(kind='whole', start=s, n=48 if q else 480)
          for s in (-60., -20., 30., 70.)]
  lens = ([1, 2, 79, 80, 81, 82, 119, 120, 121, 122, 201, 241] if q else
          [1, 2, 40, 41, 79, 80, 81, 82, 119, 120, 121, 122, 160, 199, 200,
           201, 202, 239, 240, 241, 242, 330])
  out += [dict(kind='combined', lens=lens, first=a) for a in lens]
  out.append(dict(kind='maker', n=200 if q else 1000))
  out += [dict(kind='policy', part=i) for i in range(3)]
  out += [dict(kind='agent', depth=3 if q else 4, first=i) for i in range(8)]
  return out


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample({k: v for k, v in case.items() if k != 'lens'})


# ------------------------------------------------------------ environments
def inner(env):
  """The balloon environment inside of the wrappers."""
  while not isinstance(env, balloon_env.BalloonEnv):
    env = env.__dict__.get('environment', env.__dict__.get('_environment'))
  return env


def made(is_eval, limit, oar=False):
  # the environment takes its defaults from gin, as in training
  gin.clear_config()
  gin.parse_config('BalloonEnv.wind_field_factory = ' + agents.binding(
      'AcmeDrift', Drift))
  if oar:
    return acme_utils.create_env(is_eval, limit, oar_wrapper=True)
  return acme_utils.create_env(is_eval, limit)


def plain():
  return balloon_env.BalloonEnv(wind_field_factory=Drift, seed=1)


def within(env):
  b = env.get_simulator_state().balloon_state
  return float(b.x.kilometers) ** 2 + float(b.y.kilometers) ** 2 <= RADIUS ** 2


def place(env, x):
  b = env.arena.get_balloon_state()
  x, y = x if isinstance(x, tuple) else (x, 3.)
  b.x, b.y = units.Distance(km=x), units.Distance(km=y)


@functools.lru_cache(maxsize=None)
def truth(seed, x, word):
  """(observation, observations, rewards, dones, within) of a plain flight."""
  e = plain()
  e.seed(seed)
  first = e.reset()
  if x is not None:
    place(e, x)
  out = []
  for a in word:
    o, r, d, _ = e.step(a)
    out.append((o, float(r), bool(d), within(e)))
    if d:
      break
  return first, out


def flight(rec, env, limit, is_eval, seed, x, word, where, oar=False):
  """One episode against the plain environment; returns its rewards."""
  view = (lambda o: o.observation) if oar else (lambda o: o)
  inner(env).seed(seed)
  t = env.reset()
  first, want = truth(seed, x, word)
  rec.check(t.first() and np.array_equal(view(t.observation), first), 'first',
            f'{where}: the first time step is not that of the environment')
  if x is not None:
    place(inner(env), x)
  got = []
  for i, a in enumerate(word):
    if i >= limit or i >= len(want):
      break
    t = env.step(np.int32(a))
    o, r, d, near = want[i]
    rec.trans()
    rec.check(np.array_equal(np.asarray(view(t.observation)), o),
              'observation', f'{where} step {i + 1}: another observation')
    want_r = near / limit if is_eval else r
    rec.check(abs(float(t.reward) - want_r) < 1e-6, 'reward', f'{where} step '
              f'{i + 1}: reward {float(t.reward)}, expected {want_r}')
    rec.check(t.last() == (d or i + 1 == limit), 'end', f'{where} step '
              f'{i + 1} of {limit}: last={t.last()}, flight over={d}')
    rec.check(float(t.discount) == (0. if d else 1.), 'discount', f'{where} '
              f'step {i + 1}: discount {t.discount}, flight over={d}')
    if oar:
      rec.check(int(t.observation.action) == a and
                abs(float(t.observation.reward) - want_r) < 1e-6, 'oar',
                f'{where} step {i + 1}: shows action {t.observation.action}')
    got.append(float(t.reward))
  rec.trace()
  rec.ev(outcome=(is_eval, limit, x, tuple(round(g, 6) for g in got)))
  rec.state((is_eval, limit, len(got), sum(g > 0 for g in got)))
  return got


def do_env(case, rec):
  limit, is_eval = case['limit'], case['ev']
  env = made(is_eval, limit, case['oar'])
  rec.check(inner(env).radius.kilometers == RADIUS, 'radius',
            f'{inner(env).radius}')
  # a step moves the balloon 1.62 km
  for x in (47.5, 49.95, 200., None, (44., 44.), (-36.5, -35.5), (2., -49.99),
            (-30., 45.)) if is_eval else (None, 49.95):
    deep = min(limit, 1 if isinstance(x, tuple) else case['depth'])
    for word in itertools.product((0, 1, 2), repeat=deep):
      flight(rec, env, limit, is_eval, 4, x, tuple(word),
             f'{"evaluation" if is_eval else "training"}, limit {limit}, from '
             f'{x} km, actions {word}', case['oar'])
  gin.clear_config()


def do_whole(case, rec):
  """Over a whole evaluation the rewards are the fraction within the radius."""
  n = case['n']
  env = made(True, n)
  word = tuple(i % 3 for i in range(n))
  got = flight(rec, env, n, True, 9, case['start'], word,
               f'whole evaluation from {case["start"]} km')
  near = sum(w for _, _, _, w in truth(9, case['start'], word)[1])
  rec.check(abs(sum(got) - near / n) < 1e-5, 'fraction', f'{case}: the rewards '
            f'sum to {sum(got)}, {near} of {n} steps were within the radius')
  gin.clear_config()


# ------------------------------------------------------------ exploration
class Second(agent_lib.Agent):
  """The exploration policy: answers 1000, 1001, ... and records."""

  def __init__(self, num_actions, observation_shape, log):
    self.log, self.n = log, 0

  def begin_episode(self, observation):
    self.log.append(('begin', observation))
    return 7

  def step(self, reward, observation):
    self.n += 1
    self.log.append(('step', observation, 1000 + self.n))
    return 1000 + self.n

  def end_episode(self, reward, terminal=True):
    pass


class First(acme_stub.CoreActor):
  """The learner's actor: answers by number and records every call."""

  def __init__(self):
    self.log = []

  def select_action(self, observation):
    self.log.append(('select', observation))
    return np.int32(int(observation[1]) % 3)

  def observe_first(self, timestep):
    self.log.append(('first', timestep))

  def observe(self, action, next_timestep):
    self.log.append(('observe', action, next_timestep))

  def update(self, wait=False):
    self.log.append(('update', wait))


def episode(rec, actor, first, second, n, want, ep, where):
  """n actions of one episode, as Acme's environment loop does it."""
  obs = np.array([ep, 0.])
  t = acme_stub.TimeStep(0, None, None, obs)
  mark, mark2 = len(first.log), len(second)
  actor.observe_first(t)
  calls = [('first', t)]
  for i in range(n):
    before = len(second)
    a = actor.select_action(obs)
    asked = [s for s in second[before:] if s[0] == 'step']
    if want is None and i == RL:
      want = bool(asked)
    # the first four hours are the agent's own, the next two are not
    expl = bool(want) and i % (RL + EX) >= RL
    mine = int(obs[1]) % 3
    ok = (len(asked) == 1 and asked[0][1] is obs and int(a) == asked[0][2]
          if expl else not asked and int(a) == mine)
    rec.trans()
    rec.state((want, i % (RL + EX)))
    if not rec.check(ok, 'phase', f'{where}: action {i + 1} of an '
                     f'{"exploratory" if want else "ordinary"} episode is {a} '
                     f'(the agent\'s is {mine}, the explorer was asked '
                     f'{len(asked)} times), expected '
                     f'{"the explorer" if expl else "the agent"}'):
      return want
    rec.check(np.asarray(a).dtype == np.int32, 'dtype',
              f'{where}: action of {np.asarray(a).dtype}')
    calls.append(('select', obs))
    obs = np.array([ep, i + 1.])
    t = acme_stub.TimeStep(2 if i + 1 == n else 1, i / 8, 1.0, obs)
    actor.observe(a, t)
    calls.append(('observe', a, t))
    wait = i % 2 == 0
    actor.update(wait)
    calls.append(('update', wait))
  got = first.log[mark:]
  rec.check(len(got) == len(calls) and all(
      len(g) == len(c) and all(x is y or (not hasattr(x, 'step_type') and
                                          np.array_equal(x, y))
                               for x, y in zip(g, c))
      for g, c in zip(got, calls)), 'passed-on', f'{where}: the learner\'s '
            f'actor was called {[g[0] for g in got][:9]}..., expected '
            f'{[c[0] for c in calls][:9]}... with the same arguments')
  if want and n > RL:
    b = [s for s in second[mark2:] if s[0] == 'begin']
    rec.check(len(b) == 1 and tuple(b[0][1]) == (ep, 0.), 'restart',
              f'{where}: the explorer began the episode with {b}')
  return want


def do_combined(case, rec):
  for p in (1.0, 0.0, 0.5):
    for b in case['lens']:
      for c in ((81, 121) if p == 1.0 else (82,)):
        second, first = [], First()
        explorer = mp.MarcoPoloExploration(
            3, (2,), exploratory_episode_probability=p,
            exploratory_agent_constructor=lambda n, s: Second(n, s, second),
            seed=3)
        actor = acme_utils.CombinedActor(first, explorer)
        for ep, n in enumerate((case['first'], b, c)):
          want = {1.0: True, 0.0: False}.get(p)
          episode(rec, actor, first, second, n, want, ep,
                  f'p={p}, episodes of {case["first"]}, {b}, {c}: number '
                  f'{ep + 1}')
        rec.trace()
        rec.ev(outcome=(p, case['first'], b, c))


def do_maker(case, rec):
  """Only training actors explore, four episodes out of five."""
  for on in (True, False, None):
    kw = {} if on is None else {'marco_polo_exploration': on}
    builder = acme_utils.create_dqn(kw)[0]
    first = First()
    for adder in (None, object()):
      a = builder.make_actor(jax.random.PRNGKey(0), lambda *x: 1, None,
                             variable_source=First(), adder=adder)
      wrapped = isinstance(a, acme_utils.CombinedActor)
      rec.check(wrapped == bool(on and adder), 'wrapped', f'exploration {on}, '
                f'{"training" if adder else "evaluation"} actor: '
                f'{type(a).__name__}')
      rec.ev(outcome=(on, adder is None, wrapped))
      rec.trans()
  first, given = First(), []

  def make(key, policy, spec, source=None, adder=None):
    given.append((key, policy, spec, source, adder))
    return first

  key, src, add, spec = jax.random.PRNGKey(5), object(), object(), object()
  wrap = acme_utils.marco_polo_actor(make)
  rec.check(wrap(key, 'policy', spec, src, None) is first and given[-1] == (
      key, 'policy', spec, src, None), 'evaluation-actor', 'the evaluation '
            'actor is not the one of the builder')
  actor = wrap(key, 'policy', spec, src, add)
  rec.check(given[-1] == (key, 'policy', spec, src, add), 'arguments',
            'other arguments reached the builder')
  # 0.8 of the episodes explore; the real explorer answers 0, 1 or 2
  obs = np.zeros(1099, np.float32)
  obs[1] = 1.     # the agent stays, the explorer heads down from 5000 Pa
  hits = 0
  for ep in range(case['n']):
    t = acme_stub.TimeStep(0, None, None, obs)
    actor.observe_first(t)
    seen = []
    for i in range(RL + 1):
      seen.append(int(actor.select_action(obs)))
    rec.check(all(a == 1 for a in seen[:RL]), 'own', f'episode {ep}: '
              'explored in the first four hours')
    rec.check(seen[RL] in (0, 1, 2), 'valid', f'episode {ep}: {seen[RL]}')
    hits += seen[RL] != 1
    rec.trans()
  rec.count('exploratory episodes', hits)
  rec.ev(outcome='rate')
  n = case['n']
  rec.check(abs(hits - n * 0.8) < 6 * (n * .16) ** .5, 'rate',
            f'{hits} of {n} episodes explored')


# ------------------------------------------------------------ policies
class Net:
  """A network whose action values are its parameters plus the first feature."""

  @staticmethod
  def init(key):
    return np.zeros(3, np.float32)

  @staticmethod
  def apply(params, observation):
    assert observation.shape == (1, 4), observation.shape
    v = np.asarray(params)[None] * np.sign(observation[0, 0])
    return {'q_values': v, 'q_dist': np.zeros((1, 3, 51))}


def do_policy(case, rec):
  _, _, make_networks, behaviour, evaluation = acme_utils.create_dqn({})
  obs = np.array([1., 2., 3., 4.], np.float32)
  values = [np.array(v, np.float32) for v in itertools.permutations(
      (-1., 0.25, 3.))] + [np.array(v, np.float32) for v in (
          (0., 0., 1e-6), (-5., -4.9, -5.), (100., 99., -100.))]
  for v in values[case['part']::3]:
    for sign in (1., -1.):
      o = obs * sign
      best = {i for i in range(3) if (v * sign)[i] == (v * sign).max()}
      for k in range(4):
        for eps in (0., 0.05, 1.0):
          a = int(evaluation(Net)(v, jax.random.PRNGKey(k), o, eps))
          rec.check(a in best, 'evaluation-greedy', f'values {v * sign}, '
                    f'epsilon {eps}: {a}')
          rec.trans()
        a = int(behaviour(Net)(v, jax.random.PRNGKey(k), o, 0.))
        rec.check(a in best, 'behaviour-greedy', f'values {v * sign}: {a}')
      free = {int(behaviour(Net)(v, jax.random.PRNGKey(k), o, 1.))
              for k in range(24)}
      rec.check(free == {0, 1, 2}, 'behaviour-random', f'with epsilon 1 only '
                f'{free} in 24 draws')
      rec.ev(outcome=(v.tolist(), sign))
      rec.state((v.tolist(), sign))
  # the network is that of the published agent: the values are the means
  spec = acme_stub.make_environment_spec(None)
  net = make_networks(spec)
  p = net.init(jax.random.PRNGKey(case['part']))
  x = np.stack([np.full(1099, c, np.float32) for c in (-.5, .1, 1.)])
  out = net.apply(p, x)
  rec.check(out['q_dist'].shape == (3, 3, 51) and np.allclose(
      out['q_values'], np.asarray(out['q_dist']).mean(-1), atol=1e-5),
            'values', 'action values are not the means of their quantiles')


# ------------------------------------------------------------ evaluation agent
def do_agent(case, rec):
  """All words of loads and queries on one evaluation agent."""
  a = acme_eval_agent.AcmeEvalAgent(3, (1099,))
  for m in ('train', agent_lib.AgentMode.TRAIN):
    rec.raises(ValueError, lambda: a.set_mode(m), 'mode', f'mode {m}')
  for m in ('eval', agent_lib.AgentMode.EVAL):
    a.set_mode(m)
  net = acme_utils.create_dqn({})[2](acme_stub.make_environment_spec(None))
  obs = [np.sin(np.arange(1099) * k).astype(np.float32) for k in (1., 2., 5.)]
  value = {}

  def best(p, j):
    if (id(p), j) not in value:
      value[id(p), j] = (p, np.asarray(net.apply(p, obs[j][None])['q_values'])[0])
    q = value[id(p), j][1]
    return {i for i in range(3) if q[i] >= q.max() - 1e-5}

  initial = net.init(jax.random.PRNGKey(0))
  with agents.scratch() as d:
    store = acme_stub.Checkpointer.STORE
    store.clear()
    it = (1, 2, 10)
    params = {i: net.init(jax.random.PRNGKey(100 + i)) for i in it}
    for i in it:
      store[os.path.join(d, 'checkpoints', 'learner', f'ckpt-{i}')] = params[i]
    letters = [('load', i) for i in it] + [('begin', 0), ('step', 1),
                                           ('step', 2), ('end', 0)]
    # one word holds all words of the given length
    every = words.debruijn(len(letters), case['depth'])
    part = -(-len(every) // 8)
    every = every[case['first'] * part:][:part + case['depth'] - 1]
    for word in [every]:
      a.load_checkpoint(d, it[case['first'] % 3])
      cur = params[it[case['first'] % 3]]
      for n, k in enumerate(word):
        op, x = letters[k]
        done = word[max(0, n - 5):n + 1]
        if op == 'load':
          a.load_checkpoint(d, x)
          cur = params[x]
          continue
        if op == 'end':
          a.end_episode(0.5, True)
          continue
        got = int(a.begin_episode(obs[x]) if op == 'begin' else
                  a.step(0.3, obs[x]))
        rec.check(got in best(cur, x), 'greedy', lambda: f'{[letters[w] for w in done]}'
                  f': {op} answered {got}, the checkpoint loaded says '
                  f'{best(cur, x)}')
        rec.trans()
        rec.trace()
        rec.ev(outcome=tuple(done[-case['depth']:]))
    store.clear()
  # before anything is loaded it answers all the same, with the fresh network
  b = acme_eval_agent.AcmeEvalAgent(3, (1099,))
  for j in range(3):
    rec.check(int(b.begin_episode(obs[j])) in best(initial, j), 'fresh',
              'a fresh agent does not answer with its network')
