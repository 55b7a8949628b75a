"""C30: MarcoPolo exploration."""
import itertools

from balloon_learning_environment.agents import agent as agent_lib
from balloon_learning_environment.agents import exploration
from balloon_learning_environment.agents import marco_polo_exploration as mp
from mc import agents
import numpy as np

PROP, LEVEL = 'C30', 'model_checking'
TECHNIQUE = ('all words of episode lengths around the phase changes replayed '
             'on the real exploration against a reference automaton; the '
             'quantile agent around it on every position of those changes')
RULE = ('phases: every sequence of 1 to 3 episodes with lengths from a set '
        'around every phase change (thorough: every length up to 410 pairwise) '
        'for probability 0, 1 and 0.5; a scripted second agent records what '
        'it is asked. draws: 64 keys x 12 episodes per probability, whether '
        'each is exploratory. agent: the real quantile agent in training and '
        'evaluation mode around it.')
ASSUMPTIONS = ['the fraction of exploratory episodes is judged on a fixed '
               'enumerated set of keys within 5 standard deviations',
               'mode switches happen between episodes']

RL, EX = 80, 40                # steps: 4 h and 2 h of 3 minutes


class Second(agent_lib.Agent):
  """The second agent: answers 10, 11, 12, ... and records."""

  def __init__(self, num_actions, observation_shape, log):
    self.args = (num_actions, tuple(observation_shape))
    self.log = log
    self.n = 0

  def begin_episode(self, observation):
    self.log.append(('begin', observation))
    return 7

  def step(self, reward, observation):
    self.n += 1
    self.log.append(('step', reward, observation, 1000 + self.n))
    return 1000 + self.n

  def end_episode(self, reward, terminal=True):
    self.log.append(('end',))


def make(p, seed, log):
  return mp.MarcoPoloExploration(
      3, (2,), exploratory_episode_probability=p,
      exploratory_agent_constructor=lambda n, s: Second(n, s, log), seed=seed)


def in_exploration(n):
  """Whether step n (1-based) of an exploratory episode is the second agent's."""
  return n % (RL + EX) >= RL


def cases(tier):
  q = tier == 'quick'
  lens = ([0, 1, 39, 40, 41, 79, 80, 81, 119, 120, 121, 160, 199, 200, 201,
           239, 240, 241, 330] if q else
          [0, 1, 2, 20, 39, 40, 41, 60, 78, 79, 80, 81, 82, 100, 118, 119, 120,
           121, 122, 159, 160, 161, 199, 200, 201, 239, 240, 241, 279, 280,
           281, 320, 330, 970])
  out = [dict(kind='phases', lens=lens, first=a) for a in lens]
  if not q:
    out += [dict(kind='long', first=a) for a in range(0, 411, 10)]
  out += [dict(kind='draws', p=p) for p in (0.0, 0.1, 0.25, 0.5, 0.8, 0.95, 1.0)]
  out += [dict(kind='agent', word=list(w)) for w in itertools.product(
      ('train', 'eval'), repeat=2 if q else 3)]
  out += [dict(kind='life', p=p, n=150 if q else 1000) for p in (0., .5, 1.)]
  out.append(dict(kind='plain'))
  return out


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample({k: v for k, v in case.items() if k != 'lens'})


def episode(rec, m, log, n, want, ep, where):
  """One episode of n steps; want: exploratory or not, None: find out."""
  mark = len(log)
  obs = np.array([ep, 0.])
  a = m.begin_episode(obs, 2)
  rec.check(a == 2, 'begin', f'{where}: the first action is {a}, the agent '
            'chose 2')
  for i in range(1, n + 1):
    obs = np.array([ep, float(i)])
    before = len(log)
    mine = i % 3
    a = m.step(i / 8., obs, mine)
    second = [x for x in log[before:] if x[0] == 'step']
    rec.transitions += 1
    if want is None and i == RL:
      want = bool(second)
    expl = bool(want) and in_exploration(i)
    rec.state((want, i % (RL + EX)))
    if not expl:
      ok = a == mine and not second
    else:
      ok = (len(second) == 1 and second[0][1] == i / 8. and
            second[0][2] is obs and a == second[0][3])
    if not rec.check(ok, 'phase', f'{where}: step {i} of an '
                     f'{"exploratory" if want else "ordinary"} episode '
                     f'returned {a} (agent {mine}; second agent asked '
                     f'{[x[1:] for x in second]}), expected '
                     f'{"the second agent" if expl else "the agent"}'):
      return want
  if want and n >= RL:
    b = [x for x in log[mark:] if x[0] == 'begin']
    rec.check(len(b) == 1 and b[0][1][1] == 0. and b[0][1][0] == ep, 'restart',
              f'{where}: the second agent did not begin the episode once '
              f'with its first observation: {b}')
  return want


def word(rec, p, seed, lens, where):
  log = []
  m = make(p, seed, log)
  got = []
  for ep, n in enumerate(lens):
    want = True if p == 1.0 else False if p == 0.0 else None
    got.append(episode(rec, m, log, n, want, ep, f'{where}, episode {ep}'))
  rec.trace()
  rec.ev(outcome=(p, tuple(lens)))
  return got


def do_phases(case, rec):
  lens = case['lens']
  short = [n for n in lens if n in (0, 1, 40, 79, 80, 81, 120, 200)]
  for b in lens:
    for p in (1.0, 0.0, 0.5):
      for c in (short if p == 1.0 else [81]):
        word(rec, p, 5, [case['first'], b, c],
             f'p={p}, episodes of {case["first"]}, {b}, {c} steps')


def do_long(case, rec):
  for a in range(case['first'], case['first'] + 10):
    for b in range(0, 411, 3):
      word(rec, 1.0, 6, [a, b], f'p=1, episodes of {a}, {b} steps')


def do_draws(case, rec):
  p, n = case['p'], 12
  hits, same, total = 0, 0, 0
  for seed in range(64):
    where = f'p={p} key {seed}'
    a = word(rec, p, seed, [RL] * n, where)
    b = word(rec, p, seed, [RL, 201, 130, 80, 119, 120] * 2, where)
    rec.check(a == b, 'key', f'{where}: exploratory episodes {a} and {b} for '
              'the same key, differing only in the episodes\' lengths')
    hits += sum(map(bool, a))
    total += n
    same += sum(x == y for x, y in zip(a, a[1:]))
  sd = (p * (1 - p) / total) ** .5
  rec.check(abs(hits / total - p) <= 5 * sd, 'probability', f'{hits} of {total} '
            f'episodes are exploratory with probability {p}')
  q = p * p + (1 - p) ** 2
  m = 64 * (n - 1)
  rec.check(abs(same / m - q) <= 7 * (q * (1 - q) / m) ** .5, 'independent',
            f'{same} of {m} episodes are like the one before, probability {p}')
  # Larger probabilities only add exploratory episodes' share; unseeded works.
  rec.check(isinstance(mp.MarcoPoloExploration(
      3, (2,), exploratory_episode_probability=p,
      exploratory_agent_constructor=lambda k, s: Second(k, s, [])),
                       exploration.Exploration), 'unseeded', 'no key')
  got = []
  mp.MarcoPoloExploration(
      4, (5,), exploratory_episode_probability=p, seed=1,
      exploratory_agent_constructor=lambda k, s: got.append((k, s)))
  rec.check(got == [(4, (5,))], 'constructor', f'the second agent is built '
            f'with {got}, expected 4 actions of shape (5,)')


def do_life(case, rec):
  """Many episodes of one instance, every phase change far into its life."""
  p, n = case['p'], case['n']
  lens = [(RL + 1, 3, 121, RL, 205)[i % 5] for i in range(n)]
  got = word(rec, p, 9, lens, f'p={p}, life of {n} episodes')
  if p == .5:
    m = [g for g in got if g is not None]
    rec.check(abs(sum(m) / len(m) - p) < 5 * .5 / len(m) ** .5, 'probability',
              f'{sum(m)} of {len(m)} episodes of one life are exploratory')
  # and one episode of many cycles
  word(rec, p, 10, [3 * n + 7, 2 * n], f'p={p}, episodes of {3 * n} steps')


def do_plain(case, rec):
  m = exploration.Exploration(3, (2,))
  for i in range(200):
    for a in range(3):
      f = m.begin_episode if i % 50 == 0 else (
          lambda o, x: m.step(1., o, x))
      rec.check(f(np.zeros(2), a) == a, 'plain', 'the default exploration '
                f'changes action {a}')
      rec.ev(outcome=a)


LOG = []


def second(num_actions, observation_shape):
  s = Second(num_actions, observation_shape, LOG)
  s.step = lambda r, o: LOG.append(('step', r, o, (len(LOG) % 3))) or LOG[-1][3]
  return s


def do_agent(case, rec):
  """The real quantile agent: which actions are executed, in which mode."""
  ref = agents.binding('Second', second)
  extra = ['QuantileAgent.exploration_wrapper_constructor = '
           '@marco_polo_exploration.MarcoPoloExploration',
           'MarcoPoloExploration.exploratory_episode_probability = 1.0',
           f'MarcoPoloExploration.exploratory_agent_constructor = {ref}',
           'JaxQuantileAgent.min_replay_history = 100000']
  del LOG[:]
  a = agents.make('quantile', extra=extra)
  net = agents.forward(a)
  for ep, mode in enumerate(case['word']):
    a.set_mode(mode)
    mark = len(LOG)
    where = f'modes {case["word"]}, episode {ep} in {mode} mode'
    for i in range(205):
      obs = np.array([np.sin(i), np.cos(3. * i)], np.float32)
      before = len(LOG)
      act = a.begin_episode(obs) if i == 0 else a.step(.5, obs)
      asked = [x for x in LOG[before:] if x[0] == 'step']
      rec.trans()
      rec.state((mode, i % 120))
      if mode == 'train' and in_exploration(i):
        ok = len(asked) == 1 and int(act) == asked[0][3]
      else:
        ok = not asked and int(act) in net(obs)
      if not rec.check(ok, 'agent', f'{where}: action {i} is {act}; second '
                       f'agent {asked}; greedy {net(obs)}'):
        break
    a.end_episode(0., False)
    if mode == 'eval':
      rec.check(len(LOG) == mark, 'eval', f'{where}: the second agent was '
                'consulted in evaluation')
  rec.trace()
  rec.ev(outcome=tuple(case['word']))
