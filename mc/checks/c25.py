"""C25: the training loop."""
import itertools
import os

from balloon_learning_environment import train_lib
from balloon_learning_environment.agents import dopamine_utils
from balloon_learning_environment.metrics import collector_dispatcher
from mc import agents
from mc import scripted

PROP, LEVEL = 'C25', 'model_checking'
RULE = ('every combination of episode lengths (terminal at each step, or '
        'never), step limit, episodes per iteration, iterations, restart '
        'iteration and render period within small bounds; the calls the '
        'environment, agent and metrics see are compared with a reference '
        'word. crash: a crash at every environment step of a run with '
        'checkpoints, then restarts until it finishes.')
ASSUMPTIONS = ['one agent, one environment, no concurrency (the loop is '
               'sequential)',
               'metrics get the last transition by step and once more as the '
               'summary of end_episode, as the tests of this repository '
               'require']


def cases(tier):
  q = tier == 'quick'
  out = []
  for limit in ((1, 2, 3) if q else (1, 2, 3, 4)):
    for epi in (1, 2, 3):
      for its in (0, 1, 2, 3):
        for start in range(-1, its + 1):
          n = max(0, its - start - 1) * epi
          if n > (4 if q else 6):
            continue
          out.append(dict(kind='loop', limit=limit, epi=epi, its=its,
                          start=start, renders=(1, 2, 5)))
  out += [dict(kind='crash', epi=e, its=i, limit=m) for e in (1, 2)
          for i in (1, 2, 3) for m in (2, 3)]
  out += [dict(kind='real', epi=e) for e in (1, 2)]
  out += [dict(kind='long', its=13, epi=3, limit=12, start=-1),
          dict(kind='long', its=3, epi=None, limit=25, start=0),
          dict(kind='long', its=205, epi=1, limit=3, start=98),
          dict(kind='long', its=1, epi=5, limit=960, start=-1)]
  out.append(dict(kind='collectors'))
  return out


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def expected(case, lengths, base, render):
  """Reference words: (environment and agent), metrics, renders."""
  ea, me, re_ = [], [], []
  start = max(case['start'] + 1, 0)
  ck = os.path.join(base, 'checkpoints')
  me.append(('m', 'new', (base, 3, start * case['epi'])))
  me.append(('m', 'pre'))
  na = [0]

  def act():
    na[0] += 1
    return (na[0] * na[0] + 1) % 3
  e = -1
  for it in range(start, case['its']):
    for _ in range(case['epi']):
      e += 1
      n = lengths[e]
      ea.append(('reset',))
      me.append(('m', 'begin'))
      a = act()
      ea.append(('begin', ('obs', e, 0), a))
      last = min(case['limit'], n if n is not None else 10 ** 9)
      terminal = n is not None and n <= case['limit']
      for s in range(1, last + 1):
        r = scripted.reward_of(e, s)
        ea.append(('env', a))
        re_.append((s - 1) % render == 0)
        t = terminal and s == last
        me.append(('m', 'step', s - 1, a, r, t))
        if s < last:
          a = act()
          ea.append(('step', r, ('obs', e, s), a))
      ea.append(('end', r, terminal))
      me.append(('m', 'end', last, a, r, terminal))
    ea.append(('save', ck, it))
  me.append(('m', 'post'))
  return ea, me, re_


def do_loop(case, rec):
  start = max(case['start'] + 1, 0)
  n = max(0, case['its'] - start) * case['epi']
  lens = list(range(1, case['limit'] + 2)) + [None]
  if n > 3:
    lens = sorted({1, case['limit'], case['limit'] + 1}) + [None]
  for lengths in itertools.product(lens, repeat=n):
    for render in case['renders']:
      log = []
      env = scripted.Env(lengths, log)
      agent = scripted.Agent(log, start=case['start'])
      agent.set_mode('eval')  # as an evaluation before would leave it
      writer = object()

      def make(*a):
        return scripted.Recording(log, 'm', a, writer)
      base = '/nonexistent-dir/run'
      train_lib.run_training_loop(base, env, agent, case['its'],
                                  case['limit'], [make], render_period=render,
                                  episodes_per_iteration=case['epi'])
      ea, me, re_ = expected(case, lengths, base, render)
      where = f'{case} lengths {lengths}'
      got_ea = [x for x in log if x[0] in ('reset', 'begin', 'step', 'env',
                                           'end', 'save')]
      got_me = [x for x in log if x[0] == 'm']
      diff(rec, got_ea, ea, 'protocol', where)
      diff(rec, got_me, me, 'metrics', where)
      # rendering: after the steps 0, period, 2 period, ... of each episode
      got_re = []
      for i, x in enumerate(log):
        if x[0] == 'env':
          nxt = [y[0] for y in log[i + 1:]]
          cut = nxt.index('env') if 'env' in nxt else len(nxt)
          got_re.append('render' in nxt[:cut])
      diff(rec, got_re, re_, 'render', f'{where} period {render}')
      # set-up: reload from the checkpoint directory first, then train mode
      ck = os.path.join(base, 'checkpoints')
      rec.check([x for x in log if x[0] == 'reload'] == [('reload', ck)],
                'setup', f'{where}: reloads '
                f'{[x for x in log if x[0] == "reload"]}')
      rec.check([x for x in log if x[0] == 'writer'] == [('writer', writer)],
                'setup', f'{where}: the summary writer is not passed on')
      i = log.index(('reload', ck)) if ('reload', ck) in log else -1
      first = [k for k, x in enumerate(log) if x[0] == 'begin']
      modes = [x[1] for x in log[:first[0]] if x[0] == 'mode'] if first else [
          x[1] for x in log if x[0] == 'mode']
      rec.check(not first or modes[-1:] == ['train'], 'setup', f'{where}: '
                f'modes before training are {modes}')
      rec.check(not first or i < first[0], 'setup',
                f'{where}: reload after the start')
      # metrics bracket every episode
      depth = 0
      for x in log:
        if x[:2] == ('m', 'begin'):
          depth += 1
        elif x[:2] == ('m', 'end'):
          depth -= 1
        elif x[0] == 'env':
          rec.check(depth == 1, 'bracket', f'{where}: a step outside of an '
                    'episode of the metrics')
      rec.ev(outcome=(case['limit'], case['epi'], case['its'], lengths, render))
      rec.trans(len(log))
      rec.trace()
      rec.state((case['limit'], case['epi'], case['its'], case['start'],
                 lengths))


def do_long(case, rec):
  c = dict(case, epi=case['epi'] or 50)
  n = (c['its'] - c['start'] - 1) * c['epi']
  cyc = [None, 1, c['limit'], c['limit'] - 1, c['limit'] + 1, 2]
  lengths = [cyc[i % 6] for i in range(n)]
  log = []
  kw = dict(episodes_per_iteration=c['epi']) if case['epi'] else {}
  train_lib.run_training_loop(
      '/nonexistent-dir/run', scripted.Env(lengths, log),
      scripted.Agent(log, start=c['start']), c['its'], c['limit'],
      [lambda *a: scripted.Recording(log, 'm', a)], **kw)
  ea, me, re_ = expected(c, lengths, '/nonexistent-dir/run', 10)
  diff(rec, [x for x in log if x[0] in ('reset', 'begin', 'step', 'env', 'end',
                                        'save')], ea, 'protocol', str(case))
  diff(rec, [x for x in log if x[0] == 'm'], me, 'metrics', str(case))
  rec.check(log.count(('render',)) == sum(re_), 'render', f'{case}: rendered '
            f'{log.count(("render",))} times, expected {sum(re_)}')
  rec.ev(outcome=str(case))
  rec.trans(len(log))
  rec.trace()


def diff(rec, got, want, key, where):
  if got == want:
    return
  i = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b),
           min(len(got), len(want)))
  rec.fail(key, f'{where}: event {i} is {got[i:i + 2]}, expected '
           f'{want[i:i + 2]}')


class Saver(scripted.Agent):
  """Counts the episodes it saw, and checkpoints the count for real."""

  def __init__(self, log):
    super().__init__(log)
    self.seen = 0

  def end_episode(self, reward, terminal=True):
    super().end_episode(reward, terminal)
    self.seen += 1

  def save_checkpoint(self, d, i):
    super().save_checkpoint(d, i)
    dopamine_utils.save_checkpoint(d, i, lambda a, b: dict(seen=self.seen))

  def load_checkpoint(self, d, i):
    def un(a, b, bundle):
      self.seen = bundle['seen']
      return True
    dopamine_utils.load_checkpoint(d, i, un)

  def reload_latest_checkpoint(self, d):
    i = dopamine_utils.get_latest_checkpoint(d)
    if i >= 0:
      self.load_checkpoint(d, i)
    return i


def do_crash(case, rec):
  epi, its, limit = case['epi'], case['its'], case['limit']
  total = epi * its * limit
  for points in itertools.chain(
      [(p,) for p in range(1, total + 2)],
      itertools.product(range(1, total + 1), repeat=2)):
    with agents.scratch() as base:
      saves, done_episodes = [], 0
      for p in list(points) + [None]:
        log = []
        agent = Saver(log)
        env = scripted.Env([], log, crash_at=p)
        have = len(saves)
        try:
          train_lib.run_training_loop(base, env, agent, its, limit, [],
                                      episodes_per_iteration=epi)
          crashed = False
        except scripted.Boom:
          crashed = True
        new = [x[2] for x in log if x[0] == 'save']
        where = f'{case}, crashes at steps {points}, run with crash at {p}'
        rec.check(new == list(range(have, have + len(new))), 'resume',
                  f'{where}: saved iterations {new} after {saves}')
        saves += new
        steps = sum(1 for x in log if x[0] == 'env')
        full = steps // (epi * limit)
        rec.check(len(new) == full, 'resume', f'{where}: {steps} steps and '
                  f'{len(new)} checkpoints')
        if not crashed:
          rec.check(agent.seen == epi * its, 'resume', f'{where}: the agent '
                    f'has seen {agent.seen} episodes, expected {epi * its}')
          rec.check(saves == list(range(its)), 'resume', f'{where}: saved '
                    f'{saves}')
        rec.trans(len(log))
        rec.state((epi, its, limit, tuple(saves), crashed))
      rec.ev(outcome=(epi, its, limit, points))
      rec.trace()


def do_real(case, rec):
  """The DQN agent in a scripted world: interrupted equals uninterrupted."""
  import numpy as np

  class Env(scripted.Env):

    def obs(self):
      return np.array([self.episode, self.steps], np.float32)
  for stop in range(1, 3):
    with agents.scratch() as base:
      a = agents.make('dqn')
      train_lib.run_training_loop(base, Env([2, None, 3], []), a, stop, 3, [],
                                  episodes_per_iteration=case['epi'])
      b = agents.make('dqn', seed=7)
      log = []
      train_lib.run_training_loop(base, Env([2, None, 3], log), b, stop, 3, [],
                                  episodes_per_iteration=case['epi'])
      rec.check(not [x for x in log if x[0] == 'env'], 'resume', 'a finished '
                'training continues')
      rec.check(agents.tree(a.online_params) == agents.tree(b.online_params) and
                a.training_steps == b.training_steps, 'resume',
                f'{case}: parameters differ after restarting at {stop}')
      log = []
      train_lib.run_training_loop(base, Env([], log), b, stop + 2, 3, [],
                                  episodes_per_iteration=case['epi'])
      rec.check(sum(x[0] == 'reset' for x in log) == 2 * case['epi'], 'resume',
                f'{case}: ran {log.count(("reset",))} episodes')
      rec.ev(outcome=(case['epi'], stop))
      rec.trans(len(log))


def do_collectors(case, rec):
  names = list(collector_dispatcher.AVAILABLE_COLLECTORS)
  rec.check(sorted(names) == ['console', 'pickle', 'tensorboard'], 'available',
            str(names))
  from balloon_learning_environment.metrics import console_collector
  from balloon_learning_environment.metrics import pickle_collector
  from balloon_learning_environment.metrics import tensorboard_collector
  cls = {'console': console_collector.ConsoleCollector,
         'pickle': pickle_collector.PickleCollector,
         'tensorboard': tensorboard_collector.TensorboardCollector}
  for n in range(4):
    for w in itertools.product(list(cls) + ['nosuch'], repeat=n):
      got = train_lib.get_collector_data(list(w))
      want = [cls[x] for x in w if x in cls]
      rec.check(list(got) == want, 'collectors', f'{w} gives {got}')
      rec.ev(outcome=w)
      rec.trans()
