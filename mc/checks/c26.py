"""C26: metrics."""
import itertools
import logging as pylogging
import os
import pickle
import re

from absl import logging
from balloon_learning_environment import train_lib
from balloon_learning_environment.metrics import collector_dispatcher as cd
from balloon_learning_environment.metrics import console_collector
from balloon_learning_environment.metrics import pickle_collector
from balloon_learning_environment.metrics import statistics_instance
from balloon_learning_environment.metrics import tensorboard_collector
from mc import agents
from mc import scripted
import numpy as np

PROP, LEVEL = 'C26', 'model_checking'
RULE = ('dispatch: all words of the life cycle over 0 to 3 collectors. '
        'console, pickle, tensorboard: all pairs and triples of short '
        'episodes over actions and rewards, all logging options, fresh and '
        'resumed, episodes begun anew before they end, and the files that result are read back and compared with '
        'the events. loop: the files written by the real training loop.')
ASSUMPTIONS = ['the statistics of end_episode count as one more event of the '
               'episode, as the collector tests of this repository require',
               'the global step of tensorboard restarts when training is '
               'resumed (a TODO in the code)']
S = statistics_instance.StatisticsInstance
STEPS = [(0, 0.25), (2, 1.0), (1, 0.0)]


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='dispatch', n=n, depth=4 if q else 5) for n in range(4)]
  for fine, freq in ((False, 1), (True, 1), (True, 2), (True, 3)):
    for mode in ('file', 'nofile', 'nodir'):
      for start in (0, 7):
        out.append(dict(kind='console', fine=fine, freq=freq, mode=mode,
                        start=start, maxlen=2 if q else 3))
  out += [dict(kind='pickle', start=s, maxlen=2 if q else 3)
          for s in (0, 3, 12)]
  for fine, freq in ((False, 1), (True, 1), (True, 2), (True, 3)):
    for start in (0, 4):
      out.append(dict(kind='tensorboard', fine=fine, freq=freq, start=start))
  out += [dict(kind='lengthy', word=w, fine=f, freq=k)
          for w in LENGTHY for f, k in ((False, 1), (True, 1), (True, 37))]
  out += [dict(kind='abandoned', n=2 if q else 3), dict(kind='resume'), dict(kind='loop'), dict(kind='construct')]
  return out


# Lengths of episodes, a block of equal steps after another.
LENGTHY = ['0' * 300 + '2' * 20, '1' * 960 + '|' + '01' * 480, '|||' + '2' * 260,
           '012' * 320 + '|' + '0' * 256 + '|' + '1' * 255 + '|' + '2' * 257,
           '|'.join(['0', '12', ''] * 45), '0' * 4000]


def do_lengthy(case, rec):
  """Long episodes, and many of them, in all three collectors."""
  r = {'0': -3.5, '1': 0.125, '2': 1e4}
  eps = [tuple((int(x), r[x]) for x in e) for e in case['word'].split('|')]
  with agents.scratch() as top:
    play(console_collector.ConsoleCollector(
        top, 3, 95, fine_grained_logging=case['fine'],
        fine_grained_frequency=case['freq']), eps)
    play(pickle_collector.PickleCollector(top, 3, 95), eps)
    c = tensorboard_collector.TensorboardCollector(top, 3, 95)
    play(c, eps)
    c.summary_writer.close()
    m = os.path.join(top, 'metrics')
    where = f'{case["word"][:20]}... fine {case["fine"]} {case["freq"]}'
    got = parse(open(os.path.join(m, 'console', 'console.log')).read(), rec,
                where)
    want = console_want(eps, 95, case['fine'], case['freq'])
    bad = next((i for i, (a, b) in enumerate(itertools.zip_longest(
        got, want)) if a is None or b is None or not close([a], [b])), None)
    rec.check(bad is None, 'lengthy', lambda: f'{where}: console record {bad} '
              f'is {got[bad:bad + 1]}, expected {want[bad:bad + 1]}')
    for k, ep in enumerate(eps):
      p = pickle.load(open(os.path.join(m, 'pickle', f'pickle_{95 + k}.pkl'),
                           'rb'))
      rec.check(p == stats(ep, k), 'lengthy', f'{where}: pickle of episode {k}')
    ev = read_events(os.path.join(m, 'tensorboard'))
    for tag, f in (('Reward', lambda st: sum(s.reward for s in st)),
                   ('Length', lambda st: float(len(st) - 1))):
      w = [(95 + k, f(stats(ep, k))) for k, ep in enumerate(eps)]
      g = ev.get('Train/Episode' + tag, [])
      rec.check([s for s, _ in g] == [s for s, _ in w] and all(
          abs(a - b) <= 1e-6 * abs(b) + 1e-3 for (_, a), (_, b) in zip(g, w)),
                'lengthy', f'{where}: tensorboard {tag} {g[:5]}, expected '
                f'{w[:5]}')
  rec.trans(3 * sum(len(e) + 1 for e in eps))
  rec.trace()
  rec.state((case['word'][:30], len(case['word'])))
  rec.ev(outcome=(case['word'][:30], case['fine'], case['freq']))


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def episodes(maxlen, count):
  """All tuples of `count` episodes of up to maxlen steps (plus the summary)."""
  one = []
  for n in range(maxlen + 1):
    one += list(itertools.product(STEPS, repeat=n))
  if count > 1 and len(one) > 15:
    short = [e for e in one if len(e) <= 1] + one[-3:]
    return [(a,) + b for a in one for b in itertools.product(
        short, repeat=count - 1)]
  return list(itertools.product(one, repeat=count))


def stats(ep, k):
  """The StatisticsInstances of an episode: steps, then the summary."""
  out = [S(step=i, action=a, reward=r, terminal=False)
         for i, (a, r) in enumerate(ep)]
  out.append(S(step=len(ep), action=k % 3, reward=0.5 + k, terminal=k % 2 == 0))
  return out


def play(c, eps):
  c.pre_training()
  for k, ep in enumerate(eps):
    c.begin_episode()
    st = stats(ep, k)
    for s in st[:-1]:
      c.step(s)
    c.end_episode(st[-1])
  c.end_training()


def do_dispatch(case, rec):
  """Every collector gets every event once, in order."""
  ops = ['begin_episode', 'step', 'end_episode', 'pre_training',
         'end_training']
  for w in itertools.product(range(5), repeat=case['depth']):
    log = []
    seen = []

    def make(k):
      def f(*a):
        seen.append((k, a))
        return scripted.Recording(log, k, a)
      return f
    d = cd.CollectorDispatcher('/dir', 5, [make(k) for k in range(case['n'])],
                               9)
    rec.check(seen == [(k, ('/dir', 5, 9)) for k in range(case['n'])], 'new',
              f'collectors built with {seen}')
    del log[:]
    want = []
    for i, o in enumerate(w):
      name = ops[o]
      s = S(step=i, action=i % 5, reward=float(i), terminal=i % 2 == 0)
      if name in ('step', 'end_episode'):
        getattr(d, name)(s)
        ev = ('step' if name == 'step' else 'end', i, i % 5, float(i),
              i % 2 == 0)
      else:
        getattr(d, name)()
        ev = ({'begin_episode': 'begin', 'pre_training': 'pre',
               'end_training': 'post'}[name],)
      want += [(k,) + ev for k in range(case['n'])]
    rec.check(log == want, 'dispatch', f'{[ops[o] for o in w]} with '
              f'{case["n"]} collectors: delivered {log}, expected {want}')
    rec.trans(len(w))
    rec.trace()
    rec.state((case['n'], w))
    rec.ev(outcome=(case['n'], w))
  # the summary writer is the first collector's that has one
  for has in itertools.product([False, True], repeat=case['n']):
    ws = [object() if h else None for h in has]
    d = cd.CollectorDispatcher('/dir', 5, [
        (lambda *a, w=w: scripted.Recording([], 'x', a, w)) for w in ws], 0)
    want = next((w for w in ws if w is not None), None)
    rec.check(d.get_summary_writer() is want, 'writer', f'writer for {has}')
    rec.ev(outcome=('writer', has))


TOKEN = re.compile(
    r'Step: (-?\d+), action: (-?\d+), reward: ([-\d.e]+), terminal: (\w+)\n|'
    r'Episode (\d+): reward: ([-\d.]+), episode length: (\d+), '
    r'action distribution: \[([^\]]*)\]\n?')


def parse(text, rec, where):
  out, pos = [], 0
  for m in TOKEN.finditer(text):
    rec.check(text[pos:m.start()].strip() == '', 'console-text',
              f'{where}: unexpected text {text[pos:m.start()]!r}')
    pos = m.end()
    if m.group(1) is not None:
      out.append(('step', int(m.group(1)), int(m.group(2)), float(m.group(3)),
                  m.group(4) == 'True'))
    else:
      out.append(('episode', int(m.group(5)), float(m.group(6)),
                  int(m.group(7)), tuple(float(x) for x in m.group(8).split())))
      if not m.group(0).endswith('\n') and pos < len(text):
        rec.fail('console-newline', f'{where}: the record of episode '
                 f'{m.group(5)} is not ended by a newline')
  rec.check(text[pos:].strip() == '', 'console-text', f'{where}: unexpected '
            f'text {text[pos:]!r}')
  return out


def console_want(eps, start, fine, freq):
  out = []
  for k, ep in enumerate(eps):
    st = stats(ep, k)
    if fine:
      out += [('step', s.step, s.action, s.reward, s.terminal)
              for s in st[:-1] if s.step % freq == 0]
    counts = np.zeros(3)
    for s in st:
      counts[s.action] += 1
    out.append(('episode', start + k, sum(s.reward for s in st), len(ep),
                tuple(counts / counts.sum())))
  return out


def close(a, b):
  if len(a) != len(b):
    return False
  for x, y in zip(a, b):
    if x[0] != y[0] or len(x) != len(y):
      return False
    for u, v in zip(x[1:], y[1:]):
      if isinstance(u, tuple):
        if len(u) != len(v) or any(abs(p - q) > 1e-7 for p, q in zip(u, v)):
          return False
      elif abs(float(u) - float(v)) > 0.0051:
        return False
  return True


class Capture(pylogging.Handler):

  def __init__(self):
    super().__init__(level=0)
    self.text = []

  def emit(self, record):
    self.text.append(record.getMessage())


def do_console(case, rec):
  logging.set_verbosity(logging.INFO)
  for count in (1, 2, 3):
    maxlen = case['maxlen'] if count < 3 else 1
    for eps in episodes(maxlen, count):
      with agents.scratch() as top:
        base = None if case['mode'] == 'nodir' else os.path.join(top, 'b')
        c = console_collector.ConsoleCollector(
            base, 3, case['start'], fine_grained_logging=case['fine'],
            fine_grained_frequency=case['freq'],
            save_to_file=case['mode'] == 'file')
        cap = Capture()
        lg = logging.get_absl_logger()
        lg.addHandler(cap)
        try:
          play(c, eps)
        finally:
          lg.removeHandler(cap)
        want = console_want(eps, case['start'], case['fine'], case['freq'])
        where = f'{case}: episodes {eps}'
        said = parse('\n'.join(t.rstrip('\n') + '\n' for t in cap.text if
                               t.startswith(('Step', 'Episode'))), rec, where)
        rec.check(close(said, want), 'console', f'{where}: logs {said}, '
                  f'expected {want}')
        f = os.path.join(top, 'b', 'metrics', 'console', 'console.log')
        files = [os.path.join(d, x) for d, _, fs in os.walk(top) for x in fs]
        if case['mode'] == 'file':
          rec.check(files == [f], 'console-file', f'{where}: wrote {files}')
          got = parse(open(f).read(), rec, where)
          rec.check(close(got, want), 'console-file', f'{where}: wrote {got}, '
                    f'expected {want}')
        else:
          rec.check(not files, 'console-file', f'{where}: wrote {files}')
        rec.state(tuple(console_want(eps, 0, False, 1)))
        rec.ev(outcome=(str(case), eps))
        rec.trans(sum(len(e) + 1 for e in eps))
        rec.trace()
  # invalid actions are refused, and do not disturb the episode
  for bad in (-1, 3, 100):
    with agents.scratch() as top:
      c = console_collector.ConsoleCollector(top, 3, 0)
      c.pre_training()
      c.begin_episode()
      rec.raises(ValueError, lambda: c.step(S(0, bad, 1.0, False)), 'action',
                 f'action {bad}')
      c.end_training()
      rec.ev(outcome=bad)


def do_pickle(case, rec):
  for count in (1, 2, 3):
    for eps in episodes(case['maxlen'] if count < 3 else 1, count):
      with agents.scratch() as top:
        c = pickle_collector.PickleCollector(top, 3, case['start'])
        play(c, eps)
        d = os.path.join(top, 'metrics', 'pickle')
        names = {f'pickle_{case["start"] + k}.pkl' for k in range(count)}
        rec.check(set(os.listdir(d)) == names, 'pickle', f'{case} {eps}: wrote '
                  f'{sorted(os.listdir(d))}')
        for k, ep in enumerate(eps):
          p = os.path.join(d, f'pickle_{case["start"] + k}.pkl')
          got = pickle.load(open(p, 'rb')) if os.path.exists(p) else None
          rec.check(got == stats(ep, k), 'pickle', f'{case} {eps}: episode {k} '
                    f'holds {got}')
        rec.ev(outcome=(case['start'], eps))
        rec.trans(sum(len(e) + 1 for e in eps))
        rec.trace()


def read_events(d):
  """{tag: [(step, value)]} of the event files in d."""
  import tensorflow as tf
  from tensorboard.compat.proto import event_pb2
  out = {}
  for f in sorted(os.listdir(d)):
    for raw in tf.compat.v1.io.tf_record_iterator(os.path.join(d, f)):
      e = event_pb2.Event.FromString(raw)
      for v in e.summary.value:
        x = v.simple_value
        if v.HasField('tensor'):
          x = float(tf.make_ndarray(v.tensor))
        out.setdefault(v.tag, []).append((e.step, x))
  return out


def do_tensorboard(case, rec):
  eps_all = episodes(1, 1) + episodes(1, 2) + [
      (STEPS[0:1] * 3, STEPS, STEPS[1:]), (STEPS * 4, (), STEPS)]
  for eps in eps_all:
    with agents.scratch() as top:
      c = tensorboard_collector.TensorboardCollector(
          top, 3, case['start'], fine_grained_logging=case['fine'],
          fine_grained_frequency=case['freq'])
      play(c, eps)
      c.summary_writer.close()
      got = read_events(os.path.join(top, 'metrics', 'tensorboard'))
    want = {}
    g = 0
    for k, ep in enumerate(eps):
      st = stats(ep, k)
      for s in st[:-1]:
        if case['fine'] and g % case['freq'] == 0:
          want.setdefault('Train/FineGrainedReward', []).append((g, s.reward))
        g += 1
      if case['fine']:
        want.setdefault('Train/FineGrainedReward', []).append(
            (g, st[-1].reward))
      g += 1
      want.setdefault('Train/EpisodeReward', []).append(
          (case['start'] + k, sum(s.reward for s in st)))
      want.setdefault('Train/EpisodeLength', []).append(
          (case['start'] + k, float(len(ep))))
    rec.check(got == want, 'tensorboard', f'{case} {eps}: wrote {got}, '
              f'expected {want}')
    rec.check(c.has_summary_writer(), 'tensorboard', 'no summary writer')
    rec.state(tuple(console_want(eps, 0, False, 1)))
    rec.ev(outcome=(str(case), eps))
    rec.trans(g)
    rec.trace()


def do_resume(case, rec):
  """Runs that continue in the same directory keep what was there."""
  one = [STEPS[:2], STEPS, ()]
  for n1, n2, fine in itertools.product((1, 2, 3), (0, 1, 2), (False, True)):
    with agents.scratch() as top:
      want = []
      start = 0
      for n in (n1, n2, 1):
        eps = one[:n]
        play(console_collector.ConsoleCollector(
            top, 3, start, fine_grained_logging=fine), eps)
        play(pickle_collector.PickleCollector(top, 3, start), eps)
        want += console_want(eps, start, fine, 1)
        start += n
        text = open(os.path.join(top, 'metrics', 'console',
                                 'console.log')).read()
        got = parse(text, rec, f'resume {n1},{n2}')
        rec.check(close(got, want), 'resume', f'runs of {n1}, {n2}, 1 '
                  f'episodes: the console log holds {got}, expected {want}')
        d = os.path.join(top, 'metrics', 'pickle')
        rec.check(set(os.listdir(d)) == {f'pickle_{i}.pkl' for i in
                                         range(start)}, 'resume',
                  f'pickles {os.listdir(d)}')
        rec.trans(n)
      rec.ev(outcome=(n1, n2, fine))
      rec.trace()


def do_abandoned(case, rec):
  """An episode that is begun anew without having ended leaves no trace."""
  one = [(e, end) for e in ((), STEPS[:1], STEPS[1:], STEPS)
         for end in (False, True)]
  for word in itertools.product(one, repeat=case['n']):
    word = word + ((STEPS[:2], True),)
    kept = [e for e, end in word if end]
    with agents.scratch() as top:
      cs = [console_collector.ConsoleCollector(top, 3, 0),
            pickle_collector.PickleCollector(top, 3, 0),
            tensorboard_collector.TensorboardCollector(top, 3, 0)]
      for c in cs:
        c.pre_training()
        k = 0
        for e, end in word:
          st = stats(e, k)
          c.begin_episode()
          for s in st[:-1]:
            c.step(s)
          if end:
            c.end_episode(st[-1])
            k += 1
        c.end_training()
      cs[2].summary_writer.close()
      where = f'episodes (steps, ended) {word}'
      got = parse(open(os.path.join(top, 'metrics', 'console',
                                    'console.log')).read(), rec, where)
      want = console_want(kept, 0, False, 1)
      rec.check(close(got, want), 'abandoned', f'{where}: console log {got}, '
                f'expected {want}')
      for k, e in enumerate(kept):
        p = os.path.join(top, 'metrics', 'pickle', f'pickle_{k}.pkl')
        got = pickle.load(open(p, 'rb')) if os.path.exists(p) else None
        rec.check(got == stats(e, k), 'abandoned', f'{where}: pickle {k} holds '
                  f'{got}')
      got = read_events(os.path.join(top, 'metrics', 'tensorboard'))
      want = {'Train/EpisodeReward': [
          (k, sum(s.reward for s in stats(e, k))) for k, e in enumerate(kept)],
              'Train/EpisodeLength': [
                  (k, float(len(e))) for k, e in enumerate(kept)]}
      rec.check(got == want, 'abandoned', f'{where}: tensorboard {got}')
    rec.ev(outcome=word)
    rec.trans(3 * sum(len(e) + 1 for e, _ in word))
    rec.trace()


def do_construct(case, rec):
  for bad in (None,):
    rec.raises(ValueError, lambda: pickle_collector.PickleCollector(bad, 3, 0),
               'nodir', 'pickle collector without directory')
    rec.raises(ValueError, lambda: tensorboard_collector.TensorboardCollector(
        bad, 3, 0), 'nodir', 'tensorboard collector without directory')
  c = console_collector.ConsoleCollector(None, 3, 0)
  rec.check(not c.has_summary_writer(), 'writer', 'console has a writer')
  for name, cls in cd.AVAILABLE_COLLECTORS.items():
    with agents.scratch() as top:
      for _ in range(2):  # a second time in an existing directory
        c = cls(os.path.join(top, 'deep', 'er'), 4, 2)
        rec.check(c.get_name() == name, 'name', f'{name}: {c.get_name()}')
        rec.check(os.path.isdir(os.path.join(top, 'deep', 'er', 'metrics',
                                             name)), 'dir', f'{name}')
        rec.check(c.current_episode == 2, 'episode', f'{name} starts at '
                  f'{c.current_episode}')
        rec.ev(outcome=name)
        rec.trans()


def do_loop(case, rec):
  """What the real loop reports about an episode is what happened in it."""
  for limit in (1, 2, 3, 4):
    for lengths in itertools.product((1, 2, 3, None), repeat=2):
      with agents.scratch() as top:
        log = []
        env = scripted.Env(lengths, log)
        train_lib.run_training_loop(
            top, env, scripted.Agent(log), 1, limit,
            train_lib.get_collector_data(['console', 'pickle']),
            episodes_per_iteration=2)
        got = parse(open(os.path.join(
            top, 'metrics', 'console', 'console.log')).read(), rec, 'loop')
        # what happened
        eps, cur = [], None
        for x in log:
          if x[0] == 'reset':
            cur = dict(rewards=[], actions=[])
            eps.append(cur)
          elif x[0] == 'env':
            cur['actions'].append(x[1])
        for e, ep in enumerate(eps):
          ep['rewards'] = [scripted.reward_of(e, s + 1)
                           for s in range(len(ep['actions']))]
        rec.check(len(got) == 2, 'loop', f'{len(got)} episodes in the log')
        for e, (ep, g) in enumerate(zip(eps, got)):
          where = f'limit {limit}, lengths {lengths}, episode {e}'
          rec.check(g[1] == e and g[3] == len(ep['actions']), 'loop',
                    f'{where}: logged {g}')
          total = sum(ep['rewards'])
          if abs(g[2] - total) > 0.01:
            if abs(g[2] - total - ep['rewards'][-1]) < 0.01:
              rec.fail('last-counted-twice', f'{where}: reported reward {g[2]}, '
                       f'really {total}')
            else:
              rec.fail('loop-reward', f'{where}: reported reward {g[2]}, '
                       f'really {total}')
          cnt = np.array([ep['actions'].count(a) for a in range(3)], float)
          dist = np.array(g[4])
          if np.abs(dist - cnt / cnt.sum()).max() > 1e-6:
            cnt[ep['actions'][-1]] += 1
            if np.abs(dist - cnt / cnt.sum()).max() < 1e-6:
              rec.fail('last-counted-twice', f'{where}: action distribution '
                       f'{dist}')
            else:
              rec.fail('loop-actions', f'{where}: action distribution {dist} '
                       f'for actions {ep["actions"]}')
          p = pickle.load(open(os.path.join(top, 'metrics', 'pickle',
                                            f'pickle_{e}.pkl'), 'rb'))
          steps = [(s.step, s.action, s.reward) for s in p[:-1]]
          want = [(i, a, r) for i, (a, r) in enumerate(
              zip(ep['actions'], ep['rewards']))]
          rec.check(steps == want, 'loop-pickle', f'{where}: {steps}')
        rec.ev(outcome=(limit, lengths))
        rec.trans(len(log))
        rec.trace()
