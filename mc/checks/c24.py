"""C24: checkpoints survive crashes."""
import itertools
import os

from balloon_learning_environment.agents import dopamine_utils as du
from mc import agents
from mc import crash
import numpy as np

PROP, LEVEL = 'C24', 'model_checking'
TECHNIQUE = ('exhaustive enumeration of crash points and torn writes of save '
             'and clean-up histories on the real code, recovery checked '
             'against a reference model of the directory')
RULE = ('words: all words of saves (iterations with 1 to 6 digits, present or '
        'not), failed saves, clean-ups and directories with other files, '
        'against a set model. crash: the directory as the OS sees it at every '
        'Python-level operation of a save or clean-up, plus every torn prefix '
        'of every write, each followed by recovery. agents: the same for the '
        'real DQN and quantile agents, recovery by reload_latest_checkpoint '
        'into a fresh agent.')
ASSUMPTIONS = ['crashes stop the process between operations or inside a '
               'write; what reached the OS is durable, writes of one file are '
               'not reordered',
               'files written by Dopamine (the replay buffer) are outside '
               'this repository: only their interplay with the checkpoints is '
               'judged']

ITS = [0, 1, 2, 9, 10, 11, 99998, 99999, 100000, 100004]


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='words', first=f, depth=3 if q else 4)
         for f in range(len(OPS))]
  out += [dict(kind='window', n=n) for n in ((7, 12) if q else (7, 12, 40))]
  out += [dict(kind='crash', size=s, prior=p, iteration=i)
          for s in (0, 1, 2) for p in ([], [3], [2, 3], [4], [1, 2, 3, 4])
          for i in (4, 100000)]
  out += [dict(kind='cleancrash', dur=d) for d in (0, 1, 2, 5)]
  for name in ('dqn', 'quantile'):
    for n in ((0, 1, 6) if q else range(8)):
      for part in range(4):
        out.append(dict(kind='agent', name=name, saves=n, part=part, of=4))
  out.append(dict(kind='none'))
  return out


def bundle(i, size=0):
  return [{'iteration': i, 'data': ['x' * 7, i, None]},
          {'iteration': i, 'w': np.arange(64.) + i, 's': np.float32(i)},
          {'iteration': i, 'w': np.arange(3000.) * i}][size]


def eq(a, b):
  if isinstance(a, dict) and isinstance(b, dict):
    return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    return (type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape
            and np.array_equal(a, b))
  return type(a) is type(b) and a == b


def load(d, i):
  """The bundle handed over by load_checkpoint, or None."""
  got = []

  def un(dd, ii, b):
    got.append((dd, ii, b))
    return True
  du.load_checkpoint(d, i, un)
  if not got:
    return None
  assert len(got) == 1 and got[0][0] == d and got[0][1] == i, got
  return got[0][2]


def save(d, i, b):
  calls = []

  def fn(dd, ii):
    calls.append((dd, ii))
    return b
  du.save_checkpoint(d, i, fn)
  return calls


OPS = ([('save', i) for i in (0, 1, 2, 11, 99999, 100000)] +
       [('fail', 1), ('clean', 3, 1), ('clean', 11, 5), ('clean', 100002, 2),
        ('clean', 5, 50), ('clean', 11, 0)])
FOREIGN = {'notes.txt': b'hi', 'checkpoint_best.pkl': b'1',
           'checkpoint_final.pkl': b'2', 'checkpoint_1_2.pkl': b'3',
           'add_count_ckpt.00001.gz': b'4', 'model_00001.pkl': b'5',
           'checkpoint_00009_backup.pkl': b'8', 'checkpoint_.pkl': b'9',
           'checkpoint_00002_00003.pkl': b'10', 'old_checkpoint_00004.pkl': b'',
           'checkpoint_-0005.pkl': b'11', 'checkpoint_00006.pkl.tmp': b'12',
           'checkpoint_00007.pickle': b'13', 'checkpoint_000a8.pkl': b'14',
           'Checkpoint_00008.pkl': b'15', 'checkpoint00009.pkl': b'16',
           'checkpoint_00001.txt': b'6', 'my_checkpoint_00001.pkl.bak': b'7'}


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def verify(rec, d, model, where, latest=True):
  """Every checkpoint of the model loads exactly; the latest is its maximum."""
  if latest:
    want = max(model) if model else -1
    got = du.get_latest_checkpoint(d)
    rec.check(got == want, 'latest', f'{where}: latest checkpoint {got}, '
              f'expected {want}')
  for i, b in model.items():
    try:
      got = load(d, i)
    except Exception as e:  # pylint: disable=broad-except
      rec.fail('load', f'{where}: loading checkpoint {i} raises '
               f'{type(e).__name__}: {e}')
      continue
    rec.check(eq(got, b), 'load', f'{where}: checkpoint {i} holds '
              f'{str(got)[:80]}, saved {str(b)[:80]}')


def do_none(case, rec):
  with agents.scratch() as top:
    for d in (os.path.join(top, 'missing'), os.path.join(top, 'a/b/missing'),
              top):
      rec.check(du.get_latest_checkpoint(d) == -1, 'none',
                f'a latest checkpoint in {d}')
      rec.check(load(d, 3) is None, 'none', 'loaded from nowhere')
      rec.ev(outcome=d)
    d = os.path.join(top, 'x', 'y')
    save(d, 0, bundle(0))
    verify(rec, d, {0: bundle(0)}, 'save into a new nested directory')
    rec.check(load(d, 1) is None, 'none', 'loaded another iteration')
    for name in FOREIGN:
      e = os.path.join(top, 'f')
      os.makedirs(e, exist_ok=True)
      with open(os.path.join(e, name), 'wb') as f:
        f.write(FOREIGN[name])
    rec.check(du.get_latest_checkpoint(e) == -1, 'foreign', 'other files are '
              'taken for checkpoints')
    rec.ev(outcome='foreign')


def do_words(case, rec):
  for w in itertools.product(range(len(OPS)), repeat=case['depth'] - 1):
    word = [OPS[case['first']]] + [OPS[i] for i in w]
    for foreign in (False, True):
      with agents.scratch() as top:
        d = os.path.join(top, 'checkpoints')
        if foreign:
          os.makedirs(d)
          for k, v in FOREIGN.items():
            with open(os.path.join(d, k), 'wb') as f:
              f.write(v)
        model = {}
        for n, op in enumerate(word):
          where = f'{word[:n + 1]}{" among other files" if foreign else ""}'
          if op[0] == 'save':
            b = bundle(op[1] * 1000 + n, n % 2)
            c = save(d, op[1], b)
            rec.check(c == [(d, op[1])], 'bundle', f'{where}: bundle function '
                      f'called with {c}')
            model[op[1]] = b
          elif op[0] == 'fail':
            save(d, op[1], None)
          elif os.path.isdir(d):
            du.clean_up_old_checkpoints(d, op[1], checkpoint_duration=op[2])
            model = {i: b for i, b in model.items() if i >= op[1] - op[2]}
          rec.trans()
          rec.state(tuple(sorted(model)))
        verify(rec, d, model, str(word))
        left = set(os.listdir(d)) if os.path.isdir(d) else set()
        extra = left - (set(FOREIGN) if foreign else set())
        rec.check(len(extra) == len(model), 'files', f'{word}: left {extra} '
                  f'for checkpoints {sorted(model)}')
        if foreign:
          for k, v in FOREIGN.items():
            p = os.path.join(d, k)
            ok = os.path.exists(p) and open(p, 'rb').read() == v
            rec.check(ok, 'foreign', f'{word}: {k} was changed or removed')
        rec.ev(outcome=(word, foreign, sorted(model)))
        rec.trace()


def do_window(case, rec):
  """Saving and cleaning up after every iteration, all durations."""
  n = case['n']
  for start in (0, 3, 99995):
    for dur in (0, 1, 2, 5, n - 1, n, 50):
      with agents.scratch() as d:
        model = {}
        for k in range(n):
          i = start + k
          save(d, i, bundle(i))
          du.clean_up_old_checkpoints(d, i, checkpoint_duration=dur)
          model[i] = bundle(i)
          model = {a: b for a, b in model.items() if a >= i - dur}
          rec.trans()
          rec.state((start, dur, k))
          rec.check(du.get_latest_checkpoint(d) == i, 'latest',
                    f'after saving {i}')
          rec.check(len(os.listdir(d)) == len(model), 'window',
                    f'duration {dur}, iteration {i}: {sorted(os.listdir(d))}')
        verify(rec, d, model, f'duration {dur}')
        rec.ev(outcome=(start, dur))
        rec.trace()
  # the default duration is 50
  with agents.scratch() as d:
    for i in range(n):
      save(d, i, bundle(i))
    for ep in range(0, n + 52):
      du.clean_up_old_checkpoints(d, ep)
      left = {i for i in range(n) if load(d, i) is not None}
      rec.check(left == {i for i in range(n) if i >= ep - 50}, 'default',
                f'episode {ep} leaves {sorted(left)}')
      rec.trans()
      rec.ev(outcome=('default', ep))


def recover(rec, state, complete, torn, label, what):
  """One crash state: what was complete is intact, and can be found."""
  with agents.scratch() as top:
    crash.restore(state, top)
    d = os.path.join(top, 'checkpoints')
    verify(rec, d, complete, f'{what}: crash {label}', latest=False)
    got = du.get_latest_checkpoint(d)
    best = max(complete) if complete else -1
    ok = got == best or (torn is not None and got == torn)
    rec.check(ok, 'crash-latest', f'{what}: crash {label}: latest is {got}, '
              f'complete are {sorted(complete)}')
    # the next save and clean-up succeed and hide nothing
    nxt = max([best, torn if torn is not None else -1]) + 1
    save(d, nxt, bundle(nxt))
    verify(rec, d, {**complete, nxt: bundle(nxt)},
           f'{what}: save after crash {label}')


def do_crash(case, rec):
  i = case['iteration']
  b = bundle(i, case['size'])
  with agents.scratch() as top:
    d = os.path.join(top, 'checkpoints')
    model = {}
    for p in case['prior']:
      if p != i:
        save(d, p, bundle(p, 1))
        model[p] = bundle(p, 1)
    snaps, err = crash.watch(top, lambda: save(d, i, b))
    if err is not None:
      raise err
  final = {k: v[1] for k, v in snaps[-1].items()}

  def lengths(path, old, new):
    if len(new) <= 2000:
      return range(len(new))
    return sorted(set(range(0, 64)) | set(range(len(new) - 64, len(new))) |
                  set(range(0, len(new), 97)) | set(range(
                      4095, len(new), 4096)) | set(range(0, len(new), 4096)))
  n = 0
  for label, st in crash.crash_states(snaps, lengths):
    done = {k: v for k, v in st.items() if not k.endswith('/')} == {
        k: v for k, v in final.items() if not k.endswith('/')}
    complete = dict(model)
    if done:
      complete[i] = b
    recover(rec, st, complete, i, label, f'saving {i} on {sorted(model)}')
    rec.state((i, case['size'], tuple(model), label))
    rec.trans()
    rec.ev(outcome=(case['size'], label))
    n += 1
  rec.count('crash_states', n)
  rec.check(len(snaps) > 1, 'watch', 'saving wrote nothing')


def do_cleancrash(case, rec):
  dur = case['dur']
  its = list(range(0, 8))
  with agents.scratch() as top:
    d = os.path.join(top, 'checkpoints')
    for i in its:
      save(d, i, bundle(i))
    snaps, err = crash.watch(top, lambda: du.clean_up_old_checkpoints(
        d, 7, checkpoint_duration=dur))
    if err is not None:
      raise err
  keep = {i: bundle(i) for i in its if i >= 7 - dur}
  for label, st in crash.crash_states(snaps):
    recover(rec, st, keep, None, label, f'cleaning up with duration {dur}')
    rec.state((dur, label))
    rec.trans()
    rec.ev(outcome=(dur, label))
    rec.count('crash_states')


def play(agent, n):
  """A short training episode with n steps."""
  agent.begin_episode(np.array([0.5, n]))
  for k in range(n):
    agent.step(1.0 + k, np.array([float(k), n]))
  agent.end_episode(2.0, True)


def brain(a):
  return dict(params=agents.tree(a.online_params),
              target=agents.tree(a.target_network_params),
              opt=agents.tree(a.optimizer_state),
              steps=int(a.training_steps),
              added=int(a._replay.add_count))


def do_agent(case, rec):
  """Crashes while an agent saves, recovery into a fresh agent."""
  name, n = case['name'], case['saves']
  extra = () if name == 'dqn' else (agents.no_exploration(),)
  a = agents.make(name, extra=extra)
  brains = {}
  with agents.scratch() as top:
    d = os.path.join(top, 'checkpoints')
    for i in range(n):
      play(a, 2 + i)
      a.save_checkpoint(d, i)
      brains[i] = brain(a)
    play(a, 3)
    brains[n] = brain(a)
    snaps, err = crash.watch(top, lambda: a.save_checkpoint(d, n))
    if err is not None:
      raise err
  final = {k: v[1] for k, v in snaps[-1].items()}
  pkls = [k for k in final if k.endswith('.pkl') and k not in snaps[0]]
  rec.check(bool(pkls), 'agent', f'saving created {pkls}')
  fresh = agents.make(name, seed=1, extra=extra)

  def lengths(path, old, new):
    if path.endswith('.pkl'):
      return range(len(new))
    return sorted({0, 1, len(new) // 2, len(new) - 1})

  for k, (label, st) in enumerate(crash.crash_states(snaps, lengths)):
    if k % case['of'] != case['part']:
      continue
    done = all(st.get(p) == final[p] for p in pkls)
    with agents.scratch() as top:
      crash.restore(st, top)
      d = os.path.join(top, 'checkpoints')
      where = f'{name} interrupted while saving iteration {n}: {label}'
      # a fresh agent, without paying for a new network
      fresh.online_params = a.online_params
      fresh.target_network_params = a.online_params
      fresh.training_steps = -5
      try:
        got = fresh.reload_latest_checkpoint(d)
      except Exception as e:  # pylint: disable=broad-except
        rec.fail('recover', f'{where}: reloading raises {type(e).__name__}: '
                 f'{e}')
        continue
      want = n if done else n - 1
      rec.check(got == want, 'recover', f'{where}: restarts from {got}, '
                f'expected {want}')
      if want >= 0 and got == want:
        rec.check(brain(fresh) == brains[want], 'restore', f'{where}: restored '
                  f'{str(brain(fresh))[:200]}, saved {str(brains[want])[:200]}')
      if want < 0:
        rec.check(fresh.training_steps == -5, 'restore', f'{where}: changed by '
                  'an incomplete checkpoint')
    rec.state((name, n, label))
    rec.trans()
    rec.ev(outcome=(name, n, label, want))
    rec.count('crash_states')
  if case['part'] == 0:
    with agents.scratch() as top:
      crash.restore(final, top)
      d = os.path.join(top, 'checkpoints')
      for i in range(n + 1):
        fresh.training_steps = -5
        fresh.online_params = None
        fresh.load_checkpoint(d, i)
        if i < n - 5:
          rec.check(fresh.training_steps == -5, 'window', f'{name}: checkpoint '
                    f'{i} is still there after iteration {n}')
        else:
          got = brain(fresh)
          ok = all(got[k] == brains[i][k] for k in got if k != 'added')
          rec.check(ok, 'window', f'{name}: checkpoint {i} after iteration {n} '
                    f'holds {str(got)[:200]}')
        rec.trans()
  rec.trace()
