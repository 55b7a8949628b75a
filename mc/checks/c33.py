"""C33: training and evaluation wind fields never mix."""
import itertools
import os
import pickle

from balloon_learning_environment.generative import dataset_wind_field_reservoir as dr
from balloon_learning_environment.generative import wind_field_reservoir
from mc import agents
import jax.numpy as jnp
import numpy as np

PROP, LEVEL = 'C33', 'model_checking'
TECHNIQUE = ('all dataset sizes, reserve sizes, batch sizes and words of draws '
             'within bounds on the real reservoir against a set model')
RULE = ('words: every dataset of 1..N fields, every reserve of 0..N, every word '
        'of training batches (every size) and evaluation batches of length 3; '
        'each field carries its index, so every served row is identified. '
        'long: 40 batches per key: every training field is served, each about '
        'equally often, successive batches differ. shards: the 200-file '
        'directory form with every pattern of shard sizes of a family.')
ASSUMPTIONS = ['fairness of the draws is judged on enumerated keys within 5 '
               'standard deviations']


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='words', n=n, depth=2 if q else 3)
         for n in range(1, 7 if q else 9)]
  out += [dict(kind='long', n=n, e=e, b=b) for n, e, b in (
      (12, 3, 2), (12, 3, 9), (40, 10, 5), (25, 0, 4), (11, 10, 1),
      (30, 29, 1))]
  out += [dict(kind='shards', pattern=p) for p in range(3)]
  out.append(dict(kind='default'))
  return out


def data(n, kind):
  """n fields; field i holds i in every cell, plus its own cell pattern."""
  shape = [(), (2, 3), (2, 2, 1, 1, 2)][kind]
  base = np.arange(n, dtype=np.float32).reshape((n,) + (1,) * len(shape))
  cells = np.arange(int(np.prod(shape)), dtype=np.float32).reshape(shape) / 64.
  return base * np.ones((1,) + shape, np.float32) + cells


def index(rec, batch, d, where):
  """The indices of the rows of a batch in the dataset d."""
  b = np.asarray(batch)
  if not rec.check(b.ndim == d.ndim and b.shape[1:] == d.shape[1:], 'shape',
                   f'{where}: batch of shape {b.shape}, data {d.shape}'):
    return []
  out = []
  for row in b:
    i = int(np.ravel(row)[0])
    if not rec.check(0 <= i < len(d) and np.array_equal(row, d[i]), 'unchanged',
                     f'{where}: a served field is none of the dataset\'s'):
      return []
    out.append(i)
  return out


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def train(rec, r, d, n, e, b, where):
  """One training batch; judged; returns its indices or None if refused."""
  m = n - e
  try:
    got = r.get_batch(b)
  except Exception as x:  # pylint: disable=broad-except
    rec.check(b > m or m <= 0, 'refused', f'{where}: {type(x).__name__}: {x}')
    return None
  ix = index(rec, got, d, where)
  rec.check(b <= m, 'oversized', f'{where}: served {b} of {m} training fields')
  rec.check(len(ix) == b and len(set(ix)) == b, 'distinct', f'{where}: asked '
            f'for {b} fields, got {ix}')
  rec.check(all(i < m for i in ix), 'leak', f'{where}: a field reserved for '
            f'evaluation was served for training: {ix} of {m}')
  return ix


def evaluation(rec, r, d, n, e, where):
  ix = index(rec, r.get_eval_batch(), d, where)
  rec.check(ix == list(range(max(n - e, 0), n)), 'eval', f'{where}: evaluation '
            f'fields {ix}, reserved are the last {e} of {n}')


def do_words(case, rec):
  n = case['n']
  for e in range(n + 1):
    sizes = sorted({0, 1, 2, n - e, n - e + 1, n}) if n > 4 else range(n + 2)
    ops = ['eval'] + [b for b in sizes if b >= 0]
    for kind in range(3):
      d = data(n, kind)
      for w in itertools.product(ops, repeat=case['depth']):
        seed = len(w) + kind
        rs = [dr.DatasetWindFieldReservoir(jnp.asarray(d), eval_batch_size=e,
                                           rng_seed=seed) for _ in range(2)]
        rec.check(isinstance(rs[0], wind_field_reservoir.WindFieldReservoir),
                  'type', 'not a reservoir')
        for i, op in enumerate(w):
          where = f'{n} fields, {e} reserved, {list(w[:i + 1])}'
          if op == 'eval':
            evaluation(rec, rs[0], d, n, e, where)
          else:
            a = train(rec, rs[0], d, n, e, op, where)
            b = train(rec, rs[1], d, n, e, op, where)
            rec.check(a == b, 'key', f'{where}: {a} and {b} for the same seed')
          rec.transitions += 1
          rec.state((n, e, kind, op))
        rec.trace()
        rec.ev(outcome=(n, e, kind, w))
      evaluation(rec, rs[0], d, n, e, f'{n} fields, {e} reserved')


def do_long(case, rec):
  n, e, b = case['n'], case['e'], case['b']
  d = data(n, 1)
  m = n - e
  firsts = set()
  for key in range(6):
    r = dr.DatasetWindFieldReservoir(jnp.asarray(d), eval_batch_size=e,
                                     rng_seed=key)
    counts, repeats, last = [0] * n, 0, None
    for k in range(40):
      where = f'{case}, seed {key}, batch {k}'
      ix = train(rec, r, d, n, e, b, where)
      if ix is None:
        return
      for i in ix:
        counts[i] += 1
      repeats += ix == last
      last = ix
      if k == 0:
        firsts.add(tuple(ix))
      if k % 7 == 0:
        evaluation(rec, r, d, n, e, where)
      rec.transitions += 1
      rec.state((key, k, tuple(ix)))
    p = b / m
    for i in range(m):
      rec.check(abs(counts[i] - 40 * p) <= 5 * (40 * p * (1 - p)) ** .5 + 1e-9,
                'fair', f'{case}, seed {key}: field {i} served {counts[i]} '
                f'times in 40 batches, expected {40 * p}')
    if m >= 5:
      rec.check(repeats <= (2 if b < m else 1), 'fresh', f'{case}, seed {key}: '
                f'{repeats} of 40 batches repeat the one before')
    rec.trace()
    rec.ev(outcome=(n, e, b, key))
  if m >= 9:
    rec.check(len(firsts) > 1, 'seeds', f'{case}: every seed draws {firsts}')


def do_shards(case, rec):
  """The directory form: batch0000.pickle .. batch0199.pickle."""
  sizes = [[1] * 200, [(i * 7) % 3 for i in range(200)],
           [2 if i in (0, 99, 100, 199) else 0 for i in range(200)]][
               case['pattern']]
  n = sum(sizes)
  d = data(n, 1)
  with agents.scratch() as top:
    k = 0
    for i, s in enumerate(sizes):
      with open(os.path.join(top, f'batch{i:04d}.pickle'), 'wb') as f:
        pickle.dump(d[k:k + s], f)
      k += s
    for e in (1, 3):
      r = dr.DatasetWindFieldReservoir(top, eval_batch_size=e, rng_seed=3)
      where = f'{n} fields in 200 files, {e} reserved'
      evaluation(rec, r, d, n, e, where)
      seen = set()
      for _ in range(3):
        seen |= set(train(rec, r, d, n, e, n - e, where) or ())
      rec.check(seen == set(range(n - e)), 'whole', f'{where}: fields '
                f'{sorted(set(range(n - e)) - seen)} are never served')
      rec.ev(outcome=(case['pattern'], e))
      rec.state((case['pattern'], e))
      rec.trans(4)
      rec.trace()
    os.remove(os.path.join(top, 'batch0117.pickle'))
    rec.raises(Exception, lambda: dr.DatasetWindFieldReservoir(top), 'missing',
               'a missing file')


def do_default(case, rec):
  d = data(25, 0)
  for form in (np.asarray, jnp.asarray):
    r = dr.DatasetWindFieldReservoir(form(d))
    evaluation(rec, r, d, 25, 10, 'default reserve')
    rec.check(train(rec, r, d, 25, 10, 15, 'default reserve') is not None,
              'default', 'refused')
    a = dr.DatasetWindFieldReservoir(form(d)).get_batch(5)
    b = dr.DatasetWindFieldReservoir(form(d), rng_seed=0).get_batch(5)
    rec.check(np.array_equal(a, b), 'default-seed', 'the default seed is not 0')
    rec.ev(outcome=str(form))
    rec.state(str(form))
