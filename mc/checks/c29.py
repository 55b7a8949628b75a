"""C29: evaluation suites."""
import hashlib
import itertools
import json

from balloon_learning_environment.eval import strata_seeds
from balloon_learning_environment.eval import suites

PROP, LEVEL = 'C29', 'model_checking'
RULE = ('every suite and stratum against the published seeds (ranges, and the '
        'digests of the strata), and again after every word of mutations of '
        'returned suites up to a depth, over every pair of suites; every name '
        'near a suite name is refused.')
ASSUMPTIONS = ['the published strata are those of the pinned commit']
STRATA = {
    'hardest': '9a5da51f65edf6c0df4e0a74138d1482f31f91bb473cb97c7cde774f7a85ea2d',
    'hard': 'fd9a617aef2e4850c5a9c4d8ba6a250f542f6b9e526e7ec27b9b648d024a7aec',
    'mid': '3ed0b49ff181142871cae8b89da36b412435fa9852e655d5228e8ad64ab408ae',
    'easy': 'eabb71ff73d834b9af6ec3e9b36d0c1db36aa3651c0647bd2f5e20d9c9199740',
    'easiest': 'e49b6bb23c536548a527b8f84869183bae216d520b99a7bfe2d3cf3b174785fe'}
RANGES = {'big_eval': 10000, 'medium_eval': 1000, 'small_eval': 100,
          'tiny_eval': 10, 'micro_eval': 1}
NAMES = list(RANGES) + [f'{s}_strata' for s in STRATA] + ['all_strata']


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='fixed')]
  out += [dict(kind='words', name=n, depth=2 if q else 3) for n in NAMES]
  out.append(dict(kind='names'))
  return out


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def sha(x):
  return hashlib.sha256(json.dumps([int(i) for i in x]).encode()).hexdigest()


ALL_SHA = {}


def good(name, suite):
  """None, or what is wrong with the suite."""
  s = suite.seeds
  if suite.max_episode_length != 960:
    return f'maximum length {suite.max_episode_length}'
  if name in RANGES:
    if list(s) != list(range(RANGES[name])):
      return f'{len(s)} seeds, not 0..{RANGES[name] - 1}'
  elif name == 'all_strata':
    if len(s) != 10000 or len(set(s)) != 10000:
      return f'{len(s)} seeds, {len(set(s))} different'
    if [sha(s[2000 * i:2000 * i + 2000]) for i in range(5)] != list(
        STRATA.values()):
      return 'not the strata from hardest to easiest'
  elif sha(s) != STRATA[name[:-7]]:
    return f'{len(s)} seeds, not the published ones'
  return None


def do_fixed(case, rec):
  got = suites.available_suites()
  rec.check(sorted(got) == sorted(NAMES), 'available', f'{got}')
  for n in NAMES:
    bad = good(n, suites.get_eval_suite(n))
    rec.check(bad is None, 'suite', f'{n}: {bad}')
    rec.state(n)
    rec.ev(outcome=n)
    rec.trans()
  st = strata_seeds.STRATA_SEEDS
  rec.check(set(st) == set(STRATA), 'strata', f'{set(st)}')
  for a, b in itertools.combinations(STRATA, 2):
    rec.check(not set(st[a]) & set(st[b]), 'disjoint', f'{a} and {b} share '
              f'{sorted(set(st[a]) & set(st[b]))[:5]}')
    rec.ev(outcome=(a, b))
  for a in STRATA:
    rec.check(len(st[a]) == 2000 and len(set(st[a])) == 2000 and
              all(isinstance(x, int) and x >= 0 for x in st[a]), 'strata',
              f'{a}: {len(st[a])} seeds')


def m_append(s): s.seeds.append(-1)
def m_clear(s): s.seeds.clear()
def m_reverse(s): s.seeds.reverse()
def m_set(s): s.seeds[0] = 123456
def m_del(s): del s.seeds[len(s.seeds) // 2:]
def m_replace(s): s.seeds = [1, 2]
def m_length(s): s.max_episode_length = 1
def m_extend(s): s.seeds += [5, 6]


MUT = [m_append, m_clear, m_reverse, m_set, m_del, m_replace, m_length,
       m_extend]


def do_words(case, rec):
  """Mutating returned suites changes no later one."""
  n = case['name']
  for depth in range(1, case['depth'] + 1):
    for w in itertools.product(MUT, repeat=depth):
      for other in (n, 'all_strata', 'hardest_strata', 'tiny_eval'):
        kept = suites.get_eval_suite(n)
        before = (list(kept.seeds), kept.max_episode_length)
        got = []
        for i, m in enumerate(w):
          s = suites.get_eval_suite(n if i % 2 == 0 else other)
          try:
            m(s)
          except (TypeError, AttributeError, IndexError):
            pass  # immutable suites are as good
          got.append(s)
        word = [m.__name__[2:] for m in w]
        for k in {n, other}:
          bad = good(k, suites.get_eval_suite(k))
          rec.check(bad is None, 'mutable', f'after {word} on {n}/{other}, {k} '
                    f'has {bad}')
        rec.check((list(kept.seeds), kept.max_episode_length) == before,
                  'shared', f'{word} changed an earlier {n}')
        rec.trans(depth)
        rec.ev(outcome=(n, word, other))
        rec.trace()
      rec.state((n, tuple(word)))
  # several evaluations in a row, as eval.py slices the suite
  for k in (2, 3):
    for i in range(k):
      s = suites.get_eval_suite(n)
      s.seeds = s.seeds[len(s.seeds) * i // k:len(s.seeds) * (i + 1) // k]
      bad = good(n, suites.get_eval_suite(n))
      rec.check(bad is None, 'slice', f'{n} after slicing: {bad}')
  a = suites.available_suites()
  try:
    a.remove(n)
    a.append('nosuch')
  except AttributeError:
    pass
  rec.check(sorted(suites.available_suites()) == sorted(NAMES), 'available',
            'mutating the list of suites changes it')
  rec.raises(ValueError, lambda: suites.get_eval_suite('nosuch'), 'unknown',
             'nosuch')


def do_names(case, rec):
  bad = {'', 'eval', 'strata', 'big', 'BIG_EVAL', 'hardest', 'big_eval ', None,
         0, 'hardest_strata_', 'all', 'big-eval'}
  for n in NAMES:
    for i in range(len(n)):
      bad.add(n[:i] + n[i + 1:])
      bad.add(n[:i])
    bad.add(n.upper())
    bad.add(n + 's')
  for b in sorted(bad - set(NAMES), key=str):
    rec.raises(ValueError, lambda: suites.get_eval_suite(b), 'unknown',
               f'suite {b!r}')
    rec.ev(outcome=b)
    rec.trans()
