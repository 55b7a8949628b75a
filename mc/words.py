"""Word enumeration and conformance of a stateful object with a reference."""
import itertools


def debruijn(k, n):
  """A linear word over range(k) that contains every word of length n."""
  a = [0] * k * n
  seq = []

  def db(t, p):
    if t > n:
      if n % p == 0:
        seq.extend(a[1:p + 1])
    else:
      a[t] = a[t - p]
      db(t + 1, p)
      for j in range(a[t - p] + 1, k):
        a[t] = j
        db(t + 1, t)
  import sys
  sys.setrecursionlimit(10000)
  db(1, 1)
  return seq + seq[:n - 1]


def conform(rec, make_impl, make_ref, alphabet, prefix, depth, key,
            describe=repr):
  """Replays every word prefix+w, |w| <= depth, on impl and reference.

  make_impl() -> f(sym) -> observation;  make_ref() -> (f(sym) -> observation,
  state()) where state() identifies the reference state (for coverage).
  Every maximal word is replayed on a fresh object and compared at each step,
  so all shorter words are covered as their prefixes.
  """
  n = 0
  for w in itertools.product(range(len(alphabet)), repeat=depth):
    word = list(prefix) + [alphabet[i] for i in w]
    impl, (ref, st) = make_impl(), make_ref()
    for i, sym in enumerate(word):
      got, want = impl(sym), ref(sym)
      rec.transitions += 1
      rec.state((key, st()))
      if got != want:
        rec.fail(key, f'after {describe(word[:i])} the input {sym!r} gives '
                 f'{got}, expected {want}', dict(word=word[:i + 1]))
        break
    rec.trace()
    rec.ev(outcome=None)
    n += 1
  return n


def conform_word(rec, impl, ref, st, word, key):
  """One long word (e.g. de Bruijn) on one object."""
  for i, sym in enumerate(word):
    got, want = impl(sym), ref(sym)
    rec.transitions += 1
    rec.state((key, st()))
    if got != want:
      rec.fail(key, f'at position {i} of a long history (last 6 inputs '
               f'{word[max(0, i - 5):i + 1]!r}) got {got}, expected {want}')
      return False
  rec.trace()
  rec.ev()
  return True
