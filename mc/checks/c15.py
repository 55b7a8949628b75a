"""C15: saving and restoring the simulator, at every point of every word."""
import copy
import itertools
import pickle

from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import features
from balloon_learning_environment.env import simulator_data
from mc import world
import numpy as np

PROP, LEVEL = 'C15', 'model_checking'
RULE = ('every action word up to a depth x every save position x every copy '
        'route (deep copy, pickle) x every restore target (the same arena '
        'further on, another arena with another seed, after a reset); the '
        'continuation is compared step by step with the uninterrupted run. '
        'Starts include states inside the hysteresis bands of each guard and '
        'one stride before a terminal state.')
ASSUMPTIONS = ['the feature constructor is not part of the simulator state '
               '(documented in the code), so of the observation only the '
               'sixteen ambient features are compared after a restore',
               'pickling a position goes through degrees, so pickled copies '
               'are compared to 1e-9 instead of bit for bit']
STARTS = ['plain', 'altitude', 'low-sp', 'high-sp', 'power', 'dying']
ROUTES = ['deepcopy', 'pickle']


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='words', start=s, route=r, wind=w, depth=3 if q else 4)
         for s in STARTS for r in ROUTES
         for w in (('smooth',) if q else ('static', 'smooth'))]
  out += [dict(kind='whole', route=r, wind=w, depth=3 if q else 4)
          for r in ROUTES for w in ('static', 'smooth')]
  out += [dict(kind='alias', start=s) for s in STARTS]
  out += [dict(kind='held', start=s) for s in STARTS]
  return out


def arena(seed, wind):
  return balloon_arena.BalloonArena(features.PerciatelliFeatureConstructor,
                                    world.make_wind(wind), seed)


def pose(ar, start):
  """Puts the balloon of the arena into the named situation."""
  s = ar.get_balloon_state()
  at = ar.get_simulator_state().atmosphere
  guard = None
  if start == 'altitude':
    p = at.at_height(world.units.Distance(feet=50100.)).pressure
    s.pressure = float(p)
    # seen below the floor, now in the hysteresis band
    s.altitude_safety_layer.get_action(world.C.DOWN, at, float(p) * 1.01)
    p = at.at_height(world.units.Distance(feet=50700.)).pressure
    s.pressure = float(p)
  elif start in ('low-sp', 'high-sp'):
    lim = s.envelope_max_superpressure
    a, b = (200., 270.) if start == 'low-sp' else (lim - 200., lim - 270.)
    s.envelope_safety_layer.get_action(world.C.DOWN, a)
    s.superpressure = b
  elif start == 'power':
    when = s.date_time.replace(hour=22, minute=0, second=0)
    n = world.state(0., 0., (2013, 3, 25, 22, 0, 0), 8000., charge=400.)
    ar.set_balloon_state(n)
  elif start == 'dying':
    n = world.state(0., 0., (2013, 3, 25, 23, 0, 0), 8000.,
                    power_safety_layer_enabled=False, charge=25.)
    ar.set_balloon_state(n)
  del guard
  return ar


def copy_state(st, route):
  return (copy.deepcopy(st) if route == 'deepcopy' else
          pickle.loads(pickle.dumps(st)))


def view(st):
  """Everything observable about a simulator state."""
  b = st.balloon_state
  w = [st.wind_field.get_ground_truth(
      b.x + world.units.Distance(km=dx), b.y, b.pressure + dp, b.time_elapsed)
       for dx, dp in ((0, 0.), (40, 500.))]
  a = [st.atmosphere.at_height(world.units.Distance(km=h))
       for h in (5., 16., 19., 40.)]
  out = dict(world.flat(b), **{f'w{i}{c}': float(getattr(v, c).mps)
                              for i, v in enumerate(w) for c in 'uv'})
  out.update({f'a{i}{n}': float(getattr(v, n)) for i, v in enumerate(a)
              for n in ('pressure', 'temperature')})
  for name in ('power', 'envelope', 'altitude'):
    out[name] = bool(getattr(b, name + '_safety_layer').navigation_is_paused)
  out['enabled'] = b.power_safety_layer_enabled
  out['excess'] = bool(b.excess_energy)
  out['load_day'] = b.daytime_power_load.watts
  return out


def same(a, b, tol):
  if set(a) != set(b):
    return f'keys {set(a) ^ set(b)}'
  for k in a:
    x, y = a[k], b[k]
    if isinstance(x, float) and tol:
      if abs(x - y) > tol * max(1.0, abs(x), abs(y)):
        return f'{k}: {x!r} instead of {y!r}'
    elif x != y:
      return f'{k}: {x!r} instead of {y!r}'
  return None


def act(ar, a):
  """One step: what can be observed, or the refusal."""
  try:
    o = ar.step(world.ACTS[a])
  except AssertionError:
    return dict(refused=True)
  v = view(ar.get_simulator_state())
  v.update({f'o{i}': float(x) for i, x in enumerate(o[:16])})
  return v


def run(case, rec):
  {'words': words, 'whole': whole, 'alias': alias,
   'held': held}[case['kind']](case, rec)
  rec.sample(case)


def words(case, rec):
  """Restores into the same, another and a reset arena."""
  tol = 0.0 if case['route'] == 'deepcopy' else 1e-9
  D = case['depth']
  base = pose(arena(5, case['wind']), case['start'])
  seen_paused = set()
  # uninterrupted runs; the prefix tree shares steps by whole-arena copies,
  # which case kind 'whole' compares with runs that were never copied
  want, snaps = {}, {}

  def go(ar, word):
    st = ar.get_simulator_state()
    snaps[word] = (copy_state(st, case['route']), view(st))
    if len(word) == D:
      return
    for a in range(3):
      n = copy.deepcopy(ar)
      want[word + (a,)] = act(n, a)
      go(n, word + (a,))
  go(base, ())
  targets = {'same': base, 'other': arena(6, case['wind'])}
  for word, (snap, v) in snaps.items():
    seen_paused.add((v['power'], v['envelope'], v['altitude']))
    rec.state((case['start'], case['wind'], word))
    rec.check(same(view(snap), v, tol) is None, 'snapshot', lambda: f'{case} '
              f'after {word}: the copy differs: {same(view(snap), v, tol)}')
    for name, ar in targets.items():
      for mode in ('now', 'reset'):
        if mode == 'reset':
          ar.reset(77)
        for tail in itertools.product(range(3), repeat=D - len(word)):
          if mode == 'reset' and sum(tail) % 3:
            continue
          ar.set_simulator_state(copy_state(snap, case['route']))
          d = same(view(ar.get_simulator_state()), v, tol)
          where = f'{case} saved after {word}, restored in {name} arena'
          if not rec.check(d is None, 'restore', f'{where}: {d}'):
            return
          for i, a in enumerate(tail):
            got = act(ar, a)
            d = same(got, want[word + tail[:i + 1]], tol)
            rec.trans()
            if not rec.check(d is None, 'continue', f'{where}, continued '
                             f'{tail[:i + 1]}: {d}'):
              return
          rec.trace()
          rec.ev(outcome=(case['start'], case['wind'], word, tail, name))
    # the snapshot itself is untouched by what happened elsewhere
    d = same(view(snap), v, tol)
    rec.check(d is None, 'snapshot-changed', f'{case} after {word}: {d}')
  # the restored balloon alone, through the balloon state accessors
  for word, (snap, v) in snaps.items():
    if len(word) >= D:
      continue
    ar = targets['other']
    ar.set_simulator_state(copy_state(snap, case['route']))
    ar.set_balloon_state(copy_state(snap.balloon_state, case['route']))
    d = same(view(ar.get_simulator_state()), v, tol)
    rec.check(d is None, 'balloon-state', f'{case} after {word}: {d}')
    got = act(ar, 0)
    d = same(got, want[word + (0,)], tol)
    rec.check(d is None, 'balloon-state', f'{case} after {word} then 0: {d}')
  for s in seen_paused:
    rec.count(f'paused{s}')


def held(case, rec):
  """A state put aside while another takes its place comes back unchanged."""
  D = 3
  for word in itertools.product(range(3), repeat=D):
    for cut in range(D):
      for how in ('balloon', 'simulator'):
        ar = copy.deepcopy(posed(case['start']))
        run_ = copy.deepcopy(ar)
        try:
          for a in word[:cut]:
            ar.step(world.ACTS[a])
            run_.step(world.ACTS[a])
        except AssertionError:
          break
        aside = (ar.get_balloon_state() if how == 'balloon' else
                 ar.get_simulator_state())
        v = view(run_.get_simulator_state())
        # another state flies in between
        other = copy.deepcopy(aside)
        bal = other if how == 'balloon' else other.balloon_state
        bal.x = world.units.Distance(km=77.)
        bal.superpressure = 700.
        bal.altitude_safety_layer.navigation_is_paused  # read only
        put = (ar.set_balloon_state if how == 'balloon' else
               ar.set_simulator_state)
        put(other)
        rec.check(abs(ar.get_balloon_state().x.km - 77.) < 1e-9, 'held-other',
                  f'{case} {word} at {cut}: the state put in is not in force')
        act(ar, word[cut])
        put(aside)
        d = same(view(ar.get_simulator_state()), v, 0.0)
        where = f'{case} {word} set aside at {cut} as {how} state'
        rec.check(d is None, 'held', f'{where}: {d}')
        for a in word[cut:]:
          x, y = act(ar, a), act(run_, a)
          d = same(x, y, 0.0)
          rec.trans()
          if not rec.check(d is None, 'held-continue', f'{where}: {d}'):
            return
        rec.trace()
        rec.state((case['start'], word, cut, how))
        rec.ev(outcome=(case['start'], word, cut, how))


_POSED = {}


def posed(start):
  if start not in _POSED:
    _POSED[start] = pose(arena(5, 'smooth'), start)
  return _POSED[start]


def whole(case, rec):
  """A copy of the whole arena continues exactly like the original."""
  D = case['depth']
  tol = 0.0 if case['route'] == 'deepcopy' else 1e-9
  for word in itertools.product(range(3), repeat=D):
    ar = arena_cache(case['wind'])
    want = [act(ar, a) for a in word]
    full = ar.feature_constructor.get_features()
    ar = arena_cache(case['wind'])
    for i in range(D):
      ar = (copy.deepcopy(ar) if case['route'] == 'deepcopy' else
            pickle.loads(pickle.dumps(ar)))
      d = same(act(ar, word[i]), want[i], tol)
      rec.trans()
      rec.check(d is None, 'whole', f'{case} {word[:i + 1]}: {d}')
    f = ar.feature_constructor.get_features()
    rec.check(np.allclose(f, full, rtol=1e-5, atol=1e-6), 'whole-features',
              lambda: f'{case} {word}: features differ by '
              f'{np.abs(f - full).max()}')
    rec.trace()
    rec.ev(outcome=(case['wind'], word))


_AR = {}


def arena_cache(wind):
  """An arena reset to the same seed: never a copy."""
  if wind not in _AR:
    _AR[wind] = arena(8, wind)
  _AR[wind].reset(8)
  return _AR[wind]


def alias(case, rec):
  """Observations handed out earlier stay as they were."""
  ar = pose(arena(9, 'smooth'), case['start'])
  for word in itertools.product(range(3), repeat=3):
    a2 = copy.deepcopy(ar)
    held = [a2.feature_constructor.get_features()]
    seen = [held[0].copy()]
    for a in word:
      try:
        o = a2.step(world.ACTS[a])
      except AssertionError:
        break
      held.append(o)
      seen.append(o.copy())
    a2.reset(3)
    rec.check(all((x == y).all() for x, y in zip(held, seen)), 'obs-aliased',
              f'{case} {word}: an observation changed later')
    # scribbling over an observation changes nothing that follows
    a3, a4 = copy.deepcopy(ar), copy.deepcopy(ar)
    a3.feature_constructor.get_features()[:] = 1e3
    for a in word:
      try:
        o3, o4 = a3.step(world.ACTS[a]), a4.step(world.ACTS[a])
      except AssertionError:
        break
      if not rec.check((o3 == o4).all(), 'obs-scribble', f'{case} {word}: an '
                       f'observation the caller changed came back'):
        break
      o3[:] = -1e3
    # measurements are of the state now
    m = a2.get_measurements()
    rec.check(world.flat(m.balloon_observation) ==
              world.flat(a2.get_balloon_state()), 'measure', f'{case} {word}')
    w = view(a2.get_simulator_state())
    rec.check((m.wind_at_balloon.u.mps, m.wind_at_balloon.v.mps) ==
              (w['w0u'], w['w0v']), 'measure-wind', f'{case} {word}')
    rec.ev(outcome=(case['start'], word))
    rec.trans(len(word))
