"""C21: unit types as an exact, safe arithmetic."""
import copy
import datetime as dt
import itertools
import math
import operator
import pickle

from balloon_learning_environment.utils import constants
from balloon_learning_environment.utils import units

PROP, LEVEL = 'C21', 'model_checking'
RULE = ('the product of a value lattice (zero, signs, tiny, huge, integers) '
        'with every constructor unit, reading unit and operator, compared '
        'with plain arithmetic; every ordered pair of kinds under every '
        'operator, where all but the documented combinations must be refused; '
        'calendar helpers over leap days, year ends and time zones.')
ASSUMPTIONS = ['equality of distances and of velocities is documented to '
               'hold up to 1e-9']
VALS = [0.0, 1.0, -1.0, 0.3048, 1e-7, -2.5e-3, 3, -7, 1000.0, 123456.789,
        -6.371e6, 1e12, 180, 59.999, -6.371e6 + 0.002, 1000.0 + 1.5e-9]
UTC = dt.timezone.utc
UNITS = {
    'Distance': (units.Distance, dict(m=1.0, meters=1.0, km=1000.0,
                                      kilometers=1000.0, feet=0.3048)),
    'Velocity': (units.Velocity, dict(mps=1.0, meters_per_second=1.0,
                                      kmph=1 / 3.6,
                                      kilometers_per_hour=1 / 3.6)),
    'Energy': (units.Energy, dict(watt_hours=1.0)),
    'Power': (units.Power, dict(watts=1.0)),
}
BASE = dict(Distance='m', Velocity='mps', Energy='watt_hours', Power='watts')


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='convert', type=t) for t in UNITS]
  out += [dict(kind='arith', type=t, part=i, wide=not q)
          for t in UNITS for i in range(3)]
  out += [dict(kind='mixed', a=a) for a in list(UNITS) + ['other']]
  out += [dict(kind='calendar', step=1 if q else 1)]
  return out


def base(x):
  return getattr(x, BASE[type(x).__name__])


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def do_convert(case, rec):
  cls, table = UNITS[case['type']]
  for (u, f), v in itertools.product(table.items(), VALS):
    q = cls(**{u: v})
    for u2, f2 in table.items():
      rec.close(getattr(q, u2), v * f / f2, 'convert', f"{case['type']} "
                f'{v} {u} in {u2}', rel=1e-12, abs_=1e-300)
      # and back again
      rec.close(getattr(cls(**{u2: getattr(q, u2)}), u), v, 'round-trip',
                f"{case['type']} {v} {u} by {u2} and back", rel=1e-12)
      rec.ev(outcome=(u, u2, v))
      rec.trans()
    for c in (copy.deepcopy(q), pickle.loads(pickle.dumps(q)), copy.copy(q)):
      rec.check(base(c) == base(q), 'copy', f"{case['type']} {v} {u}")
  for a, b in itertools.permutations(table, 2):
    for x, y in itertools.product(VALS[:6], repeat=2):
      rec.close(base(cls(**{a: x, b: y})), x * table[a] + y * table[b],
                'sum-of-units', f"{case['type']}({a}={x}, {b}={y})",
                rel=1e-12, abs_=1e-15)
      rec.ev(outcome=(a, b, x, y))
  rec.check(base(cls()) == 0.0, 'default', f"{case['type']}() is not zero")
  rec.raises(TypeError, lambda: cls(1.0), 'positional', 'a bare number')
  rec.state(case['type'])


TD = [dt.timedelta(), dt.timedelta(seconds=10), dt.timedelta(minutes=3),
      dt.timedelta(hours=-5), dt.timedelta(days=400, microseconds=7)]


def do_arith(case, rec):
  t = case['type']
  cls, table = UNITS[t]
  k = BASE[t]
  make = lambda v: cls(**{k: v})
  vals = VALS + ([v * s for v in VALS for s in (1 + 1e-13, 1.1, -3.)]
                 if case['wide'] else [])
  for x in vals[case['part']::3]:
    for y in vals:
      a, b = make(x), make(y)
      w = f'{t} {x!r} and {y!r}'
      rec.trans()
      rec.ev(outcome=(t, x, y))
      rec.close(base(a + b), x + y, 'add', w, rel=1e-15)
      rec.close(base(a - b), x - y, 'sub', w, rel=1e-15)
      rec.check(type(a + b) is cls and type(a - b) is cls, 'type', w)
      tol = 1e-9 if t in ('Distance', 'Velocity') else 0.0
      rec.check((a == b) == (abs(x - y) < tol if tol else x == y), 'eq', w)
      rec.check((a != b) == (not a == b), 'ne', w)
      if t != 'Velocity':
        rec.check((a > b) == (x > y), 'gt', w)
        rec.check((a < b) == (x < y), 'lt', w)
      if t in ('Distance', 'Energy'):
        rec.check((a >= b) == (x >= y), 'ge', w)
        rec.check((a <= b) == (x <= y), 'le', w)
        if y:
          rec.close(a / b, x / y, 'ratio', w, rel=1e-15)
        rec.close(base(a * y), x * y, 'scale', w, rel=1e-15, abs_=0.)
        rec.close(base(y * a), x * y, 'rscale', w, rel=1e-15, abs_=0.)
        rec.check(type(a * y) is cls and type(y * a) is cls, 'type', w)
      if t in ('Distance', 'Velocity') and y:
        rec.close(base(a / y), x / y, 'divide', w, rel=1e-15, abs_=0.)
        rec.check(type(a / y) is cls, 'type', w)
      if t == 'Distance':
        rec.close(units.relative_distance(a, b).m, math.hypot(x, y), 'norm',
                  w, rel=1e-12)
        rec.close(units.distance_to_degrees(a), x / 111000., 'degrees', w)
      # combining in place rebinds one name and leaves the quantity alone
      for f in INPLACE:
        for other in (b, y, TD[1]):
          c = make(x)
          try:
            r = f(c, other)
          except Exception:  # what may be combined is decided elsewhere
            continue
          rec.check(base(c) == x and base(b) == y and r is not c, 'in-place',
                    f'{w}: {f.__name__} changed the quantity to {base(c)}')
      rec.check(base(a) == x and base(b) == y, 'mutated', w)
    for d in TD:
      s = d.total_seconds()
      w = f'{t} {x!r} and {d}'
      a = make(x)
      if t == 'Distance' and s:
        v = a / d
        rec.check(type(v) is units.Velocity, 'type', w)
        rec.close(v.mps, x / s, 'speed', w, rel=1e-15, abs_=0.)
        rec.close((v * d).m, x, 'speed-back', w)
      elif t == 'Velocity':
        for r in (a * d, d * a):
          rec.check(type(r) is units.Distance, 'type', w)
          rec.close(r.m, x * s, 'travel', w, rel=1e-15, abs_=0.)
      elif t == 'Power':
        for r in (a * d, d * a):
          rec.check(type(r) is units.Energy, 'type', w)
          rec.close(r.watt_hours, x * s / 3600, 'work', w, rel=1e-14, abs_=0.)
      rec.ev(outcome=(t, x, str(d)))
    rec.state((t, x))


INPLACE = [operator.iadd, operator.isub, operator.imul, operator.itruediv]
OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv, '<': operator.lt, '<=': operator.le,
       '>': operator.gt, '>=': operator.ge, '==': operator.eq,
       '!=': operator.ne}


def do_mixed(case, rec):
  """Every pair of different kinds is refused, in both orders."""
  one = {n: c(**{BASE[n]: 5.0}) for n, (c, _) in UNITS.items()}
  other = {'int': 5, 'float': 5.0, 'timedelta': dt.timedelta(hours=1),
           'str': '5', 'None': None, 'list': [5.0]}
  allowed = {('Distance', '/', 'timedelta'), ('Velocity', '*', 'timedelta'),
             ('timedelta', '*', 'Velocity'), ('Power', '*', 'timedelta'),
             ('timedelta', '*', 'Power')}
  for n in one:
    for num in ('int', 'float'):
      # scaling by plain numbers: whether each kind offers it is not decided
      allowed |= {(n, '*', num), (num, '*', n), (n, '/', num)}
  allk = dict(one, **other)
  firsts = [case['a']] if case['a'] in one else list(other)
  for a in firsts:
    for b in allk:
      if a == b or (a in other and b in other):
        continue
      for o, f in OPS.items():
        if (a, o, b) in allowed:
          continue
        rec.raises(Exception, lambda: f(allk[a], allk[b]), 'mixed',
                   f'{a} {o} {b}')
        rec.ev(outcome=(a, o, b))
        rec.trans()
    if a in one:
      # products of two quantities of one kind have no kind of their own
      rec.raises(Exception, lambda: one[a] * one[a], 'square', f'{a} * {a}')
  rec.state(case['a'])


def do_calendar(case, rec):
  zones = [None, UTC, dt.timezone(dt.timedelta(hours=-11)),
           dt.timezone(dt.timedelta(hours=13, minutes=45))]
  days = [(2012, 2, 29), (2011, 12, 31), (2012, 1, 1), (2000, 2, 29),
          (1999, 12, 31), (2038, 1, 19), (1970, 1, 1), (2014, 6, 15)]
  for d, h, m, s in itertools.product(days, (0, 12, 23), (0, 59), (0, 59)):
    for z in zones:
      got = (units.datetime(*d, h, m, s) if z is None else
             units.datetime(*d, h, m, s, 123, z))
      want = (dt.datetime(*d, h, m, s, tzinfo=UTC) if z is None else
              dt.datetime(*d, h, m, s, 123, tzinfo=z))
      rec.check(got == want and got.utcoffset() == want.utcoffset(),
                'datetime', f'{d} {h}:{m}:{s} {z}: {got}')
      ts = math.floor(got.timestamp())
      back = units.datetime_from_timestamp(ts)
      rec.check(back == got.replace(microsecond=0) and
                back.utcoffset() == dt.timedelta(), 'timestamp',
                f'{got} -> {ts} -> {back}')
      rec.ev(outcome=(d, h, m, s, str(z)))
      rec.trans()
    rec.check(units.datetime(*d) == dt.datetime(*d, tzinfo=UTC), 'datetime',
              f'{d}')
  rec.check(units.datetime(2012, 1, 1, fold=1).fold == 1, 'fold', 'fold')
  for x in VALS:
    rec.close(units.seconds_to_hours(x), x / 3600, 'hours', f'{x}', rel=1e-14)
    if abs(x) < 1e9:
      d = dt.timedelta(seconds=x)
      rec.close(units.timedelta_to_hours(d), d.total_seconds() / 3600, 'hours',
                f'{d}', rel=1e-14)
  c = constants
  rec.check(c.AGENT_TIME_STEP == dt.timedelta(minutes=3) and
            c.NUM_SECONDS_PER_HOUR == 3600 and c.NUM_SECONDS_PER_DAY == 86400,
            'constants', 'time constants')
