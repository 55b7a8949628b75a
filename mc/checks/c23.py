"""C23: moving over the Earth."""
import copy
import datetime as dt
import itertools
import math
import pickle

from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.utils import spherical_geometry
from mc import world
from mc.ref import physics
import s2sphere as s2

PROP, LEVEL = 'C23', 'model_checking'
RULE = ('every offset of a lattice (zero, metres to 20,000 km, 24 bearings) '
        'from every start of a lattice (equator to both poles, all longitudes '
        'including both sides of the antimeridian), compared with an '
        'independent rotation of the unit vector; invariants: distance, '
        'initial bearing, wrapping, copies; and real simulation steps in '
        'winds from all directions.')
ASSUMPTIONS = ['spherical Earth of 6371 km, as documented; the bearing of an '
               'offset from a pole itself is not decided']
LATS = [-90., -89.99, -60., -33.3, -10., -1e-9, 0., 1e-6, 7.5, 10., 45., 60.,
        80., 89.92, 89.999, 90.]
LNGS = [-180., -179.9999, -175., -90., -1e-9, 0., 0.5, 90., 175., 179.9999,
        180.]
DIST = [0.0, 1e-6, 1e-3, 0.1, 1.0, 50.0, 200.0, 500.0, 1111.0, 5000.0, 9999.0,
        15000.0]


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='offsets', lat=a, bearings=24 if q else 120) for a in LATS]
  out += [dict(kind='poles', sign=s) for s in (-1, 1)]
  out += [dict(kind='copies'), dict(kind='flight', lat=0.), dict(
      kind='flight', lat=40.), dict(kind='flight', lat=-50.)]
  return out


def vec(lat, lng):
  a, o = math.radians(lat), math.radians(lng)
  return (math.cos(a) * math.cos(o), math.cos(a) * math.sin(o), math.sin(a))


def angle(p, q):
  """Angle between unit vectors, accurate for small and large angles."""
  d = math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q)))
  s = math.sqrt(sum((a + b) ** 2 for a, b in zip(p, q)))
  return 2 * math.atan2(d, s)


def move(lat, lng, x, y):
  r = spherical_geometry.calculate_latlng_from_offset(
      s2.LatLng.from_degrees(lat, lng), world.units.Distance(km=x),
      world.units.Distance(km=y))
  return r


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def do_offsets(case, rec):
  lat = case['lat']
  n = case['bearings']
  for lng in LNGS:
    start = vec(lat, lng)
    for d in DIST:
      for k in range(n):
        b = 2 * math.pi * k / n
        x, y = d * math.sin(b), d * math.cos(b)
        # exact along the axes
        if k % (n // 4) == 0:
          x, y = [(0., d), (d, 0.), (0., -d), (-d, 0.)][k // (n // 4)]
        r = move(lat, lng, x, y)
        la, lo = r.lat().degrees, r.lng().degrees
        where = f'{x},{y} km from {lat},{lng}'
        rec.trans()
        rec.ev(outcome=(lat, round(la, 6), round(lo, 6)))
        if not rec.check(r.is_valid() and -90 <= la <= 90 and
                         -180 <= lo <= 180, 'valid', f'{where}: {la},{lo}'):
          continue
        got = vec(la, lo)
        arc = d / 6371.0
        arc = arc if arc <= math.pi else 2 * math.pi - arc
        # asin loses half of the digits near a pole
        tol = 1e-9 + (3e-8 if abs(la) > 89.9 else 0)
        rec.check(abs(angle(start, got) - arc) < tol, 'distance',
                  f'{where}: lands {angle(start, got) * 6371} km away')
        if abs(lat) < 90:
          w = physics.offset_latlng(lat, lng, x * 1000, y * 1000)
          rec.check(angle(vec(*w), got) < tol, 'direction', f'{where}: lands '
                    f'at {la},{lo}, expected {w}')
        if d == 0:
          dl = abs(lo - lng) % 360
          rec.check(abs(la - lat) < 1e-9 + (1e-5 if abs(lat) > 89.9 else 0) and
                    (min(dl, 360 - dl) < 1e-9 or abs(lat) > 89.9), 'identity',
                    f'{where}: {la},{lo}')
    rec.state((lat, lng))


def do_poles(case, rec):
  """Offsets that reach or cross a pole."""
  s = case['sign']
  for i in range(0, 9000, 4):
    lat = i / 100.0
    reach = (90 - lat) * math.pi / 180 * 6371
    for f in (1.0, 1 - 1e-12, 1 + 1e-12, 1.01):
      r = move(s * lat, 10., 0., s * reach * f)
      rec.check(abs(angle(vec(s * lat, 10.), vec(
          r.lat().degrees, r.lng().degrees)) * 6371 - reach * f) < 1e-3,
                'pole', f'{reach * f} km from {s * lat}: {r}')
      rec.ev(outcome=(s, i, f))
      rec.trans()


def do_copies(case, rec):
  for lat, lng in itertools.product(LATS, LNGS):
    p = s2.LatLng.from_degrees(lat, lng)
    for name, q in (('pickle', pickle.loads(pickle.dumps(p))),
                    ('deepcopy', copy.deepcopy(p)), ('copy', copy.copy(p)),
                    ('pickle2', pickle.loads(pickle.dumps(
                        p, protocol=2)))):
      rec.check(abs(q.lat().degrees - lat) < 1e-12 and
                abs(q.lng().degrees - lng) < 1e-12, 'copy', f'{name} of '
                f'{lat},{lng}: {q}')
      rec.ev(outcome=(lat, lng, name))
    rec.trans()
    if abs(lat) >= 60:
      continue  # balloon states refuse these latitudes
    # a balloon state reports the offset position, copied or not
    b = balloon.BalloonState(center_latlng=p, date_time=dt.datetime(
        2013, 3, 25, tzinfo=world.UTC), x=world.units.Distance(km=120.),
                             y=world.units.Distance(km=-75.))
    for c in (b, copy.deepcopy(b), pickle.loads(pickle.dumps(b))):
      g = c.latlng
      w = move(lat, lng, 120., -75.)
      rec.check(angle(vec(g.lat().degrees, g.lng().degrees),
                      vec(w.lat().degrees, w.lng().degrees)) < 1e-9, 'state',
                f'balloon at {lat},{lng}+(120,-75) km reports {g}')
    rec.trans()


def do_flight(case, rec):
  """A wind carries the balloon its way, at its speed."""
  for lng in (-179.99, 0., 179.99):
    for u, v in ((10., 0.), (-10., 0.), (0., 10.), (0., -10.), (6., 8.),
                 (-30., 5.), (0., 0.), (12., -60.)):
      for start in ((0., 0.), (100., -40.)):
        b = balloon.Balloon(world.state(case['lat'], lng, p=8000., x=start[0],
                                        y=start[1]))
        p0 = b.state.latlng
        for i in range(3):
          b.simulate_step(world.wind(u, v), world.atmosphere(0), world.C.STAY,
                          dt.timedelta(minutes=3))
        t = 9 * 60.
        rec.close(b.state.x.meters, start[0] * 1e3 + u * t, 'drift-x',
                  f'{case} wind {u},{v}')
        rec.close(b.state.y.meters, start[1] * 1e3 + v * t, 'drift-y',
                  f'{case} wind {u},{v}')
        p1 = b.state.latlng
        w = physics.offset_latlng(case['lat'], lng, start[0] * 1e3 + u * t,
                                  start[1] * 1e3 + v * t)
        rec.check(angle(vec(*w), vec(p1.lat().degrees, p1.lng().degrees)) <
                  1e-8, 'position', f'{case} {lng} wind {u},{v} from {start}: '
                  f'reports {p1}, expected {w}')
        if start == (0., 0.):
          dlat = p1.lat().degrees - p0.lat().degrees
          dlng = (p1.lng().degrees - p0.lng().degrees + 180) % 360 - 180
          deg = 180 / math.pi / 6371000
          rec.check(abs(dlat - v * t * deg) < 2e-3 + abs(v * t * deg) * .03,
                    'north', f'{case} {lng} wind {u},{v}: moved {dlat} degrees '
                    'north')
          want = u * t * deg / math.cos(math.radians(case['lat']))
          rec.check(abs(dlng - want) < 4e-3 + abs(want) * .05, 'east',
                    f'{case} {lng} wind {u},{v}: moved {dlng} degrees east, '
                    f'expected about {want}')
        rec.ev(outcome=(case['lat'], lng, u, v, start))
        rec.trans(3)
        rec.trace()
