"""C11: the sun."""
import datetime as dt
import math
from balloon_learning_environment.env.balloon import solar
import s2sphere as s2
from mc.ref import physics

PROP, LEVEL = 'C11', 'model_checking'
RULE = ('every calendar day of a range of years at both ends of the UTC day; '
        'a place x month x hour lattice in several time zones; queries for '
        'sunrise, sunset, noon and midnight at every point of a time grid '
        'over whole days at latitudes up to the supported limit; every '
        'elevation and pressure of a grid for attenuation and panel power. '
        'The oracle is an independent solar position and root finder.')
ASSUMPTIONS = ['instants are whole seconds', 'sun times are only claimed to '
               'the search resolution plus the day-to-day drift']
UTC = dt.timezone.utc
EL0 = physics.MIN_EL


def ll(lat, lng):
  return s2.LatLng.from_degrees(lat, lng)


def cases(tier):
  q = tier == 'quick'
  out = []
  for y in range(2009, 2017) if q else range(1990, 2051):
    out.append(dict(kind='days', year=y))
  out += [dict(kind='days', year=y) for y in (1900, 1901, 1968, 2033, 2077,
                                              2100, 2101)]
  for lat in ((-89.9, -60., -10., -0.013, 0., 0.04, 7.3, 45.037, 90.) if q else
              (-90., -89.9, -75., -60., -45., -23.4, -10., -3., -0.013, 0., 1e-3,
               0.04, 7.3, 10.,
               23.5, 45., 60., 66., 80., 90.)):
    out.append(dict(kind='sky', lat=lat, months=3 if q else 1))
  for lat in ((-59.9, -45., -10., 0., 4.5, 10., 50.) if q else
              (-59.9, -55., -50., -45., -40., -30., -23.4, -20., -10., -7., -3.,
               0., 1., 4.5, 8., 10., 15., 23.4, 33., 42., 50., 55., 59.9)):
    for mo in ((3, 6, 9, 12) if q else range(1, 13)):
      for lng in ((0., 175.) if q else (-180., -120., 0., 60., 175.)):
        out.append(dict(kind='rise', lat=lat, lng=lng, month=mo,
                        step=37 if q else 11))
  out += [dict(kind='light', part=i, of=8, fine=not q) for i in range(8)]
  out.append(dict(kind='domain'))
  return out


def position(rec, lat, lng, t, where):
  el, az, fl = solar.solar_calculator(ll(lat, lng), t)
  r = physics.sun(lat, lng, t)
  rec.close(el, r[0], 'elevation', f'{where}: elevation', rel=0, abs_=2e-5)
  rec.close(fl, r[2], 'flux', f'{where}: flux', rel=1e-9)
  if abs(r[0]) < 89.9 and abs(lat) < 89.95:
    # the azimuth is only defined away from the zenith and the poles
    d = (az - r[1] + 180) % 360 - 180
    tol = 0.02 / max(1e-3, math.cos(math.radians(r[0])) *
                     math.cos(math.radians(lat)))
    rec.check(abs(d) <= tol, 'azimuth', f'{where}: azimuth {az}, expected '
              f'{r[1]}')
  rec.check(-90 <= el <= 90.1 and 0 <= az <= 360 and 1300 < fl < 1430, 'range',
            f'{where}: {el} {az} {fl}')
  return el, az, fl


def days(case, rec):
  t = dt.datetime(case['year'], 1, 1, tzinfo=UTC)
  while t.year == case['year']:
    for secs in (0, 1, 43200, 86399):
      u = t + dt.timedelta(seconds=secs)
      r = position(rec, 3.0, 40.0, u, f'{u}')
      rec.ev(outcome=(secs, round(r[0], 4)))
    rec.state(t.month)
    t += dt.timedelta(days=1)


def sky(case, rec):
  lat = case['lat']
  for lng in (-180., -175.043, -90., -0.01, 0., 60.037, 175., 180.):
    for mo in range(1, 13, case['months']):
      last = None
      for k in range(0, 1441, 20):
        t = dt.datetime(2012, mo, 28, tzinfo=UTC) + dt.timedelta(minutes=k)
        where = f'lat {lat} lng {lng} {t}'
        r = position(rec, lat, lng, t, where)
        for off in (-12, -5.5, 9, 14) if k % 60 == 0 else ():
          z = t.astimezone(dt.timezone(dt.timedelta(hours=off)))
          r2 = solar.solar_calculator(ll(lat, lng), z)
          rec.check(all(abs(a - b) < 1e-9 for a, b in zip(r, r2)), 'timezone',
                    f'{where}: {r} but {r2} when written as {z}')
        if last is not None:
          rec.check(abs(r[0] - last) <= 20 * 0.2507 + 0.5, 'continuous',
                    f'{where}: elevation jumps from {last} to {r[0]}')
        last = r[0]
        rec.trans()
        rec.ev(outcome=(lat, lng, mo, round(r[0], 3)))
      rec.state((lng, mo))


def crossings(lat, lng, t0, hours):
  f = lambda t: physics.sun(lat, lng, t)[0] - EL0
  step = dt.timedelta(minutes=10)
  out, t, a = [], t0, f(t0)
  for _ in range(hours * 6):
    b = f(t + step)
    if (a < 0) != (b < 0):
      lo, hi = t, t + step
      for _ in range(11):
        m = lo + (hi - lo) / 2
        lo, hi = (m, hi) if (f(m) < 0) == (a < 0) else (lo, m)
      out.append((hi, b >= 0))
    t, a = t + step, b
  return out


def rise(case, rec):
  lat, lng = case['lat'], case['lng']
  p = ll(lat, lng)
  t0 = dt.datetime(2013, case['month'], 20, tzinfo=UTC)
  cr = crossings(lat, lng, t0 - dt.timedelta(hours=1), 52)
  noonmax = [(t0 + dt.timedelta(minutes=4 * i)) for i in range(-1, 740)]
  els = [physics.sun(lat, lng, t)[0] for t in noonmax]
  for n, k in enumerate(range(0, 1440, case['step'])):
    t = t0 + dt.timedelta(minutes=k, seconds=n % 60)
    where = f'lat {lat} lng {lng} {t}'
    el = physics.sun(lat, lng, t)[0]
    for delta in (3, 1, 10) if n % 4 == 0 else (3,):
      D = dt.timedelta(minutes=delta)
      drift = 60 + 40 * max(0, abs(lat) - 30) / 10  # s per day, see RULE
      tol = dt.timedelta(seconds=delta * 60 + drift)
      if delta == 3:
        got = solar.get_next_sunrise_sunset(p, t)
      else:
        got = solar.get_next_sunrise_sunset(p, t, D)
      for name, g, up in (('sunrise', got[0], True), ('sunset', got[1], False)):
        first = [c for c, u in cr if u == up and c >= t - tol]
        rec.check(g >= t and g.tzinfo is not None, name + '-past',
                  f'{where}: next {name} {g} is in the past')
        # the first crossing; one closer than the tolerance may be skipped
        ok = any(abs(g - c) <= tol for c in first[:1]) or (
            len(first) > 1 and abs(first[0] - t) <= tol
            and abs(g - first[1]) <= tol)
        rec.check(ok, name, f'{where}: next {name} {g}, expected '
                  f'{first[0] if first else None} (resolution {delta} min)')
      n_st = solar.calculate_steps_to_sunrise(p, t, D)
      if el >= EL0 + 0.02:
        rec.check(n_st == 0, 'steps-day', f'{where}: {n_st} steps to sunrise '
                  'while the sun is up')
      elif el <= EL0 - 0.02:
        want = (min(c for c, u in cr if u and c >= t) - t) / D
        rec.check(want - drift / 60 / delta - 0.6 <= n_st <= math.ceil(want)
                  + 0.6 + drift / 60 / delta, 'steps', f'{where}: {n_st} steps '
                  f'of {delta} min to sunrise, expected {want}')
        rec.check(isinstance(n_st, int), 'steps', f'{n_st!r}')
      for name, fn, pick in (('noon', solar.get_next_solar_noon, max),
                             ('midnight', solar.get_next_solar_midnight, min)):
        g, gel = fn(p, t, D)
        rec.check(t <= g <= t + dt.timedelta(hours=24, minutes=1),
                  name + '-when', f'{where}: next {name} {g}')
        i0 = max(0, int((t - noonmax[0]) / dt.timedelta(minutes=4)))
        best = pick(els[i0:i0 + 362])
        rec.close(gel, physics.sun(lat, lng, g)[0], name + '-el',
                  f'{where}: elevation reported at {name}', rel=0, abs_=1e-4)
        # the best of a day includes up to a day of changing declination
        slack = 0.25 * delta + 0.75 if abs(best) > 80 else 0.006 * delta ** 2 \
            + 0.55
        rec.check(abs(gel - best) <= slack, name, f'{where}: {name} elevation '
                  f'{gel}, the day has {best}')
        # a turning point: the sky is symmetric around it
        a, b = (physics.sun(lat, lng, g + dt.timedelta(hours=h))[0]
                for h in (-1.5, 1.5))
        rec.check(abs(a - b) <= 0.5 * (delta + 2) and (a < gel) ==
                  (name == 'noon') == (b < gel), name + '-turn', f'{where}: '
                  f'{name} {g} has elevation {gel}, 90 minutes away {a}, {b}')
      rec.trans()
      rec.ev(outcome=(delta, got[0] - t, got[1] - t))
    d = physics.sun(lat, lng, t + dt.timedelta(seconds=90))[0] - \
        physics.sun(lat, lng, t - dt.timedelta(seconds=90))[0]
    if abs(d) > 0.03:
      rec.check(bool(solar.is_solar_afternoon(p, t)) == (d < 0), 'afternoon',
                f'{where}: afternoon={solar.is_solar_afternoon(p, t)} while the '
                f'sun moves {d} deg')
  rec.state((lat, lng, case['month']))


def light(case, rec):
  n = 3600 if case['fine'] else 720
  els = [-90 + 180 * i / n for i in range(n + 1)] + [
      EL0, math.nextafter(EL0, -99), math.nextafter(EL0, 99)]
  lims = [math.degrees(math.atan2(math.sqrt(h * (10.41603 + h)), 8.69275))
          for h in (2.7, 3.3)]
  for x in lims:
    els += [x - 1e-9, x + 1e-9]
  els.sort()
  ps = [0., 10., 1000., 5000., 6500., 8000., 11000., 14000., 30000., 70000.,
        101325.]
  prev = {}
  for i, p in enumerate(ps):
    last = None
    for el in els[case['part']::case['of']]:
      a = float(solar.solar_atmospheric_attenuation(el, p))
      w = float(solar.solar_power(el, p).watts)
      where = f'elevation {el!r} pressure {p}'
      rec.close(a, physics.attenuation(el, p), 'attenuation', where)
      rec.close(w, physics.solar_power(el, p), 'power', where)
      rec.check(0 <= a <= 1, 'attenuation-range', f'{where}: {a}')
      rec.check(0 <= w <= 1260 * a + 1e-9, 'power-range', f'{where}: {w} W '
                f'with attenuation {a}')
      if el < EL0:
        rec.check(a == 0 and w == 0, 'below', f'{where}: {a} {w} with the sun '
                  'below its minimum elevation')
      if last is not None:
        rec.check(a >= last - 1e-12, 'attenuation-el', f'{where}: falls with '
                  f'elevation from {last} to {a}')
      if el in prev:
        rec.check(a <= prev[el] + 1e-12, 'attenuation-p', f'{where}: {a} more '
                  f'light at higher pressure ({prev[el]})')
      for h in (2.7, 3.3):
        rec.close(solar.balloon_shadow(el, h), physics.shadow(el, h), 'shadow',
                  f'{where}: shadow at {h}')
      last = prev[el] = a
      rec.trans()
      rec.ev(outcome=(el, p, round(w, 6)))
    rec.state((i, case['part']))


def domain(rec):
  t = dt.datetime(2013, 3, 25, 12, tzinfo=UTC)
  rec.raises(ValueError, lambda: solar.solar_calculator(
      ll(0, 0), t.replace(tzinfo=None)), 'naive-time', 'time without zone')
  for lat in (90.001, -90.001, 180., -91., 400.):
    rec.raises(ValueError, lambda: solar.solar_calculator(ll(lat, 0.), t),
               'latitude', f'latitude {lat}')
    rec.ev()
  for lng in (180.5, -181., 400.):
    rec.raises(ValueError, lambda: solar.solar_calculator(ll(0., lng), t),
               'longitude', f'longitude {lng}')
  for lat in (60.01, 60.5, -60.01, -75., 90.):
    rec.raises(AssertionError, lambda: solar.get_next_sunrise_sunset(
        ll(lat, 0.), t), 'polar', f'sun times at latitude {lat}')
    rec.ev()
  for el, p in ((90.01, 5000.), (-90.01, 5000.), (10., -1.), (10., 101326.)):
    rec.raises(ValueError, lambda: solar.solar_atmospheric_attenuation(el, p),
               'attenuation-domain', f'elevation {el} pressure {p}')
    rec.raises(ValueError, lambda: solar.solar_power(el, p),
               'power-domain', f'elevation {el} pressure {p}')
    rec.ev()


def run(case, rec):
  k = case['kind']
  if k == 'domain':
    domain(rec)
  else:
    dict(days=days, sky=sky, rise=rise, light=light)[k](case, rec)
  rec.sample(case)
