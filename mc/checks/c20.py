"""C20: accessible pressure range."""
import copy
import itertools
from balloon_learning_environment.env.balloon import pressure_range_builder
from balloon_learning_environment.env.balloon import stable_init
from mc import world
from mc.ref import physics

PROP, LEVEL = 'C20', 'model_checking'
RULE = ('every point of a lattice of time x place x infrared x burst limit x '
        'masses x atmosphere: the reported range is compared with an '
        'independent equilibrium search; its ends are put back into the real '
        'stable initialisation and must be safe; the range may not '
        'depend on anything that is not the weather or the hull.')
ASSUMPTIONS = ['superpressure within a 20-level column is interpolated '
               'linearly, as documented in the code']


def cases(tier):
  q = tier == 'quick'
  hours = (0, 3, 6, 7, 12, 17, 18, 21) if q else range(24)
  months = (3, 12) if q else (1, 3, 5, 6, 8, 10, 12)
  return [dict(hour=h, month=mo, full=not q) for h in hours for mo in months]


def get(b, atm):
  try:
    r = pressure_range_builder.get_pressure_range(b, world.atmosphere(atm))
    return r.min_pressure, r.max_pressure
  except ValueError as e:
    return str(e)


def run(case, rec):
  full = case['full']
  places = [(0., 0.), (-9., 140.)] + ([(9.5, -60.), (5., 179.)] if full else [])
  hulls = [{}, dict(envelope_max_superpressure=1500.),
           dict(payload_mass=110.), dict(mols_lift_gas=6300.),
           dict(envelope_max_superpressure=900., payload_mass=80.)]
  for (lat, lng), ir, hull, atm in itertools.product(
      places, (225., 250., 310.), range(5), range(3)):
    where = f'{case} at {lat, lng} ir {ir} hull {hull} atmosphere {atm}'
    b = world.state(lat, lng, (2012, case['month'], 20, case['hour'], 15, 0),
                    8000., stable=False, atm=atm, upwelling_infrared=ir,
                    x=15., y=-8., **hulls[hull])
    air = physics.Air(physics.alpha_of(float(world.atmosphere(atm).at_height(
        world.units.Distance(meters=0.)).temperature)))
    before = physics.from_state(b)
    s = dict(before, lat=b.latlng.lat().degrees, lng=b.latlng.lng().degrees)
    got, want = get(b, atm), physics.pressure_range(s, air)
    rec.check(physics.from_state(b) == before, 'pure', f'{where}: the state '
              'was changed')
    rec.trace()
    rec.ev(outcome=(hull, got if isinstance(got, str) else
                    tuple(round(x, 2) for x in got)))
    if isinstance(got, str):
      rec.check(None in want, 'refused', f'{where}: refused ({got}), expected '
                f'{want}')
      rec.count('no-safe-pressure')
      continue
    if not rec.check(None not in want, 'accepted', f'{where}: {got}, but no '
                     f'pressure is safe ({want})'):
      continue
    rec.check(all(type(x) is float for x in got), 'type', f'{where}: {got!r}')
    rec.close(got[0], want[0], 'min', f'{where}: low end', rel=1e-5)
    rec.close(got[1], want[1], 'max', f'{where}: high end', rel=1e-5)
    rec.check(got[0] < got[1], 'ordered', f'{where}: {got}')
    bottom = air.at_height(15240.)[1]
    rec.check(got[1] <= bottom * (1 + 1e-9), 'altitude', f'{where}: {got[1]} '
              f'is below the altitude guard ({bottom})')
    lo, hi = 250., s['sp_max'] - 250.
    for end, p in zip(('min', 'max'), got):
      st = stable_init.calculate_stable_params_for_pressure(
          p, b.envelope_volume_base, b.envelope_volume_dv_pressure,
          b.envelope_mass, b.payload_mass, b.mols_lift_gas, b.latlng,
          b.date_time, b.upwelling_infrared, world.atmosphere(atm))
      # a chord of one column cell is at most this far off the curve
      rec.check(lo - 60 <= st.superpressure <= hi + 60, 'safe-' + end,
                f'{where}: superpressure {st.superpressure} at the {end} end '
                f'{p}, safe is {lo}..{hi}')
    rec.state((hull, atm, got[1] == bottom))
    # independent of what is not weather or hull
    b2 = copy.deepcopy(b)
    b2.pressure, b2.battery_charge = 11000., b.battery_charge * 0.1
    b2.mols_air, b2.superpressure, b2.internal_temperature = 5., 3., 250.
    b2.last_command = world.C.DOWN
    b2.time_elapsed = world.dt.timedelta(hours=7)
    rec.check(get(b2, atm) == got, 'depends', f'{where}: the range depends on '
              f'the current flight: {got} {get(b2, atm)}')
    rec.trans()
  rec.sample(case)
