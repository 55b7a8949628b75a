"""C07: the physics step against an independent reference."""
import copy
import datetime as dt
import itertools
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.utils import units
from mc import world
from mc.ref import physics

PROP, LEVEL = 'C07', 'model_checking'
RULE = ('(a) every state of a lattice (pressure, temperatures, ballast air, '
        'superpressure, charge, time of day, latitude, displacement, infrared) '
        'x wind x command, one stride, every field compared with an '
        'independent implementation of the laws; (b) every action word of 3-'
        'minute steps up to the depth bound from several starts, every '
        'stride of the trajectory compared.')
ASSUMPTIONS = ['the atmosphere draw itself is decided by C12',
               'tolerance 1e-7 relative per stride']
TOL = dict(rel=1e-7, abs_=1e-9)
CONST = ['lat0', 'lng0', 'v0', 'dv', 'm_env', 'sp_max', 'cod', 'm_pay',
         'load_night', 'load_day', 'valve', 'cap', 'lift', 'guard', 'ir']


def lattice(tier):
  q = tier == 'quick'
  whens = [(2013, 3, 25, 0, 0, 0), (2013, 3, 25, 6, 0, 0),
           (2013, 3, 25, 12, 0, 0), (2013, 3, 25, 17, 30, 0),
           (2011, 12, 31, 23, 59, 50), (2012, 2, 29, 13, 7, 10)]
  ps = [6500., 8200., 11000.] if q else [5800., 6500., 7400., 8200., 9600., 11000., 13000.]
  dT = [-4.0, 0.0, 9.0]
  dair = [-300.0, 0.0, 400.0]
  charges = [3058.56, 3058.5, 1500.0, 0.3]
  pos = [(0., 0., 0., 0.), (9.5, 170.0, 40., -30.), (-10., -175., -300., 120.)]
  if not q:
    pos += [(0., 179.9, 30., 0.), (5.0, 10.0, 0., 900.)]
  return whens, ps, dT, dair, charges, pos


def cases(tier):
  whens, ps, dT, dair, charges, pos = lattice(tier)
  out = [dict(kind='lattice', when=w, p=p, tier=tier)
         for w in whens for p in ps]
  out.append(dict(kind='hull'))
  out += [dict(kind='vehicle', one=n, tier=tier) for n in VEHICLE]
  depth = 4 if tier == 'quick' else 6
  starts = [dict(when=(2013, 3, 25, 9, 0, 0), p=6600.),
            dict(when=(2013, 3, 25, 16, 50, 0), p=9000., lat=-9., lng=100.,
                 x=30., y=-170.),
            dict(when=(2013, 3, 25, 3, 0, 0), p=11200., charge=900.),
            dict(when=(2012, 12, 31, 23, 57, 0), p=7800., lng=178.)]
  out += [dict(kind='words', start=s, first=a, depth=depth, atm=i)
          for i, s in enumerate(starts) for a in range(3)]
  return out


def compare(rec, want, b, where):
  got = physics.from_state(b)
  for k in physics.FIELDS:
    if k == 'status':
      rec.check(got[k] == want[k], 'status', f'{where}: status {got[k]}, '
                f'expected {want[k]}')
    else:
      rec.close(got[k], want[k], 'law-' + k, f'{where}: {k}', **TOL)
  for k in CONST:
    rec.check(got[k] == want[k], 'const-' + k, f'{where}: {k} changed from '
              f'{want[k]} to {got[k]}')
  rec.check(got['t'] == want['t'] and got['elapsed'] == want['elapsed'],
            'time', f'{where}: time {got["t"]} elapsed {got["elapsed"]}, '
            f'expected {want["t"]} {want["elapsed"]}')
  rec.check(0 <= got['charge'] <= got['cap'] and got['air'] >= 0, 'bounds',
            f'{where}: charge {got["charge"]} air {got["air"]}')
  return got


# Other vehicles, and envelopes that are slack or beyond the fill point.
VEHICLE = dict(
    envelope_volume=(900., 1500., 1700., 1803.9, 1804., 1840., 1900.),
    envelope_volume_base=(1000., 1700., 1900., 2600.),
    envelope_volume_dv_pressure=(.005, .0199, .08),
    envelope_mass=(20., 68.5, 140.), payload_mass=(10., 92.5, 250.),
    envelope_cod=(.05, .25, 1.2), envelope_max_superpressure=(900., 2380., 5e3),
    mols_lift_gas=(2000., 5500., 6830., 9000.),
    mols_air=(0., .5, 900., 4000.), internal_temperature=(185., 206., 260.),
    upwelling_infrared=(100., 225., 350.),
    battery_capacity=(400., 3058.56, 9000.),
    battery_charge=(.2, 399.9, 3058.5, 8999.9),
    acs_valve_hole_diameter=(.01, .04, .2),
    nighttime_power_load=(0., 183.7, 900.), daytime_power_load=(0., 120.4, 900.))
UNIT = dict(battery_capacity=lambda x: units.Energy(watt_hours=x),
            battery_charge=lambda x: units.Energy(watt_hours=x),
            acs_valve_hole_diameter=lambda x: units.Distance(meters=x),
            nighttime_power_load=lambda x: units.Power(watts=x),
            daytime_power_load=lambda x: units.Power(watts=x))


def in_force(b):
  """Command in force: DOWN iff pump on, UP iff venting, else STAY."""
  if float(b.acs_power.watts) > 0:
    return 'DOWN'
  return 'UP' if float(b.acs_mass_flow) < 0 else 'STAY'


def vehicle(case, rec):
  """Every pair of vehicle parameters, by day and night."""
  one, q = case['one'], case['tier'] == 'quick'
  n = 0
  for when, p, lat in (((2013, 3, 25, 12, 0, 0), 8000., 0.),
                       ((2013, 3, 25, 0, 10, 0), 10500., 7.)):
    h, t = world.lift_dict(0)
    for other in VEHICLE:
      if other < one:
        continue
      for a, b_ in itertools.product(VEHICLE[one], VEHICLE[other]):
        if other == one and a != b_:
          continue
        for sp in (0., 900.):
          base = world.state(lat, 3., when, p, atm=0, charge=350.)
          base.power_safety_layer_enabled = False
          base.superpressure = sp
          for k, x in ((one, a), (other, b_)):
            setattr(base, k, UNIT.get(k, float)(x))
          if base.battery_charge > base.battery_capacity:
            continue
          n += 1
          ref0 = physics.from_state(base)
          for i in ((n % 3,) if q else range(3)):
            act = world.ACTS[i]
            b = balloon.Balloon(copy.deepcopy(base))
            D = dt.timedelta(seconds=10)
            try:
              b.simulate_step(world.wind(3., -8.), world.atmosphere(0), act, D,
                              D)
            except (AssertionError, ValueError, OverflowError):
              rec.count('refused')
              continue
            want = physics.stride(ref0, 3., -8., h, t, in_force(b.state), 10)
            compare(rec, want, b.state, f'{one}={a} {other}={b_} at {when} '
                    f'superpressure {sp} {act}')
            rec.trans()
            rec.trace()
            rec.state((one, a, other, b_, sp, i))
            rec.ev(outcome=(one, a, other, b_, b.state.status.name))
  rec.check(rec.counters['refused'] * 2 < n, 'vacuous', f'{one}: most states '
            'are refused')
  rec.sample(case)


def hull(case, rec):
  """The vehicle the laws are stated for."""
  b = balloon.BalloonState(world.s2.LatLng.from_degrees(1., 2.),
                           dt.datetime(2013, 1, 1, tzinfo=dt.timezone.utc))
  want = dict(envelope_volume_base=1804., envelope_volume_dv_pressure=0.0199,
              envelope_mass=68.5, envelope_max_superpressure=2380.,
              envelope_cod=0.25, payload_mass=92.5, mols_lift_gas=6830.)
  for k, v in want.items():
    rec.close(getattr(b, k), v, 'hull', k)
  for k, got, v in (('night load', b.nighttime_power_load.watts, 183.7),
                    ('day load', b.daytime_power_load.watts, 120.4),
                    ('valve', b.acs_valve_hole_diameter.meters, 0.04),
                    ('capacity', b.battery_capacity.watt_hours, 3058.56),
                    ('charge', b.battery_charge.watt_hours, 2905.6)):
    rec.close(got, v, 'hull', k)
  rec.check(b.status == balloon.BalloonStatus.OK and
            b.power_safety_layer_enabled and b.last_command.name == 'STAY' and
            b.time_elapsed == dt.timedelta() and b.x.meters == 0. and
            b.y.meters == 0. and b.mols_air == 0, 'hull', 'start values')
  rec.ev(outcome='hull')
  rec.sample(case)


def run(case, rec):
  if case['kind'] in ('hull', 'vehicle'):
    return globals()[case['kind']](case, rec)
  if case['kind'] == 'lattice':
    whens, ps, dT, dair, charges, pos = lattice(case['tier'])
    p, when = case['p'], case['when']
    full = case['tier'] != 'quick'
    for i, (lat, lng, x, y) in enumerate(pos):
      atm = i % 3
      h, t = world.lift_dict(atm)
      for j, (d, a, sp, ch) in enumerate(itertools.product(
          dT, dair, (0.0, 1.0, 700., 2375.), charges)):
        if not full and (j + i) % 2:
          continue  # quick: every second lattice point (fixed pattern)
        base = world.state(lat, lng, when, p, atm=atm, x=x, y=y,
                           upwelling_infrared=(250., 225., 310.)[i % 3],
                           charge=ch)
        base.internal_temperature += d
        base.mols_air = max(0.0, base.mols_air + a)
        base.ambient_temperature += (-2., 0., 1.)[j % 3]
        base.envelope_volume = 1804. + 0.0199 * sp
        base.superpressure = sp
        # choose the command by the guards' verdict: power guard off, and
        # command sequence all three; guards may override, so the reference
        # is told the command inferred from the documented guard bands
        base.power_safety_layer_enabled = False
        ref0 = physics.from_state(base)
        alt_ft = h(p) / 0.3048
        for a_i, act in enumerate(world.ACTS):
          cmd = act.name
          if sp < 150 or sp >= 2230:
            cmd = 'UP'
          elif (sp < 250 or sp >= 2130) and cmd == 'DOWN':
            cmd = 'STAY'
          if alt_ft < 50000:
            cmd = 'UP'
          elif alt_ft < 50500 and cmd == 'DOWN':
            cmd = 'STAY'
          u, v = [(0., 0.), (12.5, -3.), (-40., 33.)][(j + a_i) % 3]
          secs = (10, 60, 1, 2.5)[(j // 3) % 4]
          b = balloon.Balloon(copy.deepcopy(base))
          D = dt.timedelta(seconds=secs)
          b.simulate_step(world.wind(u, v), world.atmosphere(atm), act, D, D)
          want = physics.stride(ref0, u, v, h, t, cmd, secs)
          got = compare(rec, want, b.state, f'{case} pos {i} point {j} {act} '
                        f'wind {u, v} {secs}s')
          rec.check(physics.from_state(base) == ref0, 'aliasing',
                    'the state shown to the step was shared')
          rec.trans()
          rec.trace()
          rec.state((got['p'], got['charge'], got['air']))
          rec.ev(outcome=(got['status'], round(got['p'], 3),
                          round(got['charge'], 3)))
    rec.sample(case)
    return
  # words of 3-minute steps, compared at each 10 s stride through composition
  s = dict(case['start'])
  st = world.state(atm=case['atm'], **{k: tuple(v) if k == 'when' else v
                                       for k, v in s.items()})
  h, t = world.lift_dict(case['atm'])
  at = world.atmosphere(case['atm'])
  st.power_safety_layer_enabled = False
  winds = [(8., -2.), (-15., 20.), (0.5, 3.)]

  def cmd_of(b, act):
    """Command in force: DOWN iff pump on, UP iff venting, else STAY."""
    if float(b.acs_power.watts) > 0:
      return 'DOWN'
    return 'UP' if float(b.acs_mass_flow) < 0 else 'STAY'

  def walk(bal, ref, depth, word):
    rec.state((round(ref['p'], 6), round(ref['charge'], 6)))
    if depth == 0 or ref['status'] != 'OK':
      rec.trace()
      rec.ev(outcome=word)
      return
    for a in ([case['first']] if depth == case['depth'] else range(3)):
      b = balloon.Balloon(copy.deepcopy(bal.state))
      u, v = winds[(depth + a) % 3]
      b.simulate_step(world.wind(u, v), at, world.ACTS[a],
                      dt.timedelta(minutes=3))
      cmd = cmd_of(b.state, a)
      r = dict(ref)
      for _ in range(18):
        if r['status'] == 'OK':
          r = physics.stride(r, u, v, h, t, cmd, 10)
      rec.trans()
      compare(rec, r, b.state, f'{case["start"]} word {word + (a,)}')
      # continue from the implementation's own numbers: errors do not build up
      walk(b, physics.from_state(b.state), depth - 1, word + (a,))

  walk(balloon.Balloon(st), physics.from_state(st), case['depth'], ())
