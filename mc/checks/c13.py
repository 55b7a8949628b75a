"""C13: equilibrium initialisation and heat flow."""
import copy
import datetime as dt
import itertools
import math
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import stable_init
from balloon_learning_environment.env.balloon import thermal
from mc import world
from mc.ref import physics

PROP, LEVEL = 'C13', 'model_checking'
RULE = ('every point of a lattice of pressure x place x time x infrared x '
        'envelope x atmosphere is initialised by the real code and compared '
        'with an independent equilibrium, then flown one stride; every point '
        'of a lattice of heat balance arguments compared with an independent '
        'balance and checked for the sign and monotonicity laws against its '
        'lattice neighbours.')
ASSUMPTIONS = ['atmosphere draws: three keys (C12 covers the draws)']


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='stable', when=[2013, mo, 25, h, 0, 0], full=not q)
         for mo in ((3, 7) if q else (1, 3, 5, 7, 9, 11))
         for h in ((0, 6, 9, 12, 18) if q else range(0, 24, 2))]
  out += [dict(kind='heat', p=p, full=not q)
          for p in ((5000., 8000., 14000.) if q else
                    (3000., 5000., 6500., 8000., 11000., 14000., 60000.))]
  return out


def stable_case(case, rec):
  q = not case['full']
  ps = [5000., 6513.7, 8000., 10004.2, 11500.] if q else [
      4200., 5000., 5803.1, 6513.7, 7300., 8000., 8996.9, 10004.2, 11000.,
      12000., 12345.6, 14000.]
  envs = [{}, dict(payload_mass=70.123, mols_lift_gas=6003.7),
          dict(envelope_volume_base=1500., envelope_mass=60.)]
  for i, (p, (lat, lng), ir, e) in enumerate(itertools.product(
      ps, [(0., 0.), (9.93, 120.017), (-10., -175.)], (200., 251.37, 320.),
      range(3))):
    if q and (i + case['when'][3]) % 2:
      continue
    atm = i % 3
    air = physics.Air(physics.alpha_of(float(
        world.atmosphere(atm).at_height(
            world.units.Distance(meters=0.)).temperature)))
    b = world.state(lat, lng, tuple(case['when']), p, stable=False, atm=atm,
                    upwelling_infrared=ir, x=10., y=-20., **envs[e])
    before = physics.from_state(b)
    where = f'{case["when"]} p {p} at {lat, lng} ir {ir} envelope {e} atm {atm}'
    stable_init.cold_start_to_stable_params(b, world.atmosphere(atm))
    s = physics.from_state(b)
    ll = b.latlng
    Ta, Tg, n, v, sp = physics.stable(
        p, s['v0'], s['dv'], s['m_env'], s['m_pay'], s['lift'],
        ll.lat().degrees, ll.lng().degrees, b.date_time, ir, air)
    rec.close(s['Ta'], Ta, 'ambient', f'{where}: ambient temperature', rel=1e-8)
    rec.close(s['Ti'], Tg, 'gas', f'{where}: gas temperature', rel=1e-6)
    rec.close(s['air'], n, 'air', f'{where}: ballast air', rel=1e-7, abs_=1e-5)
    rec.close(s['vol'], v, 'volume', f'{where}: volume', rel=1e-6)
    rec.close(s['sp'], sp, 'superpressure', f'{where}: superpressure',
              rel=1e-5, abs_=1e-1)
    changed = {k for k in before if s[k] != before[k]}
    rec.check(changed <= {'Ta', 'Ti', 'air', 'vol', 'sp'}, 'others',
              f'{where}: initialisation also changed {changed}')
    if n > 0:
      # buoyancy balances weight at the base volume
      weight = (s['m_env'] + s['m_pay'] + physics.M_HE * s['lift']
                + physics.M_AIR * s['air'])
      lift = p * physics.M_AIR * s['v0'] / (physics.R * s['Ta'])
      rec.close(weight, lift, 'buoyancy', f'{where}: weight', rel=1e-9)
    el, _, fl = physics.sun(ll.lat().degrees, ll.lng().degrees, b.date_time)
    rate = thermal.d_balloon_temperature_dt(
        s['v0'], s['m_env'], s['Ti'], s['Ta'], p, el, fl, ir)
    rec.check(abs(rate) < 1e-4, 'heat-balance', f'{where}: gas temperature '
              f'changes by {rate} K/s at the start')
    if n > 0 and sp > 0:
      bal = balloon.Balloon(copy.deepcopy(b))
      D = dt.timedelta(seconds=10)
      bal.simulate_step(world.wind(0., 0.), world.atmosphere(atm),
                        world.C.STAY, D, D)
      rec.check(abs(bal.state.pressure - p) < 0.02 * p, 'holds', f'{where}: pressure '
                f'moved to {bal.state.pressure} in the first stride')
      rec.trans()
    rec.trace()
    rec.state((n > 0, sp > 0))
    rec.ev(outcome=(round(s['Ti'], 4), round(s['air'], 3)))


def heat_case(case, rec):
  p, q = case['p'], not case['full']
  Tas = [190., 205.03, 215., 230.4] if q else [180. + 8 * i for i in range(9)]
  Ts = [170., 195., 204.999, 205., 205.001, 215., 225., 240., 290.] if q else [
      160. + 5 * i for i in range(29)]
  els = [-30., physics.MIN_EL - 1e-6, -4., 0., 20.3, 60., 89.]
  fl = [0.0, 1320.37, 1414.]
  irs = [150., 225.3, 250., 330.]
  vols = [500., 1804.4, 1850.]
  masses = [30., 68.57]
  f = thermal.d_balloon_temperature_dt
  for vol, mass, Ta in itertools.product(vols, masses, Tas):
    grid = {}
    for (i, T), (j, el), (k, x), (l, ir) in itertools.product(
        enumerate(Ts), enumerate(els), enumerate(fl), enumerate(irs)):
      r = float(f(vol, mass, T, Ta, p, el, x, ir))
      where = (f'vol {vol} mass {mass} T {T} ambient {Ta} p {p} el {el} flux '
               f'{x} ir {ir}')
      rec.close(r, physics.heating(vol, mass, T, Ta, p, el, x, ir), 'rate',
                where, rel=1e-7, abs_=1e-12)
      grid[i, j, k, l] = r
      for ax, sign in ((0, -1), (1, 1), (2, 1), (3, 1)):
        o = [i, j, k, l]
        o[ax] -= 1
        o = grid.get(tuple(o))
        if o is not None:
          rec.check(sign * (r - o) >= -1e-12, f'monotone-{ax}', f'{where}: '
                    f'rate {r} against {o} at the neighbour on axis {ax}')
          rec.trans()
      rec.ev(outcome=(round(r, 9),))
    rec.state((vol, mass, Ta))
  # helpers
  for i in range(0, 1001):
    T = 50. + 0.35 * i
    F = thermal.black_body_temperature_to_flux(T)
    rec.close(F, physics.SIGMA * T ** 4, 'flux', f'flux at {T}')
    rec.close(thermal.black_body_flux_to_temperature(F), T, 'flux-inverse',
              f'flux {F}')
    rec.close(thermal.absorptivity_ir(T), physics.absorptivity_ir(T),
              'absorptivity', f'absorptivity at {T}')
    h = [float(thermal.convective_heat_air_factor(7.5, T, Ta, p))
         for Ta in (200., 215.)]
    for Ta, x in zip((200., 215.), h):
      rec.check((x > 0) == (T < Ta) and (x == 0) == (T == Ta),
                'convection-sign', f'gas {T} ambient {Ta}: convection {x}')
      rec.close(x, physics.convective(7.5, T, Ta, p), 'convection',
                f'gas {T} ambient {Ta}')
    rec.ev()
  for i in range(0, 98):
    a = i / 100
    v = thermal.total_absorptivity(a, 0.0291)
    rec.close(v, physics.total_abs(a), 'total', f'absorptivity {a}')
    rec.check(0 <= v <= 1, 'total-range', f'absorptivity {a}: {v}')
  for a, refl in ((-0.1, 0.0291), (-1e-6, 0.5), (1.7, 0.5), (2.0, 0.9)):
    if not 0 <= a * (1 + (1 - a - refl) / (1 - refl)) <= 1:
      rec.raises(ValueError, lambda: thermal.total_absorptivity(a, refl),
                 'total-domain', f'absorptivity {a} reflectivity {refl}')
    rec.ev()


def run(case, rec):
  (stable_case if case['kind'] == 'stable' else heat_case)(case, rec)
  rec.sample(case)
