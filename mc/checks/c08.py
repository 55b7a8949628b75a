"""C08: terminal status and composition of strides."""
import copy
import datetime as dt
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.utils import units
from mc import world
from mc.checks import c04
from mc.ref import physics

PROP, LEVEL = 'C08', 'model_checking'
RULE = ('for each terminal cause, starts placed so that the boundary is '
        'crossed at every stride index of an outer step and just not crossed; '
        'each outer step is compared with strides applied one at a time and '
        'with the reference status; further steps must be refused and leave '
        'the flight as it was; every divisor and non-divisor stride of the '
        'outer step.')
ASSUMPTIONS = ['a single stride is decided by C07']
S10 = dt.timedelta(seconds=10)
OUTER = dt.timedelta(minutes=3)
PHYS = physics.FIELDS + ('t', 'elapsed')


def cases(tier):
  out = []
  n = 19
  for a in range(3):
    for k in range(n):
      out.append(dict(kind='power', k=k, act=a))
    for j in range(6 if tier == 'quick' else 24):
      out.append(dict(kind='burst', j=j, act=a))
      # low superpressure makes the envelope guard vent, whatever is asked;
      # asking to vent keeps the command the same in every stride
      out.append(dict(kind='zero', j=3 * j + a, act=2))
    out.append(dict(kind='both', act=a))
    for when in ((2013, 3, 25, 0, 0, 0), (2013, 3, 25, 12, 0, 0)):
      out.append(dict(kind='strides', when=when, act=a))
    if tier != 'quick':
      for h in (3, 6, 9, 15, 18, 21):
        out.append(dict(kind='strides', when=(2012, 6, 1, h, 10, 0), act=a))
  out.append(dict(kind='edges'))
  for n in ((60, 90) if tier == 'quick' else (60, 90, 144, 240)):
    out += [dict(kind='longer', n=n, part=i) for i in range(6)]
  # many strides per case are cheap: group
  return [dict(group=out[i::16]) for i in range(16)]


def same(rec, a, b, key, where, rel=1e-9):
  da, db = physics.from_state(a), physics.from_state(b)
  for k in PHYS:
    if isinstance(da[k], float):
      rec.close(da[k], db[k], key, f'{where}: {k}', rel=rel, abs_=1e-9)
    else:
      rec.check(da[k] == db[k], key, f'{where}: {k} {da[k]} != {db[k]}')


def one_by_one(st, act, n, stride=S10):
  """Applies up to n single strides; returns (final state, statuses)."""
  b = balloon.Balloon(copy.deepcopy(st))
  hist = []
  guard, cmds = c04.Ref(st.envelope_max_superpressure), set()
  for _ in range(n):
    if b.state.status != world.Status.OK:
      break
    cmds.add(guard.step(float(b.state.superpressure), act)[0])
    if len(cmds) > 1:
      # the envelope guard is asked once per step: single-stride steps would
      # legitimately carry out another command
      return None, hist
    b.simulate_step(world.wind(4., 2.), world.atmosphere(0), act, stride,
                    stride)
    hist.append(b.state.status.name)
  return b.state, hist


def outer_vs_inner(rec, st, act, where, expect=None, law=True):
  """Outer step == single strides; terminal mid-step stops; then refused."""
  b = balloon.Balloon(copy.deepcopy(st))
  b.simulate_step(world.wind(4., 2.), world.atmosphere(0), act, OUTER)
  ref, hist = one_by_one(st, act, 18)
  if ref is None:
    rec.count('guard-changes-mid-step')
    return None
  same(rec, b.state, ref, 'composition', where)
  # how long the flight has lasted and what was asked before do not matter
  for days, last in ((1.25, 0), (2.6, 2), (9.7, 1))[
      len(hist) % 3:len(hist) % 3 + 1]:
    o = copy.deepcopy(st)
    o.time_elapsed += dt.timedelta(days=days)
    o.last_command = world.ACTS[last]
    ob = balloon.Balloon(o)
    ob.simulate_step(world.wind(4., 2.), world.atmosphere(0), act, OUTER)
    o.time_elapsed -= dt.timedelta(days=days)
    same(rec, o, b.state, 'history-free', f'{where}, {days} days into a '
         'flight')
  strides = round((b.state.date_time - st.date_time) / S10)
  rec.check(strides == len(hist), 'mid-step', f'{where}: {strides} strides '
            f'applied, the flight ended after {len(hist)}')
  if expect is not None:
    rec.check((b.state.status.name, strides) == expect, 'when', f'{where}: '
              f'{b.state.status.name} after {strides}, expected {expect}')
  # reference physics: status follows the documented conditions each stride
  h, t = world.lift_dict(0)
  r = physics.from_state(st)
  cmd = ('DOWN' if float(b.state.acs_power.watts) > 0 else
         'UP' if float(b.state.acs_mass_flow) < 0 else 'STAY')
  lawful = 0
  for _ in range(18):
    if r['status'] != 'OK':
      break
    lawful += 1
    r = physics.stride(r, 4., 2., h, t, cmd, 10)
  rec.check(not law or r['status'] == b.state.status.name, 'status',
            f'{where}: status {b.state.status.name}, the law says '
            f'{r["status"]}')
  rec.check(not law or lawful == strides, 'status-stride', f'{where}: '
            f'{b.state.status.name} after {strides} strides, the law says '
            f'{lawful}')
  rec.trans(strides)
  rec.trace()
  rec.state((b.state.status.name, strides))
  if b.state.status != world.Status.OK:
    before = physics.from_state(b.state)
    for a2 in world.ACTS:
      rec.raises(AssertionError, lambda: b.simulate_step(
          world.wind(4., 2.), world.atmosphere(0), a2, OUTER), 'not-refused',
                 f'{where}: stepping a {before["status"]} balloon')
      after = physics.from_state(b.state)
      rec.check(all(after[k] == before[k] for k in PHYS), 'frozen',
                f'{where}: a refused step changed the flight')
  return b.state.status.name, strides


def run_one(case, rec):
  kind = case['kind']
  act = world.ACTS[case.get('act', 1)]
  if kind == 'power':
    k = case['k']
    st = world.state(when=(2013, 3, 25, 1, 0, 0), p=8000.,
                     power_safety_layer_enabled=False)
    # drain per stride, from one real stride with a full battery
    probe, _ = one_by_one(st, act, 1)
    load = float(probe.power_load.watts)
    cmd_ok = load > 183.6
    rec.check(cmd_ok, 'load', f'night load {load}')
    for frac in (0.5, 0.999, 1.001):
      st2 = copy.deepcopy(st)
      st2.battery_charge = units.Energy(
          watt_hours=load * 10 / 3600 * (k + frac))
      r = outer_vs_inner(rec, st2, act, f'{case} charge for {k + frac} strides')
      if act != world.C.DOWN:  # load constant: the stride is known exactly
        n = k + 1 if frac < 1 else k + 2
        rec.check(r == (('OUT_OF_POWER', n) if n <= 18 else ('OK', 18)),
                  'power-when', f'{case} {frac}: {r}')
      rec.ev(outcome=('power', k, frac, r))
  elif kind in ('burst', 'zero'):
    j = case['j']
    st = world.state(when=(2013, 3, 25, 11, 0, 0), p=9000.,
                     power_safety_layer_enabled=False)
    if kind == 'burst':
      st.internal_temperature -= 12.0 + 0.7 * j    # will heat up
    else:
      st.internal_temperature += 4.0 + 0.3 * (j % 4)  # will cool down
      # gas amount such that superpressure is small now
    v, sp = physics.envelope(st.mols_lift_gas + st.mols_air,
                             st.internal_temperature, st.pressure, 1804.,
                             0.0199)
    if kind == 'zero':
      target = 4.0 + 16.0 * j
      st.mols_air = ((st.pressure + target) * (1804. + 0.0199 * target) /
                     (physics.R * st.internal_temperature) - st.mols_lift_gas)
      v, sp = 1804. + 0.0199 * target, target
      # neutrally buoyant, so that cooling alone decides
      st.payload_mass = (st.pressure * physics.M_AIR * v / (
          physics.R * st.ambient_temperature) - st.envelope_mass -
                         physics.M_HE * st.mols_lift_gas -
                         physics.M_AIR * st.mols_air)
    st.envelope_volume, st.superpressure = v, sp
    # superpressure per stride with no limit
    free = copy.deepcopy(st)
    free.envelope_max_superpressure = 1e9
    b = balloon.Balloon(free)
    sps = []
    for _ in range(18):
      if b.state.status != world.Status.OK:
        break
      b.simulate_step(world.wind(4., 2.), world.atmosphere(0), act, S10, S10)
      sps.append(float(b.state.superpressure))
    if kind == 'zero':
      r = outer_vs_inner(rec, st, act, f'{case}')
      rec.count('zero-' + r[0])
      rec.ev(outcome=(kind, j, r))
      return
    for k in range(len(sps)):
      for lim, hits in ((sps[k], False), (sps[k] * (1 - 1e-9), True)):
        st2 = copy.deepcopy(st)
        st2.envelope_max_superpressure = lim
        first = next((i for i, s in enumerate(sps) if s > lim), None)
        r = outer_vs_inner(rec, st2, act, f'{case} limit {lim}', law=hits)
        if r is None:
          continue
        want = ('OK', 18) if first is None else ('BURST', first + 1)
        rec.check(r == want, 'burst-when', f'{case} limit {lim}: {r}, '
                  f'superpressures cross it at {want}')
        rec.count('burst-' + r[0])
        rec.ev(outcome=(kind, j, k, r))
  elif kind == 'both':
    # several causes in the same stride: exactly one status, power wins
    for sp in (0.0, 500.0):
      for charge in (0.1, 2000.0):
        for lim in (2380., 1.0):
          st = world.state(when=(2013, 3, 25, 1, 0, 0), p=8000.,
                           power_safety_layer_enabled=False, charge=charge)
          st.mols_air = ((st.pressure + sp) * (1804. + 0.0199 * sp) /
                         (physics.R * st.internal_temperature)
                         - st.mols_lift_gas) - (5.0 if sp == 0 else 0)
          st.superpressure = sp
          st.envelope_max_superpressure = lim
          r = outer_vs_inner(rec, st, act, f'{case} {sp, charge, lim}')
          rec.ev(outcome=('both', sp, charge, lim, r))
  elif kind == 'longer':
    # outer steps of many strides, ending in each of them
    for k in range(case['part'], case['n'] + 1, 6):
      st = world.state(when=(2013, 3, 25, 1, 0, 0), p=8000.,
                       power_safety_layer_enabled=False,
                       charge=183.7 * 10 / 3600 * (k + .5))
      b = balloon.Balloon(st)
      b.simulate_step(world.wind(4., 2.), world.atmosphere(0), world.C.STAY,
                      case['n'] * S10)
      took = (st.time_elapsed) / S10
      want = (('OUT_OF_POWER', k + 1) if k < case['n'] else ('OK', case['n']))
      rec.check((b.state.status.name, took) == want, 'power-when', f'{case}: '
                f'charge for {k + .5} strides: {b.state.status.name} after '
                f'{took}, expected {want}')
      if k < case['n']:
        rec.raises(AssertionError, lambda: b.simulate_step(
            world.wind(4., 2.), world.atmosphere(0), world.C.STAY, OUTER),
                   'not-refused', f'{case}: battery empty in stride {k}')
      rec.trans(int(took))
      rec.ev(outcome=('longer', case['n'], k))
  elif kind == 'strides':
    st = world.state(when=tuple(case['when']), p=8500., x=20., y=-45.,
                     power_safety_layer_enabled=False)
    for total in (180, 60, 360):
      for s in range(1, total + 1):
        b = balloon.Balloon(copy.deepcopy(st))
        go = lambda: b.simulate_step(
            world.wind(4., 2.), world.atmosphere(0), act,
            dt.timedelta(seconds=total), dt.timedelta(seconds=s))
        if total % s == 0:
          if s < 3 and total != 60:
            continue
          go()
          ref, hist = one_by_one(st, act, total // s, dt.timedelta(seconds=s))
          same(rec, b.state, ref, 'stride-composition',
               f'{case} {total}s by {s}s')
          rec.check(len(hist) == total // s, 'stride-count', f'{total}/{s}')
          rec.trans(total // s)
          rec.ev(outcome=(total, s, round(float(b.state.pressure), 6)))
        else:
          rec.raises(AssertionError, go, 'non-divisor',
                     f'{case}: {total}s step with a {s}s stride')
          d = physics.from_state(b.state)
          rec.check(d['t'] == st.date_time and d['p'] == st.pressure,
                    'non-divisor-moved', f'{total}/{s} moved the balloon')
          rec.ev()
    # durations that are no whole number of seconds, in milliseconds
    ms = lambda x: dt.timedelta(milliseconds=x)
    for total in (3000, 7500, 20500, 60000, 60750, 1000):
      for s in (1, 250, 500, 750, 1500, 2500, 3000, 7500, 10000, 10250, 20500):
        if s == 1 and total > 1000:
          continue
        b = balloon.Balloon(copy.deepcopy(st))
        go = lambda: b.simulate_step(
            world.wind(4., 2.), world.atmosphere(0), act, ms(total), ms(s))
        where = f'{case}: {total} ms step with a {s} ms stride'
        if total % s == 0:
          try:
            go()
          except Exception as e:  # pylint: disable=broad-except
            rec.fail('stride-fraction', f'{where}: {e!r}')
            continue
          rec.check(b.state.time_elapsed - st.time_elapsed == ms(total),
                    'stride-fraction', f'{where}: {b.state.time_elapsed} later')
          if s > 1:
            ref, _ = one_by_one(st, act, total // s, ms(s))
            same(rec, b.state, ref, 'stride-fraction', where)
          rec.trans(total // s)
        else:
          rec.raises(AssertionError, go, 'stride-fraction', where)
          rec.check(b.state.date_time == st.date_time, 'stride-fraction',
                    f'{where}: moved the balloon')
        rec.ev(outcome=('ms', total, s))
  else:
    # the limits themselves: superpressure equal to the limit is not burst
    st = world.state(when=(2013, 3, 25, 12, 0, 0), p=8000.)
    for a in world.ACTS:
      ref, _ = one_by_one(st, a, 1)
      for d, want in ((0.0, 'OK'), (-1e-6, 'BURST'), (1e-6, 'OK')):
        st2 = copy.deepcopy(st)
        st2.envelope_max_superpressure = float(ref.superpressure) + d
        got, _ = one_by_one(st2, a, 1)
        rec.check(got.status.name == want, 'burst-edge',
                  f'limit = superpressure {d:+}: {got.status.name}')
        rec.ev(outcome=('edge', d, a.name))
  rec.sample(case)


def run(case, rec):
  for c in case['group']:
    run_one(c, rec)
