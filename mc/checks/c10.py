"""C10: pump and power tables."""
import math
from balloon_learning_environment.env.balloon import acs
from balloon_learning_environment.env.balloon import power_table
from balloon_learning_environment.utils import units
from mc.ref import physics

PROP, LEVEL = 'C10', 'model_checking'
RULE = ('every pressure ratio on a 1e-4 grid (thorough: 1e-5) over 0.5..5, '
        'and every pump power on a 5 W (1 W) grid at every tabulated ratio '
        'and midpoint; every breakpoint of the power budget table, one ulp '
        'below and above, times every charge breakpoint likewise, against '
        'independently written tables.')
ASSUMPTIONS = ['tables are piecewise linear (constant) between grid points']
# (upper pressure ratio, charge breakpoints, watts), written out again
BUDGET = [(1.08, (.3, .4, .5), (0, 150, 175, 200)),
          (1.11, (.3, .4, .7), (0, 200, 200, 225)),
          (1.14, (.3, .4, .6), (0, 225, 225, 250)),
          (1.17, (.3, .4, .5), (0, 200, 225, 250)),
          (1.20, (.3, .4, .5), (0, 225, 250, 275)),
          (1.23, (.4, .5), (0, 275, 300)),
          (1.26, (.5, .6), (0, 300, 325)),
          (9.99, (.5, .6), (0, 325, 350))]


def ref_budget(ratio, soc):
  for top, soc_breaks, watts in BUDGET:
    if ratio < top:
      return watts[sum(soc >= s for s in soc_breaks)]


def cases(tier):
  step = 1e-4 if tier == 'quick' else 1e-5
  n = int(round(4.5 / step))
  k = 12
  out = [dict(kind='ratio', lo=i * n // k, hi=(i + 1) * n // k, step=step)
         for i in range(k)]
  out += [dict(kind='eff', part=i, watt=5 if tier == 'quick' else 1)
          for i in range(4)]
  out.append(dict(kind='budget', fine=tier != 'quick'))
  return out


def run(case, rec):
  if case['kind'] == 'ratio':
    last = None
    for i in range(case['lo'], case['hi'] + 1):
      r = round(0.5 + i * case['step'], 6)
      w = float(acs.get_most_efficient_power(r).watts)
      rec.close(w, physics.pump_power(r), 'power', f'power at ratio {r}',
                rel=1e-9)
      rec.check(100 - 1e-9 <= w <= 400 + 1e-9, 'power-range',
                f'power {w} at ratio {r}')
      if last is not None:
        rec.check(w >= last - 1e-9, 'power-monotone',
                  f'power falls from {last} to {w} at ratio {r}')
      last = w
      e = acs.get_fan_efficiency(r, units.Power(watts=w))
      rec.close(e, physics.pump_efficiency(r, w), 'efficiency',
                f'efficiency at ratio {r} with {w} W', rel=1e-8, abs_=1e-9)
      m = float(acs.get_mass_flow(units.Power(watts=w), e))
      rec.close(m, e * w / 3600.0, 'flow', f'mass flow at ratio {r}')
      if r >= 1.0:
        rec.check(m > 1e-9, f'no-air-at-{r:g}', f'pumping at pressure ratio {r}'
                  f' spends {w} W and moves {m} kg/s of air')
      rec.check(m >= -1e-9, 'flow-negative', f'mass flow {m} at ratio {r}')
      rec.trans()
      rec.ev(outcome=(round(w, 6), round(e, 9)))
    rec.state(case['lo'])
    rec.sample(case)
  elif case['kind'] == 'eff':
    rs = [0.5, 1.0, 1.04999]
    for x in physics.EFF_PR:
      rs += [x, x - 0.0125, x + 1e-9]
    rs += [1.4, 2.0, 5.0]
    for r in rs[case['part']::4]:
      for w in range(0, 601, case['watt']):
        e = acs.get_fan_efficiency(r, units.Power(watts=w))
        rec.close(e, physics.pump_efficiency(r, w), 'efficiency',
                  f'efficiency at ratio {r} with {w} W', rel=1e-7, abs_=1e-9)
        rec.check(-1e-9 <= e <= 0.4 + 1e-9, 'eff-range', f'efficiency {e} at '
                  f'ratio {r} with {w} W')
        for d in (-0.25, 0.0, 3.0):
          for p in (float(w), w + 0.5):
            rec.close(acs.get_mass_flow(units.Power(watts=p), e + d),
                      (e + d) * p / 3600, 'flow', f'mass flow {p} W {e + d}')
        rec.ev(outcome=(r, w, round(e, 9)))
      rec.state(r)
  else:
    up = lambda x: math.nextafter(x, 9)
    dn = lambda x: math.nextafter(x, -9)
    rs = [0.99, 1.0, 3.0, 5.0]
    for b in BUDGET[:-1]:
      rs += [dn(b[0]), b[0], up(b[0]), b[0] - 0.01]
    socs = [0.0, 1.0]
    for s in (.3, .4, .5, .6, .7):
      socs += [dn(s), s, up(s), s - 0.05]
    if case['fine']:
      rs += [round(0.99 + 0.001 * i, 3) for i in range(4010)]
      socs += [i / 1000 for i in range(1001)]
    else:
      rs += [round(0.99 + 0.005 * i, 3) for i in range(100)]
      socs += [i / 100 for i in range(101)]
    rs, socs = sorted(set(rs)), sorted(set(socs))
    for r in rs:
      last = -1
      for s in socs:
        w = power_table.lookup(r, s)
        rec.check(w == ref_budget(r, s), 'budget', f'budget at ratio {r!r} '
                  f'charge {s!r}: {w}, expected {ref_budget(r, s)}')
        rec.check(w >= last, 'budget-monotone', f'budget falls to {w} at '
                  f'ratio {r!r} charge {s!r}')
        last = w
        rec.ev(outcome=(r, s, w))
      rec.state(r)
    for r in (dn(0.99), 0.0, -1.0, up(5.0), 50., float('nan')):
      rec.raises(AssertionError, lambda: power_table.lookup(r, .5),
                 'budget-domain', f'pressure ratio {r}')
