"""C09: the envelope volume / superpressure solve."""
import itertools
import math
from balloon_learning_environment.env.balloon import balloon
from mc.ref import physics

PROP, LEVEL = 'C09', 'model_checking'
RULE = ('every point of a lattice over gas amounts (helium and air apart), '
        'temperature, ambient pressure and envelope constants, plus points '
        '3% down to one part in 10^12 on either side of the fill point; each is '
        'checked against the gas law, the stiffness law, an independent '
        'solution and monotonicity towards its lattice neighbours.')
ASSUMPTIONS = ['between lattice points the closed formula has no further '
               'branch than the fill point']
f = balloon.calculate_superpressure_and_volume


def axes(tier):
  n = 9 if tier == 'quick' else 17
  lin = lambda a, b, k: [a + (b - a) * i / (k - 1) for i in range(k)]
  return (lin(0., 9000., n // 2 + 1), lin(0., 9000., n), lin(170., 320., n),
          [1e-2 * 10 ** (7.0 * i / (2 * n)) for i in range(2 * n + 1)],
          [(1804., 0.0199), (1804., 0.0), (900., 0.5), (1804., 1e-6),
           (2500., 0.0199)])


def cases(tier):
  lift = axes(tier)[0]
  return [dict(lift=i, env=e, tier=tier) for i in range(len(lift))
          for e in range(5)]


def laws(rec, n, T, p, v0, dv, v, sp, where):
  tol = 1e-9
  rec.check(math.isfinite(v) and math.isfinite(sp) and v >= 0, 'finite',
            f'{where}: volume {v} superpressure {sp}')
  nrt = n * physics.R * T
  if nrt / p <= v0:
    rec.check(sp == 0.0, 'slack', f'{where}: slack envelope with '
              f'superpressure {sp}')
    rec.close(v, nrt / p, 'slack-volume', f'{where}: volume', rel=tol)
  else:
    rec.check(sp >= -1e-6 * p, 'negative', f'{where}: superpressure {sp}')
    rec.close((p + sp) * v, nrt, 'gas-law', f'{where}: (p+sp)V vs nRT',
              rel=1e-9)
    rec.close(v, v0 + dv * sp, 'stiffness', f'{where}: V vs V0+dv*sp',
              rel=1e-9)
  rv, rs = physics.envelope(n, T, p, v0, dv)
  rec.close(v, rv, 'volume', f'{where}: volume', rel=1e-9)
  rec.close(sp, rs, 'superpressure', f'{where}: superpressure', rel=1e-6,
            abs_=1e-9 * p + 1e-9)


def run(case, rec):
  L, A, TS, PS, ENV = axes(case['tier'])
  lift, (v0, dv) = L[case['lift']], ENV[case['env']]
  grid = {}
  for (i, a), (j, T), (k, p) in itertools.product(
      enumerate(A), enumerate(TS), enumerate(PS)):
    where = f'lift {lift} air {a} T {T} p {p} V0 {v0} dv {dv}'
    v, sp = f(lift, a, T, p, v0, dv)
    v, sp = float(v), float(sp)
    laws(rec, lift + a, T, p, v0, dv, v, sp, where)
    # only the total amount of gas matters
    v2, sp2 = f(a, lift, T, p, v0, dv)
    rec.check(abs(v - v2) <= 1e-9 * max(v, 1e-9), 'total', f'{where}: helium '
              f'and air swapped give {v2}')
    grid[i, j, k] = (v, sp)
    for ax, sign in ((0, 1), (1, 1), (2, -1)):
      q = [i, j, k]
      q[ax] -= 1
      o = grid.get(tuple(q))
      if o is None:
        continue
      e = 1e-9 * (1 + abs(v))
      rec.check(sign * (v - o[0]) >= -e, 'monotone-volume',
                f'{where}: volume {v} against {o[0]} on axis {ax}')
      rec.check(sign * (sp - o[1]) >= -1e-8 * (p + sp + 1), 'monotone-sp',
                f'{where}: superpressure {sp} against {o[1]} on axis {ax}')
      rec.trans()
    rec.state((v > 0, sp > 0))
    rec.ev(outcome=(round(v, 6), round(sp, 6)))
    # just below and above the fill point at this T and p
    n0 = p * v0 / (physics.R * T)
    if n0 > lift:
      for d in (3e-2, 1e-2, 4e-3, 1.5e-3, 5e-4, 1e-4, 1e-6, 1e-9, 1e-12):
        lo, hi = f(lift, n0 * (1 - d) - lift, T, p, v0, dv), f(
            lift, n0 * (1 + d) - lift, T, p, v0, dv)
        rec.check(abs(hi[0] - lo[0]) <= 4 * d * v0 + 1e-9 * v0 and
                  abs(hi[1] - lo[1]) <= 4 * d * p + 1e-6 * p, 'continuous',
                  f'{where}: jump at the fill point: {lo} -> {hi}')
        if d >= 1e-9:
          for sg, r in ((-d, lo), (d, hi)):
            laws(rec, n0 * (1 + sg), T, p, v0, dv, float(r[0]), float(r[1]),
                 f'{where}, gas {sg:+} from the fill point')
        rec.ev()
  rec.sample(dict(lift=lift, V0=v0, dv=dv))
