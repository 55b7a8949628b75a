"""C34: generated winds."""
import datetime as dt
import itertools
import os

from balloon_learning_environment.env import generative_wind_field as gwf
from balloon_learning_environment.env import grid_based_wind_field
from balloon_learning_environment.generative import vae
from balloon_learning_environment.utils import units
from mc import agents
import flax
import gin
import jax
import jax.numpy as jnp
import numpy as np

PROP, LEVEL = 'C34', 'model_checking'
TECHNIQUE = ('exhaustive lattice of latent vectors, grid shapes, parameters and '
             'keys on the real decoder, sampler and wind fields against a '
             'reference decoder')
RULE = ('decode: the zero vector, every axis at several values, corners and '
        'keys, for several initialisations and scalings of the parameters: '
        'shape, finiteness, discrete divergence, reference decoder. shapes: a '
        'lattice of field shapes. sampler: keys x dates x call orders; the '
        'sampler, the grid wind field on it and the older wind field agree. '
        'vae: encoder, reparameterisation and the composed model against a '
        'reference, also for other field shapes. keys: many keys, among them '
        'keys with latents beyond three standard deviations.')
ASSUMPTIONS = ['the trained weights are not in this checkout: the statements '
               'are decided on enumerated initialisations and scalings of the '
               'parameters', 'arithmetic compared to 1e-4 relative']


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='decode', init=i, scale=s, part=p, of=2 if q else 8)
         for i in range(1 if q else 2) for s in (1., 20.)
         for p in range(2 if q else 8)]
  out += [dict(kind='shapes', w=w) for w in ((1, 2, 5, 7) if q else
                                             (1, 2, 3, 4, 5, 7, 9))]
  out += [dict(kind='sampler', key=k) for k in range(3 if q else 8)]
  out += [dict(kind='keys', part=i, of=4, n=80 if q else 600)
          for i in range(4)]
  out += [dict(kind='vae', key=k) for k in range(2)]
  shapes = [(5, 3, 2, 3), (21, 7, 10, 9), (9, 5, 1, 2), (4, 2, 3, 1)]
  if not q:
    shapes += [(21, 7, 4, 9), (11, 7, 10, 9), (21, 5, 10, 9), (2, 2, 1, 1)]
  out += [dict(kind='vae_shapes', shapes=[s]) for s in shapes]
  out += [dict(kind='points', n=n) for n in range(1, 6)]
  out.append(dict(kind='env'))
  return out


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def resize(n, m):
  """Matrix of the linear (half-pixel) interpolation from n to m points."""
  w = np.zeros((n, m))
  for j in range(m):
    x = (j + .5) * n / m - .5
    t = np.array([max(0., 1. - abs(x - i) / max(1., n / m)) for i in range(n)])
    w[:, j] = t / t.sum()
  return w


def reference(layers, z, s):
  """Reference decoder: wind grid from dense layers and latents."""
  y = agents.mlp(layers, z)
  f = y.reshape(s.flow_field_width, s.flow_field_width, s.num_flow_fields())
  w = resize(s.flow_field_width, s.latlng_slices + 2)
  f = np.einsum('ijk,ia,jb->abk', f, w, w)
  u = (f[2:, 1:-1] - f[:-2, 1:-1]) / 2
  v = -(f[1:-1, 2:] - f[1:-1, :-2]) / 2
  g = (s.latlng_slices, s.latlng_slices, s.pressure_slices, s.time_slices)
  return np.stack([u.reshape(g), v.reshape(g)], axis=-1)


def divergence(g):
  """Central divergence in the decoder's axes (first y, second x)."""
  u, v = g[..., 0].astype(float), g[..., 1].astype(float)
  du = (u[1:-1, 2:] - u[1:-1, :-2]) / 2
  dv = (v[2:, 1:-1] - v[:-2, 1:-1]) / 2
  return np.abs(du + dv).max() if du.size else 0.


def judge(rec, g, want, shape, where):
  g = np.asarray(g)
  if not rec.check(g.shape == tuple(shape), 'shape', f'{where}: shape '
                   f'{g.shape}, expected {shape}'):
    return
  rec.check(bool(np.isfinite(g).all()), 'finite', f'{where}: not finite')
  size = np.abs(g).max()
  rec.check(divergence(g) <= 3e-5 * size + 1e-9, 'divergence', f'{where}: '
            f'divergence {divergence(g)} of winds up to {size}')
  if want is not None:
    rec.check(np.allclose(g, want, rtol=1e-3, atol=2e-4 * size + 1e-7),
              'decoder', f'{where}: differs from the reference by '
              f'{np.abs(g - want).max()} (winds up to {size})')


_P = {}


def params(init, scale):
  """Deterministic decoder parameters with non-zero biases."""
  if (init, scale) not in _P:
    p = vae.Decoder().init(jax.random.PRNGKey(init), jnp.zeros(64))
    p = flax.core.unfreeze(p)
    r = np.random.RandomState(init)
    for name in p['params']:
      k = np.asarray(p['params'][name]['kernel'])
      p['params'][name] = dict(
          kernel=(k * (scale if name.endswith('_3') else 1.)).astype('f'),
          bias=(.1 * r.randn(k.shape[1])).astype('f'))
    _P[(init, scale)] = p
  return _P[(init, scale)]


def latents():
  yield 'zero', np.zeros(64)
  for i in range(64):
    for v in (-3., .5, 6.):
      z = np.zeros(64)
      z[i] = v
      yield f'axis {i} = {v}', z
  for v in (-2., 1., 1e3):
    yield f'all {v}', np.full(64, v)
  for k in range(12):
    yield f'key {k}', np.asarray(jax.random.normal(jax.random.PRNGKey(k), (64,)))


def do_decode(case, rec):
  p = params(case['init'], case['scale'])
  layers = agents.dense(p)
  f = jax.jit(vae.Decoder().apply)
  seen = set()
  for n, (name, z) in enumerate(latents()):
    if n % case['of'] != case['part']:
      continue
    g = np.asarray(f(p, jnp.asarray(z, jnp.float32)))
    judge(rec, g, reference(layers, z, vae.FieldShape()), (21, 21, 10, 9, 2),
          f'latent {name}, parameters {case["init"]} x {case["scale"]}')
    rec.ev(outcome=name)
    rec.state((case['init'], case['scale'], name))
    rec.trans()
    rec.trace()
    seen.add(g.tobytes())
  rec.check(len(seen) > 1, 'vacuous', 'all latents give the same winds')


def do_shapes(case, rec):
  w = case['w']
  for n, p, t in itertools.product((1, 3, 4, 21), (1, 2, 10), (1, 3)):
    s = vae.FieldShape(latlng_slices=n, flow_field_width=w, pressure_slices=p,
                       time_slices=t)
    where = f'{s}'
    got = (s.direction_grid_shape(), s.grid_shape(), s.num_grid_points(),
           s.output_length(), s.num_flow_fields(), s.num_flow_field_units())
    want = ((n, n, p, t), (n, n, p, t, 2), n * n * p * t, 2 * n * n * p * t,
            p * t, w * w * p * t)
    rec.check(got == want, 'field-shape', f'{where}: {got}, expected {want}')
    if n + 2 >= w:           # the decoder enlarges its flow fields
      d = vae.Decoder(num_hidden_layers=1, hidden_layer_network_width=5,
                      field_shape=s)
      prm = d.init(jax.random.PRNGKey(w), jnp.zeros(4))
      for z in (np.zeros(4), np.ones(4), np.arange(4.)):
        judge(rec, d.apply(prm, jnp.asarray(z)), reference(
            agents.dense(prm), z, s), (n, n, p, t, 2), where)
        rec.trans()
      rec.trace()
    rec.ev(outcome=(w, n, p, t))
    rec.state((w, n, p, t))


def do_points(case, rec):
  """Grid points of the axes."""
  n = case['n']
  s = vae.FieldShape()
  for got, want in ((s.latlng_grid_points(), np.linspace(-500, 500, 21)),
                    (s.pressure_grid_points(), np.linspace(5000, 14000, 10)),
                    (s.time_grid_points(), np.arange(0, 49, 6))):
    rec.check(np.allclose(np.asarray(got), want) and
              np.shape(got) == want.shape, 'default-points',
              f'{got}, expected {want}')
  for km, lo, hi, h in itertools.product((100., 500.), (2000., 5000.),
                                         (9000., 14000.), (24, 48)):
    s = vae.FieldShape(latlng_slices=2 * n + 1, pressure_slices=n + 1,
                       time_slices=n + 1, latlng_displacement_km=km,
                       min_pressure_pa=lo, max_pressure_pa=hi,
                       time_horizon_hours=h * n)
    for got, want in (
        (s.latlng_grid_points(), np.linspace(-km, km, 2 * n + 1)),
        (s.pressure_grid_points(), np.linspace(lo, hi, n + 1)),
        (s.time_grid_points(), np.arange(0, h * n + 1, h))):
      rec.check(np.shape(got) == want.shape and
                np.allclose(np.asarray(got), want, rtol=1e-5, atol=1e-3), 'points',
                f'{s}: {got}, expected {want}')
    rec.ev(outcome=(n, km, lo, hi, h))
    rec.state((n, km, lo, hi, h))


def with_model(f):
  """Runs f with generated weights installed as the offlineskies22 model."""
  p = params(0, 20.)
  with agents.scratch() as top:
    path = os.path.join(top, 'w.msgpack')
    with open(path, 'wb') as h:
      h.write(flax.serialization.msgpack_serialize(p))
    gin.clear_config()
    gin.bind_parameter('load_offlineskies22.path', path)
    try:
      return f(p)
    finally:
      gin.clear_config()


def do_keys(case, rec):
  with_model(lambda p: _keys(case, rec, p))


def _keys(case, rec, p):
  """Many keys, among them keys with latents far from the origin."""
  s, old = gwf.GenerativeWindFieldSampler(), gwf.GenerativeWindField()
  when = dt.datetime(2012, 7, 7, tzinfo=dt.timezone.utc)
  layers = agents.dense(p)
  ks = [(f'PRNGKey({i})', jax.random.PRNGKey(i)) for i in range(case['n'])]
  for i in (2**20, 2**31 - 1):
    k = jax.random.PRNGKey(i)
    ks.append((f'PRNGKey({i})', k))
    ks += [(f'part {j} of key {i}', x)
           for j, x in enumerate(jax.random.split(k, 3))]
  # keys that agree in one of their words, or in the sum of them
  words = [(0, 7), (5, 7), (7, 0), (7, 5), (0, 2**32 - 7), (12, 0),
           (2**31, 7), (2**31 + 7, 0)]
  words = [(f'key words {w}', np.asarray(w, np.uint32)) for w in words]
  part = ks[case['part']::case['of']]
  top = 0.
  for name, k in part + words:
    k = jax.numpy.asarray(k)
    z = np.asarray(jax.random.normal(k, (64,)))
    top = max(top, np.abs(z).max())
    g = s.sample_field(k, when)
    judge(rec, g, reference(layers, z, vae.FieldShape()), (21, 21, 10, 9, 2),
          f'sampled with {name}')
    old.reset_forecast(k, when)
    rec.check(np.allclose(np.asarray(old.field), g, atol=1e-4), 'older',
              f'{name}: the older wind field samples another field')
    rec.ev(outcome=name)
    rec.trans()
    rec.trace()
    rec.state(('key', name))
  rec.check(top > 3.0, 'vacuous', f'latents only up to {top}')


def do_sampler(case, rec):
  with_model(lambda p: _sampler(case, rec, p))


def _sampler(case, rec, p):
  key = jax.random.PRNGKey(case['key'])
  other = jax.random.PRNGKey(case['key'] + 100)
  d1 = dt.datetime(2013, 3, 1, 5, tzinfo=dt.timezone.utc)
  d2 = dt.datetime(2011, 1, 1, tzinfo=dt.timezone.utc)
  s = gwf.GenerativeWindFieldSampler()
  rec.check(s.field_shape == vae.FieldShape(), 'sampler-shape',
            f'{s.field_shape}')
  a = s.sample_field(key, d1)
  z = np.asarray(jax.random.normal(key, (64,)))
  judge(rec, a, reference(agents.dense(p), z, vae.FieldShape()),
        (21, 21, 10, 9, 2), f'sampled with key {case["key"]}')
  rec.check(isinstance(a, np.ndarray), 'numpy', f'{type(a)}')
  keep = a.copy()
  o = s.sample_field(other, d1)
  rec.check(not np.allclose(a, o), 'distinct', 'two keys give the same winds')
  old = gwf.GenerativeWindField()
  tz = dt.timezone(dt.timedelta(hours=-7))
  dates = [d1.replace(year=y, month=m, day=d, hour=h, tzinfo=z)
           for (y, (m, d, h, z)) in itertools.product(
               range(1999, 2031, 1 if case['key'] == 0 else 10),
               ((1, 1, 0, dt.timezone.utc), (12, 31, 23, tz)))]
  for when in dates:
    old.reset_forecast(key, when)
    rec.check(np.array_equal(s.sample_field(key, when), a) and
              np.array_equal(np.asarray(old.field), a), 'key',
              f'key {case["key"]}: another field for {when}')
    rec.trans()
  for when, smp in ((d1, s), (d2, s), (d1, gwf.GenerativeWindFieldSampler())):
    rec.check(np.array_equal(smp.sample_field(key, when), a), 'key',
              f'key {case["key"]}: another field for {when}')
    rec.trans()
  rec.check(np.array_equal(a, keep), 'handed-out', 'a field handed out changed')
  # what is handed out belongs to the caller, if it can be changed at all
  mine = s.sample_field(key, d1)
  if mine.flags.writeable:
    mine[...] = 1.
  rec.check(np.array_equal(s.sample_field(key, d1), keep), 'handed-out',
            'changing a sampled field changes what is sampled later')
  # The wind fields over it.
  new = gwf.generative_wind_field_factory()
  old = gwf.GenerativeWindField()
  rec.check(isinstance(new, grid_based_wind_field.GridBasedWindField),
            'factory', f'{type(new)}')
  for k, fld in ((other, o), (key, a)):
    new.reset_forecast(k, d1)
    old.reset_forecast(k, d1)
    grid = vae.FieldShape()
    xs = np.asarray(grid.latlng_grid_points(), float)
    ps = np.asarray(grid.pressure_grid_points(), float)
    for i, j, m, t in itertools.product((0, 7, 20), (0, 11, 20), (0, 4, 9),
                                        (0, 3, 8)):
      args = (units.Distance(km=xs[i]), units.Distance(km=xs[j]), ps[m],
              dt.timedelta(hours=6 * t))
      w1, w2 = new.get_forecast(*args), old.get_forecast(*args)
      g = (w1.u.meters_per_second, w1.v.meters_per_second)
      h = (w2.u.meters_per_second, w2.v.meters_per_second)
      size = np.abs(fld).max()
      rec.check(np.allclose(g, fld[i, j, m, t], atol=1e-4 * size) and
                np.allclose(g, h, atol=1e-5 * size), 'grid', f'wind at grid '
                f'point {i, j, m, t}: {g} and {h}, sampled '
                f'{fld[i, j, m, t]}')
      rec.trans()
    for x, y, pr, hr in itertools.product((-37., 0., 499., 800.), (11., -520.),
                                          (4000., 8123., 15000.),
                                          (0., 5.5, 48., 70., 97., 400.)):
      args = (units.Distance(km=x), units.Distance(km=y), pr,
              dt.timedelta(hours=hr))
      w1, w2 = new.get_forecast(*args), old.get_forecast(*args)
      rec.check(np.allclose(
          [w1.u.meters_per_second, w1.v.meters_per_second],
          [w2.u.meters_per_second, w2.v.meters_per_second],
          atol=1e-4 * size), 'agree', f'{x, y, pr, hr}: {w1} and {w2}')
      rec.trans()
    rec.state((case['key'], int(np.asarray(k)[-1])))
    rec.trace()
  rec.ev(outcome=case['key'])
  # Winds as they are served: axis one of the grid is east-west there.
  c = 10.
  worst = 0.
  for x, y in itertools.product((-200., 0., 150.), (-150., 0., 250.)):
    f = lambda x, y: new.get_forecast(
        units.Distance(km=x), units.Distance(km=y), 9000., dt.timedelta())
    div = (f(x + c, y).u.meters_per_second - f(x - c, y).u.meters_per_second +
           f(x, y + c).v.meters_per_second - f(x, y - c).v.meters_per_second)
    worst = max(worst, abs(div))
  rec.check(worst < 1e-3 * size, 'served-divergence', 'the winds served by the '
            f'generative wind field have divergence {worst} per {2 * c} km '
            f'(winds up to {size} m/s)')


def do_vae(case, rec):
  small = vae.FieldShape()
  x = np.asarray(jax.random.normal(jax.random.PRNGKey(9), small.grid_shape())
                 ) * 20.
  enc = vae.Encoder(num_latents=3, num_hidden_layers=2,
                    hidden_layer_network_width=4)
  p = enc.init(jax.random.PRNGKey(case['key']), jnp.asarray(x))
  q = flax.core.unfreeze(p)['params']
  for scale in (0., .1, 1., 50.):
    out = enc.apply(p, jnp.asarray(x * scale))
    y = (x * scale).ravel().astype(float)
    y = y / (50. + np.abs(y))
    for i in range(2):
      k = q[f'Dense_{i}']
      y = np.maximum(y @ np.asarray(k['kernel'], float) +
                     np.asarray(k['bias'], float), 0.)
    for n, got in (('mean', out.mean), ('logvar', out.logvar)):
      want = y @ np.asarray(q[n]['kernel'], float) + np.asarray(q[n]['bias'])
      rec.check(np.allclose(got, want, rtol=2e-3, atol=2e-4), 'encoder',
                f'{n} {got}, expected {want}')
    rec.trans()
    rec.ev(outcome=scale)
    rec.state((case['key'], scale))
  # The composed model.
  m = vae.model()
  key = jax.random.PRNGKey(case['key'])
  mp = m.init(key, jnp.asarray(x), key)
  dec = {'params': flax.core.unfreeze(mp)['params']['decoder']}
  det = vae.WindFieldVAE(reparameterize_latents=False)
  for k in range(3):
    zk = jax.random.PRNGKey(50 + k)
    out = m.apply(mp, jnp.asarray(x), zk)
    eo = out.encoder_output
    eps = np.asarray(jax.random.normal(zk, (64,)))
    z = np.asarray(eo.mean) + eps * np.exp(.5 * np.asarray(eo.logvar))
    want = vae.Decoder().apply(dec, jnp.asarray(z))
    rec.check(np.allclose(out.reconstruction, want, rtol=1e-3, atol=1e-4),
              'reparameterise', 'the reconstruction is not the decoded sample')
    judge(rec, out.reconstruction, None, (21, 21, 10, 9, 2), 'reconstruction')
    o2 = det.apply(mp, jnp.asarray(x), zk)
    rec.check(np.allclose(o2.reconstruction, vae.Decoder().apply(
        dec, o2.encoder_output.mean), rtol=1e-3, atol=1e-4), 'mean',
              'the deterministic reconstruction is not the decoded mean')
    zz = jnp.asarray(eps)
    rec.check(np.allclose(m.apply(mp, zz, method=m.generate),
                          vae.Decoder().apply(dec, zz), rtol=1e-4, atol=1e-5),
              'generate', 'generate is not the decoder')
    rec.trans(3)
    rec.trace()


def do_vae_shapes(case, rec):
  """The whole model for other field shapes."""
  for n, w, p, t in case['shapes']:
    s = vae.FieldShape(latlng_slices=n, flow_field_width=w, pressure_slices=p,
                       time_slices=t)
    m = vae.WindFieldVAE(num_latents=4, field_shape=s)
    x = jnp.ones(s.grid_shape())
    k = jax.random.PRNGKey(n)
    mp = m.init(k, x, k)
    dec = agents.dense({'params': flax.core.unfreeze(mp)['params']['decoder']})
    out = m.apply(mp, x, k).reconstruction
    judge(rec, out, None, s.grid_shape(), f'model of {s}')
    for z in (np.zeros(4), np.arange(4.)):
      judge(rec, m.apply(mp, jnp.asarray(z, jnp.float32), method=m.generate),
            reference(dec, z, s) if out.shape == s.grid_shape() else None,
            s.grid_shape(), f'generated by a model of {s}')
      rec.trans()
    rec.ev(outcome=(n, w, p, t))
    rec.state(('vae', n, w, p, t))
    rec.trace()


def do_env(case, rec):
  """The default environment runs on the generated winds."""
  from balloon_learning_environment.env import balloon_env

  def go(_):
    rows = []
    for seed in (0, 0, 1):
      env = balloon_env.BalloonEnv(seed=seed)
      obs = [env.reset()]
      for a in (0, 1, 2, 2):
        obs.append(env.step(a)[0])
        rec.trans()
      rec.check(all(np.isfinite(o).all() for o in obs), 'env-finite',
                f'seed {seed}')
      rows.append(np.stack(obs))
      rec.ev(outcome=seed)
      rec.state(('env', seed))
    rec.check(np.array_equal(rows[0], rows[1]) and
              not np.array_equal(rows[0], rows[2]), 'env-seed',
              'the default environment is not a function of its seed')
    rec.trace()
  with_model(go)
