"""C41: training the wind generator."""
import itertools
import os
import pickle
import shutil
import sys
import types
from unittest import mock

import flax
from flax import linen as nn
import jax
import jax.numpy as jnp
from mc import agents
import numpy as np


@flax.struct.dataclass
class _State:
  step: int


@flax.struct.dataclass
class _Optimizer:
  """Plain gradient descent behind the interface of flax.optim."""
  target: dict
  state: _State
  rate: float

  def apply_gradient(self, grad):
    new = jax.tree_util.tree_map(lambda p, g: p - self.rate * g, self.target,
                                 grad)
    return self.replace(target=new, state=_State(self.state.step + 1))


class _Adam:

  def __init__(self, learning_rate):
    self.rate = learning_rate

  def create(self, params):
    return _Optimizer(params, _State(0), self.rate)


if not hasattr(flax, 'optim'):
  # Removed from flax, but still what the program is written for.
  flax.optim = sys.modules['flax.optim'] = types.ModuleType('flax.optim')
  flax.optim.Adam = _Adam
if not hasattr(jax, 'tree_map'):
  jax.tree_map = jax.tree_util.tree_map

# pylint: disable=g-import-not-at-top
from absl import flags
from balloon_learning_environment.generative import learn_wind_field_generator as lw
from balloon_learning_environment.generative import vae
from flax.metrics import tensorboard
from flax.training import checkpoints

PROP, LEVEL = 'C41', 'model_checking'
RULE = ('schedules: every start, increment, frequency, cap and epoch on a '
        'grid. losses: every field and latent on a lattice. step: every '
        'parameter vector, batch and weight on a lattice against the '
        'gradient worked out by hand. runs: every word of runs of train() '
        'over the number of epochs and a crash at every batch of the run; '
        'fields are one-hot, so that the parameters show which fields have '
        'been learned from.')
ASSUMPTIONS = ['flax.optim and jax.tree_map are gone from the installed flax '
               'and jax: stand-ins with their interface (gradient descent, a '
               'step count) are put in place',
               'the network is replaced by one with four kinds of parameters '
               'whose gradients are known; the real one is the subject of C34']
N = 200  # fields: one per shard; the last ten are for evaluation
F = flags.FLAGS


class Boom(Exception):
  """A simulated crash."""


NOISE = [0.]


class Tiny(nn.Module):
  """y = phi x, mean = theta x, logvar = lam, sigma = exp(s)."""

  @nn.compact
  def __call__(self, x, rng):
    phi = self.param('phi', lambda k: jnp.float32(.5))
    lam = self.param('lam', lambda k: jnp.float32(-.25))
    s = self.param('s', lambda k: jnp.float32(.125))
    theta = self.param('theta', lambda k: jnp.ones(N, jnp.float32))
    flat = x.ravel()[:N]
    y = phi * x + NOISE[0] * jax.random.normal(rng, x.shape)
    return vae.VAEOutput(y, vae.EncoderOutput(theta[:flat.shape[0]] * flat,
                                              lam * jnp.ones_like(flat)),
                         jnp.exp(s))


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='schedules'), dict(kind='losses'), dict(kind='noise')]
  out += [dict(kind='step', weight=w) for w in (0., .5, 2., 512.)]
  out += [dict(kind='runs', first=a, depth=2 if q else 3)
          for a in range(len(OPS))]
  out += [dict(kind='bootstrap')]
  return out


def run(case, rec):
  NOISE[0] = 0.
  jax.clear_caches()
  with mock.patch.object(vae, 'model', Tiny), mock.patch.object(
      vae, 'WindFieldVAE', Tiny):
    globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def do_schedules(case, rec):
  del case
  for start, inc, freq, cap in itertools.product(
      (.5, 1., 3., 600.), (1., 1.5, 2.), (1, 2, 3, 7), (1., 4., 512.)):
    last = None
    for i in range(40):
      got = lw.step_schedule(i, start_value=start, increment=inc,
                             frequency=freq, max_val=cap)
      want = start
      for _ in range(i // freq):
        want *= inc
      rec.close(got, min(want, cap), 'schedule', f'{start} {inc} {freq} {cap} '
                f'at {i}')
      rec.check(last is None or got >= last, 'schedule', f'falls at {i}')
      last = got
      rec.trans()
    rec.ev(outcome=(start, inc, freq, cap))
  for i, v in itertools.product(range(5), (0., 1., 512.)):
    rec.check(lw.constant_schedule(i, value=v) == v, 'schedule', 'constant')


def kl(mean, logvar):
  return sum(.5 * (np.exp(l) + m * m - 1. - l) for m, l in zip(mean, logvar))


def do_losses(case, rec):
  del case
  ms, ls = (-2., -.5, 0., 1., 3.), (-3., -.5, 0., 1.)
  for n in (1, 2):
    for m in itertools.product(ms, repeat=n):
      for l in itertools.product(ls, repeat=n):
        got = float(lw.kl_divergence(np.float32(m), np.float32(l)))
        rec.close(got, kl(m, l), 'kl', f'{m} {l}', rel=1e-5, abs_=1e-5)
        rec.check(got >= -1e-6 and (got > 1e-4) == (any(m) or any(l)), 'kl',
                  f'{m} {l}: {got}')
        rec.trans()
      rec.ev(outcome=m)
  for shape in ((1,), (3,), (2, 2), (2, 1, 3, 1, 2)):
    k = int(np.prod(shape))
    for i in range(k):
      for a, b in ((0., 0.), (1.5, -2.), (-3., 1.)):
        x, y = np.zeros(shape, np.float32), np.zeros(shape, np.float32)
        x.flat[i], y.flat[i] = a, b
        x.flat[0] += 1.
        want = float(np.sum((x.astype(float) - y) ** 2))
        for p, q in ((x, y), (y, x)):
          rec.close(float(lw.mean_square_error(p, q)), want, 'mse',
                    f'{shape} cell {i}: {a} {b}', rel=1e-5)
        rec.trans()
    rec.ev(outcome=shape)


def fields(kind):
  """Batches of fields of 2 x 2 x 1 x 1 x 2 cells."""
  one = np.eye(8, dtype=np.float32)
  return {'one': one[:1], 'two': one[[2, 5]] * 3.,
          'mixed': np.float32([np.arange(8) / 4. - 1., np.ones(8),
                               one[3] * -2.])}[kind].reshape(
                                   (-1, 2, 2, 1, 1, 2))


def by_hand(p, x, w):
  """Gradients and losses of one field."""
  x = x.ravel().astype(float)
  n, s2 = len(x), np.exp(2 * p['s'])
  th = p['theta'][:n].astype(float)
  mse = float(np.sum((p['phi'] * x - x) ** 2))
  k = kl(th * x, [float(p['lam'])] * n)
  g = dict(phi=(p['phi'] - 1.) * np.sum(x * x) / s2,
           lam=w * -.5 * n * (1. - np.exp(p['lam'])), s=1. - mse / s2,
           theta=np.zeros(N))
  g['theta'][:n] = w * th * x * x
  loss = .5 * mse / s2 + p['s'] + .5 * np.log(2 * np.pi) + w * k
  return g, loss, mse, k


def close(rec, a, b, key, where):
  a, b = np.asarray(a, float), np.asarray(b, float)
  rec.check(a.shape == b.shape and np.allclose(a, b, rtol=2e-4, atol=2e-5), key,
            f'{where}: got {a.ravel()[:9]}, expected {b.ravel()[:9]}')


def do_step(case, rec):
  w = case['weight']
  rate = .03125
  for phi, lam, s, t, kind in itertools.product(
      (.5, 1., -2.), (-.5, 0., .25), (-.5, 0., .5), (0., 1., -2.),
      ('one', 'two', 'mixed')):
    p = dict(phi=np.float32(phi), lam=np.float32(lam), s=np.float32(s),
             theta=np.full(N, t, np.float32))
    x = fields(kind)
    opt = lw.optim.Adam(learning_rate=rate).create({'params': p})
    new, loss, mse, k, sigma = lw.train_step(opt, x, jax.random.PRNGKey(3), w)
    each = [by_hand(p, f, w) for f in x]
    where = f'weight {w} phi {phi} lam {lam} s {s} theta {t} batch {kind}'
    for name in p:
      want = p[name] - rate * np.mean([e[0][name] for e in each], axis=0)
      close(rec, new.target['params'][name], want, 'gradient',
            f'{where}: {name}')
    close(rec, loss, np.mean([e[1] for e in each]), 'loss', where)
    close(rec, mse, np.mean([e[2] for e in each]), 'mse', where)
    close(rec, k, np.mean([e[3] for e in each]), 'kl', where)
    close(rec, np.mean(sigma), np.exp(s), 'sigma', where)
    rec.check(int(new.state.step) == 1, 'gradient', f'{where}: not one step')
    m, rebuilt, latents = lw.evaluation(opt, x)
    close(rec, rebuilt, phi * x, 'evaluation', where)
    close(rec, latents, [t * f.ravel() for f in x], 'evaluation', where)
    close(rec, m['mse'], np.mean([e[2] for e in each]), 'evaluation', where)
    close(rec, m['kld'], np.mean([e[3] for e in each]), 'evaluation', where)
    sp = np.mean(np.hypot(x[..., 0], x[..., 1]))
    close(rec, m['mean_speed_original'], sp, 'evaluation', where)
    close(rec, m['mean_speed_reconstructed'], abs(phi) * sp, 'evaluation',
          where)
    close(rec, m['mean_speed_differential'], sp - abs(phi) * sp, 'evaluation',
          where)
    rec.ev(outcome=where)
    rec.trans()
    rec.trace()
    rec.state(where)


def do_noise(case, rec):
  """The noise of training is the key's; that of evaluations is fixed."""
  del case
  NOISE[0] = .25
  opt = lw.optim.Adam(learning_rate=.1).create(
      Tiny().init(jax.random.PRNGKey(0), jnp.ones(16), jax.random.PRNGKey(0)))
  for kind in ('one', 'two', 'mixed'):
    x = fields(kind)
    for seed in range(4):
      a = [float(v) for v in lw.evaluation(opt, x, seed)[0].values()]
      b = [float(v) for v in lw.evaluation(opt, x, seed)[0].values()]
      rec.check(a == b, 'noise', f'{kind}: evaluations differ: {a} {b}')
      k = jax.random.PRNGKey(seed)
      a = float(lw.train_step(opt, x, k, 1.)[2])
      b = float(lw.train_step(opt, x, k, 1.)[2])
      c = float(lw.train_step(opt, x, jax.random.PRNGKey(seed + 50), 1.)[2])
      rec.check(a == b, 'noise', f'{kind}: key {seed} gives {a} and {b}')
      rec.check(a != c, 'noise', f'{kind}: keys {seed} and {seed + 50} agree')
      rec.ev(outcome=(kind, seed))
      rec.trans()
    same = np.repeat(x[:1], 4, axis=0)
    y = np.asarray(lw.evaluation(opt, same)[1])
    rec.check(len({r.tobytes() for r in y}) == 4, 'noise', f'{kind}: equal '
              'fields of a batch get equal noise')
    z = np.asarray(lw.evaluation(opt, same)[1])
    rec.check(np.array_equal(y, z), 'noise', 'evaluation is not repeatable')


# One run: (number of epochs, batch at which it crashes or None).
OPS = [(1, None), (3, None), (1, 0), (1, 1), (3, 1), (3, 2), (3, 3), (3, 5)]
NB = 2


class Writer:
  """What a summary writer is given."""
  log = []

  def __init__(self, d, *a, **k):
    Writer.log.append(('dir', d))

  def scalar(self, tag, value, step):
    Writer.log.append((tag, float(value), int(step)))

  def __getattr__(self, name):
    return lambda *a, **k: None


def dataset(d):
  os.makedirs(d)
  x = np.eye(N, dtype=np.float32).reshape((N, 1, 10, 10, 1, 1, 2))
  x[N - 10:] *= 2.  # the fields kept for evaluation show by their speeds
  for i in range(N):
    with open(os.path.join(d, f'batch{i:04d}.pickle'), 'wb') as f:
      pickle.dump(x[i], f)


def parse(**kw):
  for names in F.flags_by_module_dict().values():
    for f in names:
      f.unparse()
  F(['x'] + [f'--{k}={v}' for k, v in kw.items()])


def train(data, ck, epochs, crash=None, boot='', schedule=None):
  """One run; returns (crashed, what the writer got, weights asked for)."""
  Writer.log = []
  asked = []
  count = [0]
  res = lw.dataset_wind_field_reservoir.DatasetWindFieldReservoir

  class Res(res):

    def get_batch(self, *a, **k):
      if count[0] == crash:
        raise Boom()
      count[0] += 1
      return super().get_batch(*a, **k)

  def weight(epoch):
    asked.append(int(epoch))
    return (schedule or (lambda e: .5 + e / 8.))(epoch)
  parse(checkpoint_directory=ck, bootstrap_directory=boot,
        offline_winds_dataset_path=data)
  with mock.patch.object(lw.dataset_wind_field_reservoir,
                         'DatasetWindFieldReservoir', Res), mock.patch.object(
                             tensorboard, 'SummaryWriter', Writer):
    try:
      lw.train(num_batches_per_epoch=NB, num_epochs=epochs, learning_rate=RATE,
               kl_schedule=weight)
      return False, list(Writer.log), asked, count[0]
    except Boom:
      return True, list(Writer.log), asked, count[0]


def saved(ck):
  """(epoch, parameters, steps) of the checkpoints in a directory."""
  out = []
  for f in sorted(os.listdir(ck) if os.path.isdir(ck) else []):
    if f.startswith('checkpoint_'):
      t = checkpoints.restore_checkpoint(os.path.join(ck, f), None)
      out.append((int(f.split('_')[1]), t['target']['params'],
                  int(t['state']['step'])))
  return out


TAGS = ('train/loss', 'train/sigma', 'train/mse', 'train/kld', 'train/mean_speed',
        'train/kl_coefficient', 'eval/mse', 'eval/kld',
        'eval/mean_speed_reconstructed', 'eval/mean_speed_original',
        'eval/mean_speed_differential')


RATE = 2. ** -10


def reference(epochs):
  """Of each epoch: phi, s, lam at its end, and its means of mse and sigma.

  The fields are one-hot, so none of these depends on which fields are drawn.
  """
  phi, lam, s = .5, -.25, .125
  out = {}
  for e in range(1, epochs):
    mses, sigmas = [], []
    for _ in range(NB):
      mse, s2 = (phi - 1.) ** 2, np.exp(2 * s)
      mses.append(mse)
      sigmas.append(np.exp(s))
      phi, lam, s = (phi - RATE * (phi - 1.) / s2,
                     lam + RATE * (.5 + e / 8.) * N / 2 * (1 - np.exp(lam)),
                     s - RATE * (1. - mse / s2))
    out[e] = (phi, s, lam), np.mean(mses), np.mean(sigmas)
  return out


REF = reference(8)


def judge(rec, where, ck, before, epochs, crash, got, start_step):
  """One run from `before` finished epochs; returns the epochs finished."""
  crashed, log, asked, batches = got
  first = before + 1
  todo = max(0, epochs - first + 1)
  done = todo if crash is None or crash >= todo * NB else crash // NB
  rec.check(crashed == (crash is not None and crash < todo * NB), 'epochs',
            f'{where}: crashed {crashed}, {batches} batches for {todo} epochs')
  reported = [x[2] for x in log if x[0] == 'train/loss']
  rec.check(reported == list(range(first, first + done)), 'epochs',
            f'{where}: reports epochs {reported}, expected {done} from {first}')
  rec.check(asked[:done] == list(range(first, first + done)), 'epochs',
            f'{where}: asks the schedule for {asked}')
  for t in TAGS:
    rec.check([x[2] for x in log if x[0] == t] == reported, 'reports',
              f'{where}: {t} is reported for '
              f'{[x[2] for x in log if x[0] == t]}')
  for x in log:
    if x[0] == 'train/kl_coefficient':
      rec.close(x[1], .5 + x[2] / 8., 'reports', f'{where}: weight')
    for t, v in (('train/mse', 1), ('train/sigma', 2)):
      if x[0] == t:
        rec.close(x[1], REF[x[2]][v], 'reports', f'{where}: {t} of epoch '
                  f'{x[2]}', rel=1e-5)
    if x[0] == 'eval/mse':
      rec.close(x[1], 4 * (REF[x[2]][0][0] - 1.) ** 2, 'reports', f'{where}: {x}',
                rel=1e-5)
    # one-hot fields of 100 winds
    for t, v in (('eval/mean_speed_original', .02),
                 ('train/mean_speed', .01)):
      if x[0] == t:
        rec.close(x[1], v, 'reports', f'{where}: {t}', rel=1e-4)
  cks = saved(ck)
  if not done:
    return before, cks
  if rec.check([c[0] for c in cks] == [before + done], 'checkpoint',
               f'{where}: checkpoints {[c[0] for c in cks]}, expected '
               f'{before + done}'):
    _, p, steps = cks[0]
    rec.check(steps == start_step + done * NB, 'checkpoint', f'{where}: '
              f'{steps} steps saved')
    for name, want in zip(('phi', 's', 'lam'), REF[before + done][0]):
      rec.close(float(p[name]), want, 'learns', f'{where}: {name}', rel=1e-4,
                abs_=1e-6)
    th = np.asarray(p['theta'])
    rec.check(np.all(th[N - 10:] == 1.), 'leak', f'{where}: the fields kept '
              f'for evaluation were learned from: {th[N - 10:]}')
    moved = int(np.sum(th[:N - 10] != 1.))
    rec.check(64 < moved <= N - 10 if steps > 1 else moved, 'learns',
              f'{where}: learned from {moved} fields in {steps} batches')
    rec.check(np.all(th[:N - 10] <= 1.), 'learns', f'{where}: theta grew')
  return before + done, cks


def do_runs(case, rec):
  with agents.scratch() as d:
    data = os.path.join(d, 'data')
    dataset(data)
    k = 0
    for rest in itertools.product(range(len(OPS)), repeat=case['depth'] - 1):
      word = (case['first'],) + rest
      k += 1
      ck = os.path.join(d, f'ck{k}')
      done, last = 0, []
      for j, o in enumerate(word):
        epochs, crash = OPS[o]
        got = train(data, ck, epochs, crash)
        where = f'run {j} of {[OPS[i] for i in word]}'
        n, cks = judge(rec, where, ck, done, epochs, crash, got, done * NB)
        if n == done:
          rec.check([c[0] for c in cks] == [c[0] for c in last], 'checkpoint',
                    f'{where}: a run without an epoch changes the checkpoints')
        done, last = n, cks
        rec.trans(got[3])
      rec.state(done)
      rec.trace()
      rec.ev(outcome=word)
      shutil.rmtree(ck, ignore_errors=True)


def do_bootstrap(case, rec):
  del case
  with agents.scratch() as d:
    data, boot = os.path.join(d, 'data'), os.path.join(d, 'boot')
    dataset(data)
    train(data, boot, 2)
    base = saved(boot)
    rec.check([c[0] for c in base] == [2], 'epochs', f'{base}')
    # a fresh run goes on from the bootstrap; it does not touch it
    ck = os.path.join(d, 'ck')
    got = train(data, ck, 4, None, boot=boot)
    judge(rec, 'bootstrapped', ck, 2, 4, None, got, 2 * NB)
    rec.check([c[0] for c in saved(boot)] == [2], 'bootstrap', 'the run wrote '
              'to the directory it was bootstrapped from')
    a = np.asarray(saved(ck)[0][1]['theta'])
    b = np.asarray(base[0][1]['theta'])
    rec.check(np.all(a <= b), 'bootstrap', 'what was learned is lost')
    # one with checkpoints of its own ignores it
    own = os.path.join(d, 'own')
    train(data, own, 1)
    got = train(data, own, 3, None, boot=boot)
    judge(rec, 'own checkpoints', own, 1, 3, None, got, NB)
    # an empty bootstrap directory is no start
    got = train(data, os.path.join(d, 'new'), 2, None,
                boot=os.path.join(d, 'nothing'))
    judge(rec, 'no bootstrap', os.path.join(d, 'new'), 0, 2, None, got, 0)
    # without directories nothing is kept
    before = sorted(os.listdir(d))
    crashed, log, asked, n = train(data, '', 2)
    rec.check(not crashed and n == 2 * NB and not log and
              sorted(os.listdir(d)) == before and asked == [1, 2], 'nothing',
              f'without a directory: {n} batches, {log}, {asked}')
    rec.ev(outcome='bootstrap')
    rec.trans(5)
