"""C36: rendering shows the flight and changes nothing."""
import datetime as dt
import itertools

import matplotlib
matplotlib.use('Agg')
from balloon_learning_environment.env import balloon_env  # pylint: disable=g-import-not-at-top
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.rendering import matplotlib_renderer
from balloon_learning_environment.utils import units
from matplotlib import dates as mdates
import matplotlib.pyplot as plt
from mc import world
import numpy as np

PROP, LEVEL = 'C36', 'model_checking'
TECHNIQUE = ('all words of reset, step and render up to a depth on the real '
             'environment with the real renderer, the drawn figure read back '
             'and compared with the flight; twin environment without renderer')
RULE = ('words: every word over {reset, down, stay, up, render} of the given '
        'length after a reset, in an environment with the renderer and in a '
        'twin without; at each render the path, position and charge drawn '
        'are compared with the states flown since the last reset, the image '
        'with one drawn from scratch. pair: two renderers, their steps and '
        'pictures interleaved in every order, and pictures kept while others '
        'are drawn. given: long flights over hundreds of kilometres, handed over '
        'state by state. modes: every mode and writer.')
ASSUMPTIONS = ['drawn with matplotlib\'s Agg backend', 'what is drawn is read '
               'from the lines and markers of the figure']

OPS = 'r012v'
T0 = dt.datetime(2013, 3, 25, 9, 25, 32, tzinfo=dt.timezone.utc)


def cases(tier):
  out = [dict(kind='words', prefix=list(w), depth=1 if tier == 'quick' else 3)
         for w in itertools.product(OPS, repeat=2)]
  out += [dict(kind='pair', first=f, depth=2 if tier == 'quick' else 4)
          for f in range(4)]
  out += [dict(kind='given', n=n) for n in (1, 700, 1100)]
  out += [dict(kind='modes'), dict(kind='flight', n=40),
          dict(kind='flight', n=200)]
  return out


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)
  plt.close('all')


def make(renderer, seed=1):
  return balloon_env.BalloonEnv(
      wind_field_factory=wind_field.SimpleStaticWindField, seed=seed,
      renderer=renderer)


def point(env):
  s = env.arena.get_simulator_state()
  b = s.balloon_state
  return (b.x.kilometers, b.y.kilometers,
          s.atmosphere.at_pressure(b.pressure).height.kilometers,
          b.battery_soc * 100., b.date_time)


def drawn(flight):
  """None if the current figure shows the flight, else what is missing."""
  f = np.array([p[:3] for p in flight], float)
  charge = np.array([p[3] for p in flight])
  when = np.array([mdates.date2num(p[4]) for p in flight])
  three = top = power = last = stale = None
  for num in plt.get_fignums():
    for ax in plt.figure(num).axes:
      for l in ax.lines:
        if hasattr(l, 'get_data_3d'):
          d = np.array([np.asarray(v, float) for v in l.get_data_3d()])
          if d.shape[1] == len(f) and np.allclose(d.T, f, atol=1e-6):
            three = True
        else:
          x = np.asarray(ax.convert_xunits(l.get_xdata()), float)
          y = np.asarray(l.get_ydata(), float)
          if len(x) == len(f):
            if np.allclose(x, f[:, 0], atol=1e-6) and np.allclose(
                y, f[:, 1], atol=1e-6):
              top = True
            if np.allclose(x, when, atol=1e-6) and np.allclose(
                y, charge, atol=1e-6):
              power = True
      for c in ax.collections:
        o = getattr(c, '_offsets3d', None)
        if o is not None and len(o[0]) == 1 and np.allclose(
            [float(v[0]) for v in o], f[-1], atol=1e-6):
          last = True
        # a marker on the map is where the balloon is, not where it was
        o = None if o is not None else np.asarray(c.get_offsets(), float)
        if o is not None and o.shape == (1, 2):
          at = np.abs(f[:, :2] - o[0]).max(axis=1) < 1e-6
          if at.any() and not at[-1] and np.abs(o).max() > 1e-6:
            stale = True
  miss = [n for n, v in (('flight path', three), ('map', top),
                         ('charge', power), ('balloon', last),
                         ('current position on the map', not stale)) if not v]
  return miss


def act(env, twin, op, flight, rec, where):
  if op == 'r':
    a, b = env.reset(), twin.reset()
    del flight[:]
    flight.append(point(twin))
    ok = np.array_equal(a, b)
  else:
    a, b = env.step(int(op)), twin.step(int(op))
    flight.append(point(twin))
    ok = (np.array_equal(a[0], b[0]) and a[1:3] == b[1:3] and a[3] == b[3])
  rec.transitions += 1
  rec.check(ok, 'changes-nothing', f'{where}: with a renderer the environment '
            f'behaves differently at {op!r}')
  return a if op == 'r' else a[2]


def view(env, flight, rec, where):
  before = point(env)
  img = env.render('rgb_array')
  miss = drawn(flight)
  rec.check(not miss, 'shown', f'{where}: of {len(flight)} states flown since '
            f'the reset, the picture does not show: {miss}')
  ok = (isinstance(img, np.ndarray) and img.dtype == np.uint8 and
        img.shape == (1000, 1500, 3))
  rec.check(ok, 'image', f'{where}: image {type(img)} '
            f'{getattr(img, "shape", None)}')
  if ok:
    rec.check(img.min() < 100 and (img == 255).mean() > .3, 'blank',
              f'{where}: nothing drawn')
  rec.check(point(env) == before, 'changes-nothing', f'{where}: rendering '
            'changed the state')
  rec.transitions += 1
  return img


def do_words(case, rec):
  env = make(matplotlib_renderer.MatplotlibRenderer())
  twin = make(None)
  for w in itertools.product(OPS, repeat=case['depth']):
    word = 'r' + ''.join(case['prefix']) + ''.join(w) + 'v'
    env.seed(3)
    twin.seed(3)
    flight, imgs = [], []
    for i, op in enumerate(word):
      where = f'{word[:i + 1]}'
      if op == 'v':
        # Every picture of the last position; the others are prefixes.
        if i == len(word) - 1 or word[i + 1] == 'v':
          imgs.append(view(env, flight, rec, where))
      else:
        act(env, twin, op, flight, rec, where)
      rec.state((len(flight), op))
    if len(imgs) > 1 and word[-2:] == 'vv':
      rec.check(np.array_equal(imgs[-1], imgs[-2]), 'repeat', f'{word}: '
                'rendering twice gives two pictures')
    rec.trace()
    rec.ev(outcome=word)
  rec.check(env.render() is None, 'human', 'the human mode returns something')
  rec.check(twin.render('rgb_array') is None, 'none', 'no renderer')


def do_flight(case, rec):
  env = make(matplotlib_renderer.MatplotlibRenderer(), 5)
  twin = make(None, 5)
  flight = []
  for ep in range(2):
    act(env, twin, 'r', flight, rec, f'episode {ep}')
    for i in range(case['n']):
      done = act(env, twin, str((i // 9) % 3), flight, rec, f'step {i}')
      if i % 40 == 39:
        view(env, flight, rec, f'episode {ep}, step {i}')
      rec.state((ep, i))
      if done:
        break
    rec.trace()
    rec.ev(outcome=(ep, len(flight)))


def do_given(case, rec):
  """Long flights that leave the drawn area, handed over state by state."""
  env = make(None, 2)
  s = env.get_simulator_state()
  r = matplotlib_renderer.MatplotlibRenderer()
  for ep in range(2):
    r.reset()
    flight = []
    b = s.balloon_state
    for i in range(case['n']):
      t = i + 7 * ep
      b.x = units.Distance(km=.63 * t * np.sin(.011 * t))
      b.y = units.Distance(km=-.57 * t * np.cos(.017 * t))
      b.pressure = 5500. + 6000. * (i % 97) / 97.
      b.battery_charge = b.battery_capacity * ((i * 37 % 1001) / 1001.)
      b.date_time = T0 + dt.timedelta(minutes=3 * t)
      r.step(s)
      flight.append((b.x.kilometers, b.y.kilometers,
                     s.atmosphere.at_pressure(b.pressure).height.kilometers,
                     b.battery_soc * 100., b.date_time))
      rec.transitions += 1
    r.render('rgb_array')
    miss = drawn(flight)
    rec.check(not miss, 'shown', f'{case}, flight {ep}: of {len(flight)} '
              f'states the picture does not show: {miss}')
    rec.state((ep, case['n']))
    rec.ev(outcome=(ep, case['n']))
  rec.trace()


def do_pair(case, rec):
  """Two flights drawn side by side; pictures that are kept stay."""
  for w in itertools.product(range(4), repeat=case['depth']):
    # 0, 1: step the first, second; 2, 3: draw the first, second
    word = (0, 2, case['first']) + w
    envs = [make(matplotlib_renderer.MatplotlibRenderer(), 3 + k)
            for k in (0, 1)]
    alone, kept = {}, []
    count = [0, 0]
    for e in envs:
      e.reset()
    for op in word + (2, 3):
      k = op % 2
      if op < 2:
        envs[k].step((count[k] + k) % 3)
        count[k] += 1
      else:
        img = envs[k].render('rgb_array')
        kept.append((k, count[k], img, np.array(img).copy()))
      rec.transitions += 1
    for k, n, img, then in kept:
      rec.check(np.array_equal(img, then), 'kept', f'{word}: the picture of '
                f'flight {k} after {n} steps changed while others were drawn')
      if (k, n) in alone:
        rec.check(np.array_equal(alone[k, n], then), 'apart', f'{word}: flight '
                  f'{k} after {n} steps is drawn in two ways')
      alone[k, n] = then
    for (k, n), img in alone.items():
      if (k, n) not in _SOLO:
        plt.close('all')
        e = make(matplotlib_renderer.MatplotlibRenderer(), 3 + k)
        e.reset()
        for i in range(n):
          e.step((i + k) % 3)
        _SOLO[k, n] = np.array(e.render('rgb_array')).copy()
      rec.check(np.array_equal(img, _SOLO[k, n]), 'apart', f'{word}: flight '
                f'{k} after {n} steps looks different next to another')
    plt.close('all')
    rec.trace()
    rec.ev(outcome=word)
    rec.state((tuple(count), case['first']))


_SOLO = {}


class Writer:

  def __init__(self):
    self.log = []

  def image(self, tag, img, step):
    self.log.append((tag, np.array(img).shape, np.array(img).copy(), step))

  def flush(self):
    self.log.append('flush')


def do_modes(case, rec):
  r = matplotlib_renderer.MatplotlibRenderer()
  env = make(r)
  rec.check(list(env.metadata['render.modes']) == list(r.render_modes) and
            set(r.render_modes) >= {'human', 'rgb_array', 'tensorboard'},
            'modes', f'{env.metadata}')
  env.reset()
  for bad in ('ansi', '', 'RGB_ARRAY', None, 'rgb'):
    rec.raises(ValueError, lambda: env.render(bad), 'mode', f'mode {bad!r}')
    rec.ev(outcome=str(bad))
  img = env.render('rgb_array')
  for w, it in itertools.product((None, Writer()), (None, 0, 7)):
    out = r.render('tensorboard', summary_writer=w, iteration=it)
    rec.check(out is None, 'tensorboard', f'returned {type(out)}')
    if w is not None and it is not None:
      im = [x for x in w.log if x != 'flush']
      rec.check(len(im) == 1 and im[0][1] == (1000, 1500, 3) and
                im[0][3] == it and w.log[-1] == 'flush' and
                np.array_equal(im[0][2], img), 'tensorboard',
                f'iteration {it}: {[x[:2] if x != "flush" else x for x in w.log]}')
      del w.log[:]
    elif w is not None:
      rec.check(not w.log, 'tensorboard', 'written without an iteration')
    rec.ev(outcome=(w is None, it))
    rec.state((w is None, it))
    rec.trans()
  rec.check(np.array_equal(env.render('rgb_array'), img), 'again',
            'the picture differs after writing to tensorboard')
  # A renderer without any state refuses.
  rec.raises(Exception, lambda: matplotlib_renderer.MatplotlibRenderer().render(
      'rgb_array'), 'empty', 'nothing flown')
