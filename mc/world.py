"""Builders of real simulator objects shared by the checks."""
import copy
import datetime as dt
import functools

from balloon_learning_environment.env import grid_wind_field_sampler
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import stable_init
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.generative import vae
from balloon_learning_environment.utils import units
import jax
import numpy as np
import s2sphere as s2

C = control.AltitudeControlCommand
ACTS = [C.DOWN, C.STAY, C.UP]
UTC = dt.timezone.utc
Status = balloon.BalloonStatus


@functools.lru_cache(maxsize=None)
def atmosphere(seed=0):
  return standard_atmosphere.Atmosphere(jax.random.PRNGKey(seed))


def wind(u, v):
  return wind_field.WindVector(units.Velocity(mps=u), units.Velocity(mps=v))


def lift_dict(seed):
  at = atmosphere(seed)
  return (lambda p: at.at_pressure(p).height.meters,
          lambda p: float(at.at_pressure(p).temperature))


_CACHE = {}


def state(lat=0.0, lng=0.0, when=(2013, 3, 25, 9, 25, 32), p=6600.0,
          stable=True, atm=0, **kw):
  """A real balloon state, stable at its pressure unless stable=False.

  Keyword values are set after stabilising; x, y in km, charge in Wh.
  """
  ctor = {k: kw.pop(k) for k in list(kw) if k in (
      'envelope_max_superpressure', 'power_safety_layer_enabled',
      'upwelling_infrared', 'time_elapsed', 'envelope_volume_base',
      'envelope_volume_dv_pressure', 'envelope_mass', 'payload_mass',
      'mols_lift_gas', 'envelope_cod')}
  x, y = kw.pop('x', 0.0), kw.pop('y', 0.0)
  key = repr((lat, lng, when, p, stable, atm, sorted(ctor.items(), key=str), x, y))
  if key not in _CACHE:
    if len(_CACHE) > 3000:
      _CACHE.clear()
    b = balloon.BalloonState(
        center_latlng=s2.LatLng.from_degrees(lat, lng),
        date_time=dt.datetime(*when, tzinfo=UTC), pressure=p,
        x=units.Distance(km=x), y=units.Distance(km=y), **ctor)
    if stable:
      stable_init.cold_start_to_stable_params(b, atmosphere(atm))
    _CACHE[key] = b
  b = copy.deepcopy(_CACHE[key])
  if 'charge' in kw:
    b.battery_charge = units.Energy(watt_hours=kw.pop('charge'))
  for k, v in kw.items():
    assert hasattr(b, k), k
    setattr(b, k, v)
  return b


class SynthSampler(grid_wind_field_sampler.GridWindFieldSampler):
  """A wind field sampler that needs no trained model."""

  def __init__(self, kind, shape):
    self.kind, self.fs, self.calls = kind, shape, []

  @property
  def field_shape(self):
    return self.fs

  def sample_field(self, key, date_time):
    self.calls = self.calls + [(np.asarray(key).tolist(), date_time)]
    rng = np.random.RandomState(np.asarray(key).astype(np.uint32) % 2**31)
    g = self.fs.grid_shape()
    if self.kind == 'rough':
      return rng.uniform(-20, 20, g).astype(np.float32)
    a, b, c, d = (np.linspace(0, 1, k) for k in g[:4])
    out = np.zeros(g)
    for comp in range(2):
      w = rng.uniform(-3, 3, 4)
      ph = rng.uniform(0, 6, 4)
      out[..., comp] = 12 * (
          np.sin(w[0] * a + ph[0])[:, None, None, None] *
          np.cos(w[1] * b + ph[1])[None, :, None, None] *
          np.sin(4 * w[2] * c + ph[2])[None, None, :, None] *
          np.cos(w[3] * d + ph[3])[None, None, None, :])
    return out.astype(np.float32)


def synth_sampler(kind='smooth', shape=None):
  return SynthSampler(kind, shape or vae.FieldShape())


def make_wind(kind='static'):
  if kind == 'static':
    return wind_field.SimpleStaticWindField()
  from balloon_learning_environment.env import grid_based_wind_field
  return grid_based_wind_field.GridBasedWindField(synth_sampler(kind))


def make_env(seed=1, kind='static', **kw):
  from balloon_learning_environment.env import balloon_env
  return balloon_env.BalloonEnv(wind_field_factory=lambda: make_wind(kind),
                                seed=seed, **kw)


def flat(b):
  """Every observable field of a balloon state as plain numbers."""
  return dict(
      x=b.x.meters, y=b.y.meters, p=float(b.pressure),
      lat0=b.center_latlng.lat().degrees, lng0=b.center_latlng.lng().degrees,
      t=b.date_time.timestamp(), el=b.time_elapsed.total_seconds(),
      Ta=float(b.ambient_temperature), Ti=float(b.internal_temperature),
      lift=float(b.mols_lift_gas), air=float(b.mols_air),
      vol=float(b.envelope_volume), sp=float(b.superpressure),
      acs=float(b.acs_power.watts), flow=float(b.acs_mass_flow),
      sun=float(b.solar_charging.watts), load=float(b.power_load.watts),
      charge=float(b.battery_charge.watt_hours), cmd=b.last_command.name,
      status=b.status.name, ir=float(b.upwelling_infrared),
      paused=bool(b.navigation_is_paused))
