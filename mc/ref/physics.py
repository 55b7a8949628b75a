"""Reference physics, written from the documented laws with its own constants.

Plain floats and the standard library only; nothing here is imported from the
code under test.  The atmosphere is passed in as two callables because each
draw of it is random (C12 checks the atmosphere itself).
"""
import datetime as dt
import math

R = 8.3144621
M_AIR = 0.028964922481160
M_HE = 0.004002602
G = 9.80665
SIGMA = 5.6704e-8
MIN_EL = -4.242
UTC = dt.timezone.utc


# ---------------------------------------------------------------- the sun
def julian_century(t):
  """Julian centuries since J2000.0 of a UTC instant (Meeus)."""
  days = (t - dt.datetime(2000, 1, 1, 12, tzinfo=UTC)).total_seconds() / 86400.
  return days / 36525.0


def sun(lat_deg, lng_deg, t):
  """NOAA solar position: (elevation deg, azimuth deg, flux W/m2)."""
  t = t.astimezone(UTC)
  T = julian_century(t)
  mins = (t - t.replace(hour=0, minute=0, second=0, microsecond=0)
          ).total_seconds() / 60.0
  rad, deg = math.radians, math.degrees
  L0 = rad(280.46646 + 36000.76983 * T + 0.0003032 * T * T)
  M = rad(357.52911 + 35999.05029 * T - 0.0001537 * T * T)
  e = 0.016708634 - 0.000042037 * T - 0.0000001267 * T * T
  C = (math.sin(M) * (1.914602 - 0.004817 * T - 0.000014 * T * T) +
       math.sin(2 * M) * (0.019993 - 0.000101 * T) +
       math.sin(3 * M) * 0.000289)
  omega = rad(125.04 - 1934.136 * T)
  lam = L0 + rad(C) - rad(0.00569 - 0.00478 * math.sin(omega))
  eps0 = 23 + (26 + (21.448 - 46.815 * T - 0.00059 * T * T
                     + 0.001813 * T ** 3) / 60) / 60
  eps = rad(eps0 + 0.00256 * math.cos(omega))
  decl = math.asin(math.sin(eps) * math.sin(lam))
  y = math.tan(eps / 2) ** 2
  eot = 4 * deg(y * math.sin(2 * L0) - 2 * e * math.sin(M) +
                4 * e * y * math.sin(M) * math.cos(2 * L0) -
                0.5 * y * y * math.sin(4 * L0) -
                1.25 * e * e * math.sin(2 * M))
  tst = (mins + eot + 4 * lng_deg) % 1440.0
  H = rad(tst / 4 - 180.0)
  la = rad(lat_deg)
  cz = math.sin(la) * math.sin(decl) + math.cos(la) * math.cos(decl) * math.cos(H)
  z = math.acos(max(-1.0, min(1.0, cz)))
  h = 90 - deg(z)
  if h > 85:
    refr = 0.0
  elif h > 5:
    th = math.tan(rad(h))
    refr = 58.1 / th - 0.07 / th ** 3 + 0.000086 / th ** 5
  elif h > -0.575:
    refr = 1735 - 518.2 * h + 103.4 * h * h - 12.79 * h ** 3 + 0.711 * h ** 4
  else:
    refr = -20.772 / math.tan(rad(h))
  el = h + refr / 3600
  # azimuth, clockwise from north
  az = deg(math.atan2(
      -math.cos(decl) * math.sin(H),
      math.cos(la) * math.sin(decl) - math.sin(la) * math.cos(decl) * math.cos(H)
  )) % 360.0
  flux = 1366 * (1 + 0.5 * (((1 + e) / (1 - e)) ** 2 - 1) * math.cos(M))
  return el, az, flux


def attenuation(el, p):
  if el < MIN_EL:
    return 0.0
  s = 614.0 * math.sin(math.radians(el))
  am = 0.34764 * (p / 101325.0) * (math.sqrt(1229 + s * s) - s)
  return 0.5 * (math.exp(-0.65 * am) + math.exp(-0.95 * am))


def shadow(el, height):
  lim = math.degrees(math.atan2(math.sqrt(height * (10.41603 + height)),
                                8.69275))
  return 0.4392 if el >= lim else 1.0


def solar_power(el, p):
  return 210.0 * attenuation(el, p) * (
      4 * math.cos(math.radians(el - 35)) * shadow(el, 3.3) +
      2 * math.cos(math.radians(el - 65)) * shadow(el, 2.7))


# ------------------------------------------------------------- thermal
REFL = 0.0291


def absorptivity_ir(T):
  return 0.04587 + 0.000232 * (T - 210)


def total_abs(a):
  return a * (1 + (1 - a - REFL) / (1 - REFL))


def convective(radius, Tb, Ta, p):
  mu = 1.458e-6 * Ta ** 1.5 / (Ta + 110.4)
  k = 0.0241 * (Ta / 273.15) ** 0.9
  pr = 0.804 - 3.25e-4 * Ta
  rho = p * M_AIR / (R * Ta)
  gr = G * rho ** 2 * (2 * radius) ** 3 / (Ta * mu ** 2) * abs(Ta - Tb)
  ra = pr * gr
  nu = 2 + 0.457 * ra ** 0.25 + (1 + 2.69e-8 * ra) ** (1 / 12)
  return nu * k / (2 * radius) * (Ta - Tb)


def heating(vol, mass, Tb, Ta, p, el, flux, earth):
  """dT/dt of the gas [K/s]."""
  r = (3 * vol / (4 * math.pi)) ** (1 / 3)
  area = 4 * math.pi * r * r
  q = flux * attenuation(el, p) * 0.25 * area * total_abs(0.01435)
  q += earth * 0.4605 * area * total_abs(
      absorptivity_ir((earth / SIGMA) ** 0.25))
  q -= SIGMA * Tb ** 4 * area * total_abs(absorptivity_ir(Tb))
  q += area * convective(r, Tb, Ta, p)
  return q / (1500 * mass)


# ------------------------------------------------------------- envelope
def envelope(n, T, p, v0, dv):
  """(volume, superpressure) by solving the gas and stiffness laws."""
  nrt = n * R * T
  if nrt / p <= v0:
    return nrt / p, 0.0
  # V = v0 + dv*sp,  (p+sp) V = nRT:  dv sp^2 + (v0 + dv p) sp + p v0 - nRT = 0
  b, c = v0 + dv * p, p * v0 - nrt
  sp = 2 * -c / (b + math.sqrt(b * b - 4 * dv * c))  # stable root
  return v0 + dv * sp, sp


# ------------------------------------------------------------- pump
_PR = [1.0, 1.05, 1.2, 1.25, 1.35]
_PW = [100., 100., 300., 400., 400.]
EFF_PR = [1.05 + 0.025 * i for i in range(13)]
EFF_PW = [100., 200., 300., 400.]
# Efficiency by (pressure ratio, power); see DESIGN.md, finding on this table:
# the published data look as if they had been meant power-major.
_E = [0.4, 0.4, 0.3, 0.2, 0.2, 0, 0, 0, 0, 0, 0, 0, 0,
      0.4, 0.3, 0.3, 0.3, 0.25, 0.23, 0.2, 0.15, 0.12, 0.1, 0, 0, 0,
      0, 0.3, 0.25, 0.25, 0.25, 0.2, 0.2, 0.2, 0.2, 0.15, 0.13, 0.12, 0.11,
      0, 0.23, 0.23, 0.23, 0.23, 0.23, 0.2, 0.2, 0.2, 0.18, 0.16, 0.15, 0.13]
EFF = [_E[4 * i:4 * i + 4] for i in range(13)]


def interp(x, xs, ys):
  if x <= xs[0]:
    return ys[0]
  for i in range(len(xs) - 1):
    if x <= xs[i + 1]:
      f = (x - xs[i]) / (xs[i + 1] - xs[i])
      return ys[i] + f * (ys[i + 1] - ys[i])
  return ys[-1]


def pump_power(ratio):
  return interp(ratio, _PR, _PW)


def pump_efficiency(ratio, watts):
  return interp(ratio, EFF_PR, [interp(watts, EFF_PW, row) for row in EFF])


def valve_flow(p, sp, T, diameter):
  area = math.pi * diameter ** 2 / 4
  rho = (p + sp) * M_AIR / (R * T)
  return -0.62 * area * math.sqrt(2 * sp * rho)


# ------------------------------------------------------------- position
def offset_latlng(lat, lng, x, y):
  """Great-circle destination from (lat, lng) deg going (x east, y north) m.

  Rotates unit vectors instead of using the haversine-style formula.
  """
  d = math.hypot(x, y)
  if d == 0:
    return lat, lng
  a = d / 6371000.0
  la, lo = math.radians(lat), math.radians(lng)
  up = (math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la))
  east = (-math.sin(lo), math.cos(lo), 0.0)
  north = (-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo),
           math.cos(la))
  v = [math.cos(a) * u + math.sin(a) * (x / d * e + y / d * n)
       for u, e, n in zip(up, east, north)]
  return (math.degrees(math.atan2(v[2], math.hypot(v[0], v[1]))),
          math.degrees(math.atan2(v[1], v[0])))


# ------------------------------------------------------------- one stride
FIELDS = ('x', 'y', 'p', 'Ta', 'Ti', 'vol', 'sp', 'pump', 'flow', 'air',
          'solar', 'load', 'charge', 'status')


def stride(s, u, v, height_of, temp_of, cmd, secs):
  """One physics stride from dict s; returns a new dict.

  height_of/temp_of: the atmosphere as functions of pressure.
  """
  n = dict(s)
  n['x'] = s['x'] + u * secs
  n['y'] = s['y'] + v * secs
  rho = s['p'] * M_AIR / (R * s['Ta'])
  mass = M_HE * s['lift'] + M_AIR * s['air'] + s['m_env'] + s['m_pay']
  net = rho * s['vol'] - mass
  sign = 1.0 if net >= 0 else -1.0
  rate = sign * math.sqrt(abs(2 * net * G / (
      rho * s['cod'] * s['vol'] ** (2 / 3))))
  h0, h1 = height_of(s['p']), height_of(s['p'] + sign)
  n['p'] = s['p'] + sign / (h1 - h0) * rate * secs
  lat, lng = offset_latlng(s['lat0'], s['lng0'], s['x'], s['y'])
  el, _, flux = sun(lat, lng, s['t'])
  n['Ta'] = temp_of(s['p'])
  n['Ti'] = s['Ti'] + secs * heating(s['vol'], s['m_env'], s['Ti'], s['Ta'],
                                     s['p'], el, flux, s['ir'])
  n['vol'], n['sp'] = envelope(s['lift'] + s['air'], s['Ti'], s['p'], s['v0'],
                               s['dv'])
  status = s['status']
  if n['sp'] > s['sp_max']:
    status = 'BURST'
  if n['sp'] <= 0:
    status = 'ZEROPRESSURE'
  n['pump'], n['flow'] = 0.0, 0.0
  if cmd == 'UP':
    n['flow'] = valve_flow(s['p'], s['sp'], s['Ti'], s['valve'])
  elif cmd == 'DOWN':
    ratio = (s['p'] + max(s['sp'], 0.0)) / s['p']
    n['pump'] = pump_power(ratio)
    n['flow'] = pump_efficiency(ratio, n['pump']) * n['pump'] / 3600
  n['air'] = max(0.0, s['air'] + n['flow'] / M_AIR * secs)
  day = el > MIN_EL
  n['solar'] = solar_power(el, s['p']) if day else 0.0
  n['load'] = (s['load_day'] if day else s['load_night']) + n['pump']
  n['charge'] = min(max(s['charge'] + (n['solar'] - n['load']) * secs / 3600,
                        0.0), s['cap'])
  if n['charge'] <= 0:
    status = 'OUT_OF_POWER'
  n['status'] = status
  n['t'] = s['t'] + dt.timedelta(seconds=secs)
  n['elapsed'] = s['elapsed'] + secs
  n['el'] = el
  return n


def from_state(b):
  """Plain dict of an implementation balloon state (reads fields only)."""
  return dict(
      lat0=b.center_latlng.lat().degrees, lng0=b.center_latlng.lng().degrees,
      t=b.date_time, elapsed=b.time_elapsed.total_seconds(),
      v0=b.envelope_volume_base, dv=b.envelope_volume_dv_pressure,
      m_env=b.envelope_mass, sp_max=b.envelope_max_superpressure,
      cod=b.envelope_cod, m_pay=b.payload_mass,
      load_night=float(b.nighttime_power_load.watts),
      load_day=float(b.daytime_power_load.watts),
      valve=b.acs_valve_hole_diameter.meters,
      cap=float(b.battery_capacity.watt_hours),
      x=float(b.x.meters), y=float(b.y.meters), p=float(b.pressure),
      Ta=float(b.ambient_temperature), lift=float(b.mols_lift_gas),
      air=float(b.mols_air), Ti=float(b.internal_temperature),
      vol=float(b.envelope_volume), sp=float(b.superpressure),
      pump=float(b.acs_power.watts), flow=float(b.acs_mass_flow),
      solar=float(b.solar_charging.watts), load=float(b.power_load.watts),
      charge=float(b.battery_charge.watt_hours),
      last=b.last_command.name, status=b.status.name,
      guard=bool(b.power_safety_layer_enabled),
      ir=float(b.upwelling_infrared))


# ------------------------------------------------------------- atmosphere
R_AIR = R / M_AIR
LEVELS = [-610., 17000., 21000., 32000., 47000., 51000., 71000., 85000.]
LAPSE = [(-0.007, -0.0058), (0.006, 0.005), (0.001, 0.001), (0.0028, 0.0028),
         (0., 0.), (-0.0028, -0.0028), (-0.002, -0.002)]


class Air:
  """Piecewise linear temperature, hydrostatic pressure."""

  def __init__(self, alpha):
    self.rates = [(1 - alpha) * a + alpha * b for a, b in LAPSE]
    self.T, self.p = [300.0], [108870.8213]
    for i, r in enumerate(self.rates):
      h = LEVELS[i + 1] - LEVELS[i]
      self.p.append(self._p(i, h))
      self.T.append(self.T[i] + r * h)

  def _p(self, i, dh):
    r, T = self.rates[i], self.T[i]
    if r == 0:
      return self.p[i] * math.exp(-G * dh / (R_AIR * T))
    return self.p[i] * math.exp(-G / (R_AIR * r) * math.log1p(r * dh / T))

  def at_height(self, h):
    i = max(k for k in range(7) if LEVELS[k] <= h)
    return self.T[i] + self.rates[i] * (h - LEVELS[i]), self._p(i, h - LEVELS[i])

  def at_pressure(self, p):
    """(height, temperature)."""
    i = max(k for k in range(7) if self.p[k] >= p)
    r, T = self.rates[i], self.T[i]
    x = math.log(p / self.p[i])
    dh = (-R_AIR * T / G * x if r == 0 else
          T / r * math.expm1(-R_AIR * r / G * x))
    return LEVELS[i] + dh, T + r * dh


def alpha_of(T_at_ground_level):
  """Where a draw lies between the two extreme profiles, from T at 0 m."""
  rate = (T_at_ground_level - 300.0) / 610.0
  return (rate - LAPSE[0][0]) / (LAPSE[0][1] - LAPSE[0][0])


# ------------------------------------------------------------- equilibrium
def stable(p, v0, dv, m_env, m_pay, lift, lat, lng, t, ir, air):
  """(ambient T, gas T, air mols, volume, superpressure) afloat at p."""
  _, Ta = air.at_pressure(p)
  n = (p * v0 / (R * Ta)) - (m_env + m_pay + M_HE * lift) / M_AIR
  n = max(0.0, n)
  el, _, flux = sun(lat, lng, t)
  f = lambda T: heating(v0, m_env, T, Ta, p, el, flux, ir)
  lo, hi = 60.0, 500.0
  for _ in range(100):
    m = (lo + hi) / 2
    if f(m) > 0:
      lo = m
    else:
      hi = m
  Tg = (lo + hi) / 2
  v, sp = envelope(lift + n, Tg, p, v0, dv)
  return Ta, Tg, n, v, sp


def pressure_range(state, air):
  """Accessible range by the documented 20-level search.

  state needs v0, dv, m_env, m_pay, lift, lat, lng, t, ir, sp_max.
  """
  s = state
  lo_sp, hi_sp = 250.0, s['sp_max'] - 250.0
  top, bottom = 1000.0, air.at_height(50000 * 0.3048)[1]
  col = [top + (bottom - top) * i / 19 for i in range(20)]
  sp = lambda p: stable(p, s['v0'], s['dv'], s['m_env'], s['m_pay'], s['lift'],
                        s['lat'], s['lng'], s['t'], s['ir'], air)[4]
  # lowest pressure the balloon can float at, with no ballast air at all
  want = (s['m_pay'] + s['m_env'] + s['lift'] * M_HE) * R / (M_AIR * s['v0'])
  ratio = [p / air.at_pressure(p)[1] for p in col]
  i = 0
  while i < 18 and ratio[i + 1] < want:
    i += 1
  light = col[i] + (want - ratio[i]) * (col[i + 1] - col[i]) / (
      ratio[i + 1] - ratio[i])

  def search(start, levels):
    prev = (start, sp(start))
    if lo_sp <= prev[1] <= hi_sp:
      return start
    for p in levels:
      x = sp(p)
      if lo_sp <= x <= hi_sp:
        edge = lo_sp if prev[1] < lo_sp else hi_sp
        return prev[0] + (edge - prev[1]) * (p - prev[0]) / (x - prev[1])
      prev = (p, x)
    return None
  return (search(light, [p for p in col if p >= light]),
          search(bottom, [p for p in reversed(col) if p <= bottom]))
