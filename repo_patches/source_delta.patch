From 8b4385ff2e2b2e3f85bb32c2b1ef0048f6ac106b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:50:37 +0000
Subject: [PATCH 01/30] fix: make balloon.py and vae.py importable on Python >=
 3.11

dataclasses rejects unhashable default values since Python 3.11, so neither
BalloonState nor the flax modules holding a FieldShape could be defined.
Build the unit defaults with default_factory and freeze FieldShape.
---
 .../env/balloon/balloon.py                    | 30 ++++++++++++-------
 .../generative/vae.py                         |  2 +-
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 28d8fbe..5192aca 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -164,16 +164,22 @@ class BalloonState(object):
   # 78.5kg for the payload plus 14kg of ballast.
   payload_mass: float = 92.5  # [kg]
 
-  nighttime_power_load: units.Power = units.Power(watts=183.7)
-  daytime_power_load: units.Power = units.Power(watts=120.4)
+  nighttime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=183.7))
+  daytime_power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=120.4))
 
-  acs_valve_hole_diameter: units.Distance = units.Distance(m=0.04)
+  acs_valve_hole_diameter: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0.04))
 
-  battery_capacity: units.Energy = units.Energy(watt_hours=3058.56)
+  battery_capacity: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=3058.56))
 
   # State of the system.
-  x: units.Distance = units.Distance(m=0)
-  y: units.Distance = units.Distance(m=0)
+  x: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
+  y: units.Distance = dataclasses.field(
+      default_factory=lambda: units.Distance(m=0))
 
   pressure: float = 6000.0  # [Pa]
 
@@ -186,13 +192,17 @@ class BalloonState(object):
   envelope_volume: float = 1804.0  # [kg/s]
   superpressure: float = 0  # [Pa]
 
-  acs_power: units.Power = units.Power(watts=0)
+  acs_power: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   acs_mass_flow: float = 0  # [kg/s]
 
-  solar_charging: units.Power = units.Power(watts=0)
-  power_load: units.Power = units.Power(watts=0)
+  solar_charging: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
+  power_load: units.Power = dataclasses.field(
+      default_factory=lambda: units.Power(watts=0))
   # battery_charge initialized to 95% capacity.
-  battery_charge: units.Energy = units.Energy(watt_hours=2905.6)
+  battery_charge: units.Energy = dataclasses.field(
+      default_factory=lambda: units.Energy(watt_hours=2905.6))
 
   last_command: control.AltitudeControlCommand = (
       control.AltitudeControlCommand.STAY)
diff --git a/balloon_learning_environment/generative/vae.py b/balloon_learning_environment/generative/vae.py
index b7f6545..9fcd3a6 100644
--- a/balloon_learning_environment/generative/vae.py
+++ b/balloon_learning_environment/generative/vae.py
@@ -23,7 +23,7 @@ import jax
 import jax.numpy as jnp
 
 
-@dataclasses.dataclass
+@dataclasses.dataclass(frozen=True)
 class FieldShape:
   """Class to parameterize the shape of the VAE field."""
 
-- 
2.43.0


From b4ea4520bc108cabd2f386cf78b97a39c7b6cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:39 +0000
Subject: [PATCH 02/30] fix: solar_calculator never rejected invalid
 coordinates

The is_valid method was tested for truth instead of being called.
---
 balloon_learning_environment/env/balloon/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 0350e02..6e4bec9 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -57,7 +57,7 @@ def solar_calculator(latlng: s2.LatLng,
     flux: Solar flux in W/m^2.
   """
   # Check if latitude is within expected range.
-  if not latlng.is_valid:
+  if not latlng.is_valid():
     raise ValueError(f'solar_calculator: latlng is invalid: {latlng}.')
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
-- 
2.43.0


From cab3a41beea2eec4421b63e86f01faabf8a219b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:39 +0000
Subject: [PATCH 03/30] fix: solar_calculator mixed the local date with the UTC
 time of day

For a time zone in which the date differs from the UTC date, the Julian time
was off by a day.
---
 balloon_learning_environment/env/balloon/solar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 6e4bec9..d957a40 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -62,6 +62,9 @@ def solar_calculator(latlng: s2.LatLng,
   if time.tzinfo is None:
     raise ValueError('time parameter needs timezone. Try UTC.')
 
+  # The calendar date below has to be the UTC date, like the fraction of day.
+  time = time.astimezone(dt.timezone.utc)
+
   # Compute fraction_of_day from time.
   fraction_of_day = (
       int(time.timestamp()) %
-- 
2.43.0


From 92f88c5f5e105dc1cd6f43ddeab9e0d3969cba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 04/30] fix: NamedPerciatelliFeatures never refused an invalid
 wind level

The chained comparison could not be true, so level -1 returned the last level
and a level beyond the end failed with an unrelated error.
---
 balloon_learning_environment/env/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/features.py b/balloon_learning_environment/env/features.py
index aabe1aa..1b05f48 100644
--- a/balloon_learning_environment/env/features.py
+++ b/balloon_learning_environment/env/features.py
@@ -231,7 +231,7 @@ class NamedPerciatelliFeatures:
     Args:
       level: the query pressure level.
     """
-    if 0 > level >= self.num_pressure_levels:
+    if not 0 <= level < self.num_pressure_levels:
       raise ValueError(f'Invalid wind level: {level}')
 
     wind = self._winds[level * 3:level * 3 + 3]
-- 
2.43.0


From 49550832d7612a15b62e2d689267be7560afb99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 05/30] fix: NamedPerciatelliFeatures swapped navigation paused
 and enabled

PerciatelliFeatureConstructor writes paused at 11 and not paused at 12.
---
 balloon_learning_environment/env/features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/env/features.py b/balloon_learning_environment/env/features.py
index 1b05f48..b274018 100644
--- a/balloon_learning_environment/env/features.py
+++ b/balloon_learning_environment/env/features.py
@@ -214,8 +214,8 @@ class NamedPerciatelliFeatures:
     elif last_command_idx == 2:
       self.last_command = control.AltitudeControlCommand.DOWN
 
-    self.navigation_enabled = ambient_features[11]
-    self.navigation_paused = ambient_features[12]
+    self.navigation_paused = ambient_features[11]
+    self.navigation_enabled = ambient_features[12]
 
     self.has_excess_energy = ambient_features[13]
     self.descent_cost = ambient_features[14]
-- 
2.43.0


From 37d1d548b470dc64b40a2e30457d8330deeb9d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 06/30] fix: undo_squash_to_unit_interval never checked its
 domain

The chained comparison could not be true.
---
 balloon_learning_environment/utils/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/transforms.py b/balloon_learning_environment/utils/transforms.py
index c92f7be..2cd83fc 100644
--- a/balloon_learning_environment/utils/transforms.py
+++ b/balloon_learning_environment/utils/transforms.py
@@ -89,6 +89,6 @@ def undo_squash_to_unit_interval(x: float, constant: float) -> float:
   """Computes the input value of squash_to_unit_interval given the output."""
   if constant <= 0:
     raise ValueError('Squash constant must be greater than zero.')
-  if 0 > x >= 1:
+  if not 0 <= x < 1:
     raise ValueError('Undo squash can only be performed on a value in [0, 1).')
   return (x * constant) / (1 - x)
-- 
2.43.0


From bfabc5d39a2191935f6f1e574b9b5f6e8ce11cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:06 +0000
Subject: [PATCH 07/30] fix: Energy >= other kind returned a (truthy)
 ValueError instead of raising it

---
 balloon_learning_environment/utils/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/units.py b/balloon_learning_environment/utils/units.py
index d923a96..7858d5e 100644
--- a/balloon_learning_environment/utils/units.py
+++ b/balloon_learning_environment/utils/units.py
@@ -249,7 +249,7 @@ class Energy(object):
     if isinstance(other, Energy):
       return self.watt_hours >= other.watt_hours
     else:
-      return ValueError(f'Cannot compare Energy and {type(other)}')
+      raise ValueError(f'Cannot compare Energy and {type(other)}')
 
 
 class Power(object):
-- 
2.43.0


From 6eee6d0fbbea99f8d7a95847cdae6e75df5886c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:40 +0000
Subject: [PATCH 08/30] fix: combine_eval_shards merged the shards of other
 models

Combining 'random' also read 'random_walk_0.json' and so on.
---
 balloon_learning_environment/eval/combine_eval_shards.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/balloon_learning_environment/eval/combine_eval_shards.py b/balloon_learning_environment/eval/combine_eval_shards.py
index 5abc5e0..47e0977 100644
--- a/balloon_learning_environment/eval/combine_eval_shards.py
+++ b/balloon_learning_environment/eval/combine_eval_shards.py
@@ -20,6 +20,7 @@ r"""Combines sharded eval results into a single json file.
 import glob
 import json
 import os
+import re
 from typing import Sequence
 
 from absl import app
@@ -46,6 +47,11 @@ def main(argv: Sequence[str]) -> None:
     data = list()
 
     for path in glob.glob(os.path.join(FLAGS.path, f'{model}_*.json')):
+      # Only <model>_<shard index>.json: the glob also matches the files of
+      # other models whose name starts with <model>_.
+      if not re.fullmatch(re.escape(model) + r'_\d+\.json',
+                          os.path.basename(path)):
+        continue
       with open(path, 'r') as f:
         data.extend(json.load(f))
 
-- 
2.43.0


From 3d2bdfa64d6b2e2c5ecd168d1ec519c7452d824a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:40 +0000
Subject: [PATCH 09/30] fix: BalloonArena.reset ignored NumPy integer seeds

They fell through to the time-based seed.
---
 balloon_learning_environment/env/balloon_arena.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon_arena.py b/balloon_learning_environment/env/balloon_arena.py
index f15e68a..75c6f5a 100644
--- a/balloon_learning_environment/env/balloon_arena.py
+++ b/balloon_learning_environment/env/balloon_arena.py
@@ -159,7 +159,7 @@ class BalloonArena(BalloonArenaInterface):
     self.reset(seed)
 
   def reset(self, seed: Union[int, jnp.ndarray, None] = None) -> np.ndarray:
-    if isinstance(seed, int):
+    if isinstance(seed, (int, np.integer)):
       self._rng = jax.random.PRNGKey(seed)
     elif isinstance(seed, (np.ndarray, jnp.ndarray)):
       self._rng = seed
-- 
2.43.0


From 8402eba2587752463da0d6c6d36ed901bde9849f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:00 +0000
Subject: [PATCH 10/30] fix: give end_episode of all agents the interface's
 default argument

Calling end_episode(reward), which the Agent interface allows, failed for the
MLP and StationSeeker agents.
---
 balloon_learning_environment/agents/mlp_agent.py            | 2 +-
 balloon_learning_environment/agents/station_seeker_agent.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/agents/mlp_agent.py b/balloon_learning_environment/agents/mlp_agent.py
index a3b5af1..d68bdd3 100644
--- a/balloon_learning_environment/agents/mlp_agent.py
+++ b/balloon_learning_environment/agents/mlp_agent.py
@@ -140,7 +140,7 @@ class MLPAgent(agent.Agent):
     self.last_action = action
     return action
 
-  def end_episode(self, reward: float, terminal: bool) -> None:
+  def end_episode(self, reward: float, terminal: bool = True) -> None:
     pass
 
   def set_mode(self, mode: Union[agent.AgentMode, str]) -> None:
diff --git a/balloon_learning_environment/agents/station_seeker_agent.py b/balloon_learning_environment/agents/station_seeker_agent.py
index a353bdf..83a68a7 100644
--- a/balloon_learning_environment/agents/station_seeker_agent.py
+++ b/balloon_learning_environment/agents/station_seeker_agent.py
@@ -66,7 +66,7 @@ class StationSeekerAgent(agent.Agent):
 
     return self.pick_action(observation)
 
-  def end_episode(self, reward: float, terminal: bool) -> None:
+  def end_episode(self, reward: float, terminal: bool = True) -> None:
     pass
 
   def pick_action(self, features_as_vector: np.ndarray) -> int:
-- 
2.43.0


From 6fffab40c95bcc645636107884347294d5e898a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:07 +0000
Subject: [PATCH 11/30] fix: sunrise and sunset times were up to an hour off

The binary search for the time at which the sun is at a given elevation
compared the distances to the target at the ends of the interval, which only
works when the distance is symmetric around the crossing. It is not: sunset
was up to 60 minutes off at latitude 50, and sunrise 12 minutes at latitude
10, inside the range where balloons start. Between solar midnight and noon
the elevation is monotonic, so search for the crossing itself.
---
 .../env/balloon/solar.py                      | 59 +++++++++++++++++--
 1 file changed, 55 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index d957a40..6366e2a 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -287,13 +287,64 @@ def _find_solar_elevation(
         latlng, min_time, max_time, operator.neg, time_delta)
   else:
     try:
-      # Turn the numerical value into an absolute loss function.
       target_numeric = float(target)
-      return _find_solar_elevation_binary_search(
-          latlng, min_time, max_time,
-          lambda x: abs(x - target_numeric), time_delta)
     except ValueError:
       raise ValueError('Unknown target type: {}'.format(target))
+    return _find_solar_elevation_crossing(
+        latlng, min_time, max_time, target_numeric, time_delta)
+
+
+def _find_solar_elevation_crossing(
+    latlng: s2.LatLng,
+    min_time: dt.datetime,
+    max_time: dt.datetime,
+    target: float,
+    time_delta=_SEARCH_TIME_DELTA) -> Tuple[dt.datetime, float]:
+  """Finds when the sun crosses an elevation in the given time interval.
+
+  This method assumes that on the given interval the elevation is monotonic,
+  as it is between solar noon and solar midnight. Note that the distance to
+  the target elevation isn't symmetric around the crossing.
+
+  Args:
+    latlng: Latitude/longitude at which to calculate.
+    min_time: Earliest time in the time interval to consider.
+    max_time: Latest time in the time interval to consider.
+    target: The elevation to be located.
+    time_delta: Resolution of search process.
+
+  Returns:
+    time: time in the interval at which the elevation is closest to target.
+    elevation: solar elevation at that time.
+  """
+  if max_time < min_time:
+    raise ValueError('Time interval must have positive extent.')
+
+  max_steps = int((max_time - min_time) / time_delta)
+  assert max_steps > 0
+
+  def _elevation(idx: int) -> float:
+    el_degree, _, _ = solar_calculator(latlng, min_time + time_delta * idx)
+    return el_degree
+
+  low = 0
+  high = max_steps
+  is_rising = _elevation(low) < _elevation(high)
+
+  # Keep the crossing between low and high.
+  while high > low + 1:
+    midpoint = (low + high) // 2
+    if (_elevation(midpoint) < target) == is_rising:
+      low = midpoint
+    else:
+      high = midpoint
+
+  if abs(_elevation(low) - target) < abs(_elevation(high) - target):
+    index = low
+  else:
+    index = high
+
+  return min_time + time_delta * index, _elevation(index)
 
 
 def _find_solar_elevation_binary_search(
-- 
2.43.0


From 8dd141ce0960d45bd0d17e161863baf615d7dfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:24 +0000
Subject: [PATCH 12/30] fix: WindGP queries with only stale measurements no
 longer crash

When every measurement was outside of the time horizon, query and
query_batch passed an empty training set to scikit-learn, which raises
ValueError. Such a query is now answered as if there were no measurements.
---
 balloon_learning_environment/env/wind_gp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/balloon_learning_environment/env/wind_gp.py b/balloon_learning_environment/env/wind_gp.py
index a19fbfc..49c28c0 100644
--- a/balloon_learning_environment/env/wind_gp.py
+++ b/balloon_learning_environment/env/wind_gp.py
@@ -183,6 +183,9 @@ class WindGP(object):
 
         inputs = inputs[fresh_observations]
         targets = targets[fresh_observations]
+
+        if not inputs.size:  # Same as having no measurements at all.
+          return WindGP(self.wind_forecast).query_batch(locations)
       self.model.fit(inputs, targets)
 
       # Output should be a N x 2 set of predictions about local measurements,
-- 
2.43.0


From 1986ff53b644f83bb8778f250dc11ae1da362827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:24 +0000
Subject: [PATCH 13/30] fix: WindGP reports the prior uncertainty when it has
 no measurements

The second value returned by query and query_batch is the posterior variance
normalised by the prior variance. Without measurements it was 0, that is,
complete certainty, instead of 1.
---
 balloon_learning_environment/env/wind_gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/wind_gp.py b/balloon_learning_environment/env/wind_gp.py
index 49c28c0..8936cbb 100644
--- a/balloon_learning_environment/env/wind_gp.py
+++ b/balloon_learning_environment/env/wind_gp.py
@@ -160,7 +160,7 @@ class WindGP(object):
     # observation. Should cache. Premature optimization is the root, etc.
     if not self.measurement_locations:
       means = np.zeros((locations.shape[0], 2))
-      deviations = np.zeros(locations.shape[0])
+      deviations = np.ones(locations.shape[0])
     else:
       if len(self.measurement_locations) == 1:
         # Needed because hstack will leave the dims unchanged with a single
-- 
2.43.0


From a15f099746bd7c4607c094340a49e09470518064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:16 +0000
Subject: [PATCH 14/30] fix: offsets that reach a pole no longer raise a math
 domain error

Rounding can make the sine of the new latitude exceed one, so it has to be
clamped before taking the arcsine, not after.
---
 balloon_learning_environment/utils/spherical_geometry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/balloon_learning_environment/utils/spherical_geometry.py b/balloon_learning_environment/utils/spherical_geometry.py
index 4b5c9a5..08b2f1c 100644
--- a/balloon_learning_environment/utils/spherical_geometry.py
+++ b/balloon_learning_environment/utils/spherical_geometry.py
@@ -69,8 +69,7 @@ def calculate_latlng_from_offset(center_latlng: s2.LatLng,
   d_lng = math.atan2(sin_angle * cos_from_lat * math.sin(heading),
                      cos_angle - sin_from_lat * sin_lat)
 
-  new_lat = math.asin(sin_lat)
-  new_lat = min(max(new_lat, -math.pi / 2.0), math.pi / 2.0)
+  new_lat = math.asin(min(max(sin_lat, -1.0), 1.0))
   new_lng = center_latlng.lng().radians + d_lng
 
   return s2.LatLng.from_radians(new_lat, new_lng).normalized()
-- 
2.43.0


From 31f48d42afca166f0c27c9648f81c2f4dea83083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:57 +0000
Subject: [PATCH 15/30] fix: checkpoint lookup and clean-up disagreed on what a
 checkpoint is

A file such as checkpoint_best.pkl hid every checkpoint of the directory from
get_latest_checkpoint, checkpoint_final.pkl made the clean-up raise, and
checkpoints of iterations above 99999 were never cleaned up.
---
 balloon_learning_environment/agents/dopamine_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index 24e3c65..c6092e6 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -38,7 +38,9 @@ def _is_checkpoint_name(file_name: str) -> bool:
   if len(parts) != 2:
     return False
 
-  return parts[0] == 'checkpoint' and len(parts[1]) == 5
+  # Iterations are zero-padded to five digits, but may have more.
+  return (parts[0] == 'checkpoint' and parts[1].isdigit() and
+          len(parts[1]) >= 5)
 
 
 def _get_checkpoint_iteration(checkpoint_name: str) -> int:
@@ -88,8 +90,6 @@ def load_checkpoint(
 def get_latest_checkpoint(checkpoint_dir: str) -> int:
   """Find the episode ID of the latest checkpoint, if any."""
   glob = osp.join(checkpoint_dir, 'checkpoint_*.pkl')
-  def extract_episode(x):
-    return int(x[x.rfind('checkpoint_') + 11:-4])
 
   try:
     checkpoint_files = tf.io.gfile.glob(glob)
@@ -98,7 +98,8 @@ def get_latest_checkpoint(checkpoint_dir: str) -> int:
     return -1
 
   try:
-    latest_episode = max(extract_episode(x) for x in checkpoint_files)
+    latest_episode = max(_get_checkpoint_iteration(x) for x in checkpoint_files
+                         if _is_checkpoint_name(x))
   except ValueError:
     return -1
   return latest_episode
-- 
2.43.0


From 1a16bd1bed415afd07821d41851f9670251dab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:57 +0000
Subject: [PATCH 16/30] fix: episodes that time out passed their last reward to
 the agent twice

The agent was stepped with the last reward, and then got the same reward from
end_episode, so that learning agents stored a transition for an action which
was never sent to the environment.
---
 balloon_learning_environment/train_lib.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/balloon_learning_environment/train_lib.py b/balloon_learning_environment/train_lib.py
index 768b3c0..62705e3 100644
--- a/balloon_learning_environment/train_lib.py
+++ b/balloon_learning_environment/train_lib.py
@@ -67,6 +67,11 @@ def _run_one_episode(env: balloon_env.BalloonEnv,
       final_episode_step = i + 1
       break
 
+    if i + 1 == max_episode_length:
+      # Timed out. The last reward is passed on by end_episode, and there is
+      # no further step to take.
+      break
+
     # Pass observation to agent, request new action.
     a = agent.step(r, obs)
 
-- 
2.43.0


From 7dc5ffec982d58f1cebd2e6e8a6bcdf5cfebf105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:57 +0000
Subject: [PATCH 17/30] fix: resuming training erased the console log of the
 earlier episodes

---
 balloon_learning_environment/metrics/console_collector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/metrics/console_collector.py b/balloon_learning_environment/metrics/console_collector.py
index e991604..6e900bf 100644
--- a/balloon_learning_environment/metrics/console_collector.py
+++ b/balloon_learning_environment/metrics/console_collector.py
@@ -52,7 +52,9 @@ class ConsoleCollector(collector.Collector):
 
   def pre_training(self) -> None:
     if self._log_file is not None:
-      self._log_file_writer = tf.io.gfile.GFile(self._log_file, 'w')
+      # Keep the log of the earlier episodes when training is resumed.
+      mode = 'a' if self.current_episode > 0 else 'w'
+      self._log_file_writer = tf.io.gfile.GFile(self._log_file, mode)
 
   def begin_episode(self) -> None:
     self._action_counts = np.zeros(self._num_actions)
-- 
2.43.0


From 68eb5f743a718ecf3fcb641c12308f6c9b68d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:57 +0000
Subject: [PATCH 18/30] fix: a checkpoint interrupted while it was written made
 training unable to resume

reload_latest_checkpoint raised EOFError or UnpicklingError although earlier
checkpoints were intact; it now falls back to the latest complete one.
---
 .../agents/dopamine_utils.py                  | 12 +++++----
 .../agents/dqn_agent.py                       | 26 ++++++++++++-------
 .../agents/quantile_agent.py                  | 26 ++++++++++++-------
 3 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/balloon_learning_environment/agents/dopamine_utils.py b/balloon_learning_environment/agents/dopamine_utils.py
index c6092e6..2c5580d 100644
--- a/balloon_learning_environment/agents/dopamine_utils.py
+++ b/balloon_learning_environment/agents/dopamine_utils.py
@@ -18,7 +18,7 @@
 import os.path as osp
 import pathlib
 import pickle
-from typing import Any, Dict, Callable
+from typing import Any, Dict, Callable, Optional
 
 from absl import logging
 import tensorflow as tf
@@ -87,8 +87,9 @@ def load_checkpoint(
     logging.warning('Call to parent `unbundle` failed.')
 
 
-def get_latest_checkpoint(checkpoint_dir: str) -> int:
-  """Find the episode ID of the latest checkpoint, if any."""
+def get_latest_checkpoint(checkpoint_dir: str,
+                          before: Optional[int] = None) -> int:
+  """Find the episode ID of the latest checkpoint (before `before`), if any."""
   glob = osp.join(checkpoint_dir, 'checkpoint_*.pkl')
 
   try:
@@ -98,8 +99,9 @@ def get_latest_checkpoint(checkpoint_dir: str) -> int:
     return -1
 
   try:
-    latest_episode = max(_get_checkpoint_iteration(x) for x in checkpoint_files
-                         if _is_checkpoint_name(x))
+    iterations = [_get_checkpoint_iteration(x) for x in checkpoint_files
+                  if _is_checkpoint_name(x)]
+    latest_episode = max(x for x in iterations if before is None or x < before)
   except ValueError:
     return -1
   return latest_episode
diff --git a/balloon_learning_environment/agents/dqn_agent.py b/balloon_learning_environment/agents/dqn_agent.py
index 606b083..6819454 100644
--- a/balloon_learning_environment/agents/dqn_agent.py
+++ b/balloon_learning_environment/agents/dqn_agent.py
@@ -16,6 +16,7 @@
 """A wrapper for training the Dopamine DQN agent."""
 
 import functools
+import pickle
 from typing import Optional, Sequence, Union
 
 from absl import logging
@@ -130,13 +131,18 @@ class DQNAgent(agent.Agent, dqn_agent.JaxDQNAgent):
 
   def reload_latest_checkpoint(self, checkpoint_dir: str) -> int:
     latest_episode = dopamine_utils.get_latest_checkpoint(checkpoint_dir)
-    if latest_episode < 0:
-      logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
-      return -1
-    try:
-      self.load_checkpoint(checkpoint_dir, latest_episode)
-      logging.info('Will restart training from episode %d', latest_episode)
-      return latest_episode
-    except ValueError:
-      logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
-      return -1
+    while latest_episode >= 0:
+      try:
+        self.load_checkpoint(checkpoint_dir, latest_episode)
+        logging.info('Will restart training from episode %d', latest_episode)
+        return latest_episode
+      except (EOFError, pickle.UnpicklingError):
+        # Interrupted while it was written, fall back to the one before.
+        logging.warning('Incomplete checkpoint %d at %s', latest_episode,
+                        checkpoint_dir)
+        latest_episode = dopamine_utils.get_latest_checkpoint(
+            checkpoint_dir, before=latest_episode)
+      except ValueError:
+        break
+    logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
+    return -1
diff --git a/balloon_learning_environment/agents/quantile_agent.py b/balloon_learning_environment/agents/quantile_agent.py
index 79e31a0..7837082 100644
--- a/balloon_learning_environment/agents/quantile_agent.py
+++ b/balloon_learning_environment/agents/quantile_agent.py
@@ -16,6 +16,7 @@
 """A wrapper for training the Dopamine QR-DQN agent."""
 
 import functools
+import pickle
 from typing import Callable, Optional, Sequence, Union
 
 from absl import logging
@@ -188,16 +189,21 @@ class QuantileAgent(agent.Agent, quantile_agent.JaxQuantileAgent):
 
   def reload_latest_checkpoint(self, checkpoint_dir: str) -> int:
     latest_episode = dopamine_utils.get_latest_checkpoint(checkpoint_dir)
-    if latest_episode < 0:
-      logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
-      return -1
-    try:
-      self.load_checkpoint(checkpoint_dir, latest_episode)
-      logging.info('Will restart training from episode %d', latest_episode)
-      return latest_episode
-    except ValueError:
-      logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
-      return -1
+    while latest_episode >= 0:
+      try:
+        self.load_checkpoint(checkpoint_dir, latest_episode)
+        logging.info('Will restart training from episode %d', latest_episode)
+        return latest_episode
+      except (EOFError, pickle.UnpicklingError):
+        # Interrupted while it was written, fall back to the one before.
+        logging.warning('Incomplete checkpoint %d at %s', latest_episode,
+                        checkpoint_dir)
+        latest_episode = dopamine_utils.get_latest_checkpoint(
+            checkpoint_dir, before=latest_episode)
+      except ValueError:
+        break
+    logging.warning('Unable to reload checkpoint at %s', checkpoint_dir)
+    return -1
 
   @staticmethod
   def load_perciatelli_weights() -> flax.core.FrozenDict:
-- 
2.43.0


From 3930b834e2fefeb107c8afbff8fc5687d6c61959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 19/30] fix: a second Perciatelli44 in a process used the model
 of the first

load_perciatelli_session imported every model into the process-wide default
graph. Names looked up afterwards ('q_values:0', 'Online/...') resolve to the
model that was imported first, so an agent, or the weights taken from it, could
silently belong to another model file than the one configured.
---
 balloon_learning_environment/agents/perciatelli44.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/balloon_learning_environment/agents/perciatelli44.py b/balloon_learning_environment/agents/perciatelli44.py
index a4654e0..cd1bd77 100644
--- a/balloon_learning_environment/agents/perciatelli44.py
+++ b/balloon_learning_environment/agents/perciatelli44.py
@@ -26,12 +26,15 @@ import tensorflow as tf
 def load_perciatelli_session() -> tf.compat.v1.Session:
   serialized_perciatelli = models.load_perciatelli44()
 
-  sess = tf.compat.v1.Session()
   graph_def = tf.compat.v1.GraphDef()
   graph_def.ParseFromString(serialized_perciatelli)
 
-  tf.compat.v1.import_graph_def(graph_def)
-  return sess
+  # Each session gets its own graph: in a shared one, the names looked up by
+  # the callers would refer to the model that was loaded first.
+  graph = tf.Graph()
+  with graph.as_default():
+    tf.compat.v1.import_graph_def(graph_def, name='')
+  return tf.compat.v1.Session(graph=graph)
 
 
 class Perciatelli44(agent.Agent):
-- 
2.43.0


From e7c2c414ce141dae29a9bd09e9faa2fbd16bc6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 20/30] fix: missing Perciatelli44 weights raised
 NotFoundError, not RuntimeError

TensorFlow's file API raises its own NotFoundError, as handled already by
load_offlineskies22; the documented RuntimeError was never raised.
---
 balloon_learning_environment/models/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/models/models.py b/balloon_learning_environment/models/models.py
index b33aecf..3dede13 100644
--- a/balloon_learning_environment/models/models.py
+++ b/balloon_learning_environment/models/models.py
@@ -122,7 +122,7 @@ def load_perciatelli44(path: Optional[str] = None) -> bytes:
   try:
     with tf.io.gfile.GFile(_PERCIATELLI44_RELATIVE_PATH, 'rb') as f:
       return f.read()
-  except FileNotFoundError:
+  except tf.errors.NotFoundError:
     pass
 
   raise RuntimeError(
-- 
2.43.0


From ab27ae8bc6d8c0c1c9c5267c59d3156af033a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 21/30] fix: with no fields reserved for evaluation, the eval
 batch was the whole training set

dataset[-0:] is the whole dataset.
---
 .../generative/dataset_wind_field_reservoir.py                | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/dataset_wind_field_reservoir.py b/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
index e1a6b52..9e4930f 100644
--- a/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
+++ b/balloon_learning_environment/generative/dataset_wind_field_reservoir.py
@@ -78,4 +78,6 @@ class DatasetWindFieldReservoir(wind_field_reservoir.WindFieldReservoir):
       vae.py).
     """
 
-    return self.dataset[-self.eval_batch_size:, ...]
+    # NOTE: -eval_batch_size would select the whole dataset if it is 0.
+    start = max(self.dataset.shape[0] - self.eval_batch_size, 0)
+    return self.dataset[start:, ...]
-- 
2.43.0


From 4cc75a31e3f1086d7f61deb875363636787ce4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 22/30] fix: MatplotlibRenderer could not render with current
 matplotlib

FigureCanvasAgg.tostring_rgb was removed in matplotlib 3.10, and setup.py does
not pin matplotlib; buffer_rgba exists in all supported versions.
---
 .../env/rendering/matplotlib_renderer.py                    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/rendering/matplotlib_renderer.py b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
index 4107140..f8eab58 100644
--- a/balloon_learning_environment/env/rendering/matplotlib_renderer.py
+++ b/balloon_learning_environment/env/rendering/matplotlib_renderer.py
@@ -108,10 +108,8 @@ class MatplotlibRenderer(renderer.Renderer):
       plt.pause(0.001)  # Renders the image and runs the GUI loop.
     elif mode == 'rgb_array' or mode == 'tensorboard':
       self._fig.canvas.draw()
-      rgb_string = self._fig.canvas.tostring_rgb()
-      width, height = self._fig.canvas.get_width_height()
-      frame = np.frombuffer(
-          rgb_string, dtype=np.uint8).reshape(height, width, -1)
+      # NOTE: tostring_rgb() no longer exists as of matplotlib 3.10.
+      frame = np.array(self._fig.canvas.buffer_rgba())[..., :3]
       if mode == 'rgb_array':
         return frame
 
-- 
2.43.0


From 730eeffa6f5f70cc6143c1460f73a9d65959748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:05 +0000
Subject: [PATCH 23/30] fix: balloon steps with strides that are no whole
 number of seconds

simulate_step truncated both durations to whole seconds: a 3 s step with a
1.5 s stride advanced by 4.5 s, strides below one second divided by zero and
a 20.5 s step with a 10 s stride was accepted.
---
 balloon_learning_environment/env/balloon/balloon.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/balloon_learning_environment/env/balloon/balloon.py b/balloon_learning_environment/env/balloon/balloon.py
index 5192aca..fe3eb39 100644
--- a/balloon_learning_environment/env/balloon/balloon.py
+++ b/balloon_learning_environment/env/balloon/balloon.py
@@ -322,13 +322,11 @@ class Balloon:
     effective_action = self.state.altitude_safety_layer.get_action(
         effective_action, atmosphere, self.state.pressure)
 
-    outer_stride = int(time_delta.total_seconds())
-    inner_stride = int(stride.total_seconds())
-    assert outer_stride % inner_stride == 0, (
+    assert time_delta % stride == dt.timedelta(), (
         f'The outer simulation stride (time_delta={time_delta}) must be a '
         f'multiple of the inner simulation stride (stride={stride})')
 
-    for _ in range(outer_stride // inner_stride):
+    for _ in range(time_delta // stride):
       state_changes = _simulate_step_internal(
           self.state, wind_vector, atmosphere, effective_action, stride)
       for k, v in state_changes.items():
-- 
2.43.0


From 2cc9b7f20bd76e2e11e3ff968b909ca3b69dc05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:07 +0000
Subject: [PATCH 24/30] fix: WindFieldVAE decoded to the default grid whatever
 its field_shape

---
 balloon_learning_environment/generative/vae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/vae.py b/balloon_learning_environment/generative/vae.py
index 9fcd3a6..5838df4 100644
--- a/balloon_learning_environment/generative/vae.py
+++ b/balloon_learning_environment/generative/vae.py
@@ -195,7 +195,7 @@ class WindFieldVAE(nn.Module):
 
   def setup(self):
     self.encoder = Encoder(self.num_latents)
-    self.decoder = Decoder()
+    self.decoder = Decoder(field_shape=self.field_shape)
     self.sigma = self.variable('params', 'sigma', lambda: 1.)
 
   def __call__(self, x: jnp.ndarray, z_rng: jnp.ndarray) -> VAEOutput:
-- 
2.43.0


From aa0613a4390f90c9b13138bea6ffac4e576ad53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:17 +0000
Subject: [PATCH 25/30] fix: is_station_keeping_winds failed when all winds lie
 on one line

---
 balloon_learning_environment/utils/wind.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/utils/wind.py b/balloon_learning_environment/utils/wind.py
index 723ebfc..000941e 100644
--- a/balloon_learning_environment/utils/wind.py
+++ b/balloon_learning_environment/utils/wind.py
@@ -35,7 +35,17 @@ def is_station_keeping_winds(wind_column: np.ndarray) -> bool:
     yes or no
   """
 
-  hull = scipy.spatial.ConvexHull(wind_column)
+  try:
+    hull = scipy.spatial.ConvexHull(wind_column)
+  except scipy.spatial.QhullError:
+    # The winds lie on one line, so their hull is a segment. It holds the
+    # origin if there is no wind at some level, or if two winds are opposite.
+    wind_column = np.asarray(wind_column, dtype=np.float64)
+    speeds = np.linalg.norm(wind_column, axis=1, keepdims=True)
+    if (speeds == 0.0).any():
+      return True
+    directions = wind_column / speeds
+    return bool((directions @ directions.T).min() < -1.0 + 1e-9)
   support = [wind_column[i, :] for i in hull.vertices]
   hull = scipy.spatial.Delaunay(support)
   return hull.find_simplex(np.zeros(2)) >= 0
-- 
2.43.0


From 9b79121ddde160fc3675dd73021cb4195aeccab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:09 +0000
Subject: [PATCH 26/30] fix: Julian day of the sun model around centuries that
 are no leap years

The Julian day formula needs the integer part of (month - 9) / 7; with the
real quotient the day is off by one from March to August 1900 and 2100 and in
January 1901 and 2101, which moves the sun by up to 0.4 degrees.
---
 balloon_learning_environment/env/balloon/solar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/balloon_learning_environment/env/balloon/solar.py b/balloon_learning_environment/env/balloon/solar.py
index 6366e2a..1ad468a 100644
--- a/balloon_learning_environment/env/balloon/solar.py
+++ b/balloon_learning_environment/env/balloon/solar.py
@@ -73,7 +73,8 @@ def solar_calculator(latlng: s2.LatLng,
   # Compute Julian day number from Gregorian calendar.
   julian_day_number = (367.0 * time.year - np.floor(7.0 * (time.year + np.floor(
       (time.month + 9.0) / 12.0)) / 4.0) - np.floor(3.0 * (np.floor(
-          (time.year + (time.month - 9.0) / 7.0) / 100.0) + 1.0) / 4.0) +
+          (time.year + np.trunc((time.month - 9.0) / 7.0)) / 100.0) + 1.0) /
+                                                                     4.0) +
                        np.floor(275.0 * time.month / 9.0) + time.day +
                        1721028.5)
 
-- 
2.43.0


From 1e5f0cbe9c8b72e80f5f5c4f3ede9cac61864305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:05 +0000
Subject: [PATCH 27/30] fix: the first own phase of the Acme combined actor
 lasts as long as the others

observe_first began the exploration episode and threw the first of its
actions away, so the action asked for at the first observation was already
the second one: the first own phase was one action (three minutes) short.
---
 balloon_learning_environment/acme_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/balloon_learning_environment/acme_utils.py b/balloon_learning_environment/acme_utils.py
index 284b71a..dac78b7 100644
--- a/balloon_learning_environment/acme_utils.py
+++ b/balloon_learning_environment/acme_utils.py
@@ -167,15 +167,21 @@ class CombinedActor(core.Actor):
   ):
     self._actor = actor
     self._exploration_actor = exploration_actor
+    self._is_first_action = False
 
   def select_action(self, observation: networks_lib.Observation):
     action = self._actor.select_action(observation)
-    action = self._exploration_actor.step(0, observation, action)
+    if self._is_first_action:
+      # No time has passed yet, so this isn't a step of the exploration.
+      self._is_first_action = False
+      action = self._exploration_actor.begin_episode(observation, action)
+    else:
+      action = self._exploration_actor.step(0, observation, action)
     return np.array(action, dtype=np.int32)
 
   def observe_first(self, timestep: dm_env.TimeStep):
     self._actor.observe_first(timestep)
-    self._exploration_actor.begin_episode(timestep.observation, 42)
+    self._is_first_action = True
 
   def observe(self, action: networks_lib.Action,
               next_timestep: dm_env.TimeStep):
-- 
2.43.0


From e47694ab7c291851cae3c9d1437deb0ae3d74607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:20 +0000
Subject: [PATCH 28/30] fix: training of the wind generator survives its first
 epoch

It reported to measurement series that do not exist in this repository, so
every run ended in a NameError after its first epoch, before the first
checkpoint was saved.
---
 .../generative/learn_wind_field_generator.py                  | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/balloon_learning_environment/generative/learn_wind_field_generator.py b/balloon_learning_environment/generative/learn_wind_field_generator.py
index bce2a3e..4a6d57c 100644
--- a/balloon_learning_environment/generative/learn_wind_field_generator.py
+++ b/balloon_learning_environment/generative/learn_wind_field_generator.py
@@ -286,10 +286,6 @@ def train(num_batches_per_epoch: int = 200,
     avg_batch_wind_speed = jnp.array(batch_wind_speeds).mean()
     avg_sigma = jnp.array(sigma).mean()
 
-    mse_series.create_measurement(metrics['mse'], epoch)
-    kld_series.create_measurement(metrics['kld'], epoch)
-    loss_series.create_measurement(avg_training_loss, epoch)
-
     logging.info(
         'epoch: %d, mse: %.4f, kld: %.4f, train loss: %.4f, sigma: %.4f', epoch,
         metrics['mse'], metrics['kld'], avg_training_loss, avg_sigma)
-- 
2.43.0


From fdbf5b1a16c63b53d76f7f93a64f179e9561f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:20 +0000
Subject: [PATCH 29/30] fix: train/sigma is the mean over the epoch, like the
 other training metrics

The value of the last batch was reported as the average.
---
 .../generative/learn_wind_field_generator.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/learn_wind_field_generator.py b/balloon_learning_environment/generative/learn_wind_field_generator.py
index 4a6d57c..a0f5b64 100644
--- a/balloon_learning_environment/generative/learn_wind_field_generator.py
+++ b/balloon_learning_environment/generative/learn_wind_field_generator.py
@@ -284,7 +284,7 @@ def train(num_batches_per_epoch: int = 200,
     avg_mse_loss = jnp.array(mses).mean()
     avg_kld_loss = jnp.array(klds).mean()
     avg_batch_wind_speed = jnp.array(batch_wind_speeds).mean()
-    avg_sigma = jnp.array(sigma).mean()
+    avg_sigma = jnp.array(sigmas).mean()
 
     logging.info(
         'epoch: %d, mse: %.4f, kld: %.4f, train loss: %.4f, sigma: %.4f', epoch,
-- 
2.43.0


From 175189c7a0c3109c2f0da78aba7348a673e5dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:09 +0000
Subject: [PATCH 30/30] fix: the wind generator is trained for num_epochs
 epochs

Epochs are counted from one, and the last one was left out.
---
 .../generative/learn_wind_field_generator.py                    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/balloon_learning_environment/generative/learn_wind_field_generator.py b/balloon_learning_environment/generative/learn_wind_field_generator.py
index a0f5b64..a403c55 100644
--- a/balloon_learning_environment/generative/learn_wind_field_generator.py
+++ b/balloon_learning_environment/generative/learn_wind_field_generator.py
@@ -258,7 +258,7 @@ def train(num_batches_per_epoch: int = 200,
   else:
     summary_writer = None
 
-  for epoch in range(epoch, int(num_epochs)):
+  for epoch in range(epoch, int(num_epochs) + 1):
     kl_coefficient = kl_schedule(epoch)
     losses = []
     mses = []
-- 
2.43.0

