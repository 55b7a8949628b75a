"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = 'balloon_learning_environment/'
E, B = P + 'env/', P + 'env/balloon/'
OUT = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
  assert len(title) <= 80, (id, len(title))
  d = dict(id=id, title=title, statement=statement,
           quantifier=dict(over=over, text=qtext), why_tests_cant=why,
           anchors=dict(files=files,
                        mechanism=[dict(name=n, where=w) for n, w in mech],
                        observe_at=observe, hook_needed=None))
  if state:
    d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
  OUT.append(d)

prop('C01', 'Gym contract of the environment over every action sequence',
 'For every seed and every sequence of actions, each observation lies in the declared observation space (finite, in its bounds and of its dtype), each reward is a finite number in [0, 1], actions other than down, stay and up are refused, and each step advances simulated time by exactly three minutes unless the flight ends midway. A step reports the episode as over exactly when the balloon has run out of power, burst or hit zero pressure, and its info flags (out_of_power, envelope_burst, zeropressure) name exactly that one cause, together with the time elapsed since the episode began. From then on stepping is refused (AssertionError) without any change of the simulation (only the requested command is recorded) until the environment is reset, and resetting always yields a live episode with elapsed time zero.',
 ['histories', 'inputs'], 'all action words up to a depth bound, from fresh and from near-terminal states, over several seeds and wind fields, including continuing past termination and resetting',
 'balloon_env_test steps a handful of times with a mocked or static wind; nothing walks all action words, crosses a terminal state of each kind, or steps after it.',
 [E+'balloon_env.py', E+'balloon_arena.py', E+'features.py'],
 [('step/reset/terminal flags', E+'balloon_env.py:BalloonEnv.step'), ('stride and simulate', E+'balloon_arena.py:BalloonArena.step'), ('observation space', E+'features.py:PerciatelliFeatureConstructor.observation_space')],
 ['BalloonEnv.reset', 'BalloonEnv.step', 'BalloonEnv.get_simulator_state'])

prop('C02', 'Seeds determine episodes and nothing else leaks in',
 'Two environments built with the same seed and given the same actions produce identical observations, rewards, infos and final states, whatever else happened before or in between: other instances stepping, earlier episodes after an explicit seed, or use of the global random generators. Seeding on construction, by the seed method or (for the arena) by a reset argument are equivalent routes, and different seeds give different episodes. Nothing in the simulation reads or disturbs the global random generators.',
 ['histories', 'schedules', 'inputs'], 'all interleavings of two or three instances of a few operations each, all seeding routes, all short histories before the seeding call',
 'Tests compare two fresh runs of one seed; they do not interleave instances, vary history before seeding or perturb the global generators.',
 [E+'balloon_env.py', E+'balloon_arena.py', E+'simplex_wind_noise.py', P+'utils/sampling.py'],
 [('seed routing', E+'balloon_env.py:BalloonEnv.seed'), ('key splitting', E+'balloon_arena.py:BalloonArena.reset')],
 ['BalloonEnv', 'BalloonArena.reset', 'BalloonArena.step'])

prop('C03', 'Altitude guard never lets the balloon be driven below the safe altitude',
 'Once the balloon is below the minimum safe altitude (50,000 ft) the guard commands up whatever was requested, from there to one buffer (500 ft) above it never passes a down command (down becomes stay), and once it has restricted it keeps turning down into stay until the balloon has reached two buffers (51,000 ft): hysteresis. Otherwise, and at or above 51,000 ft always, commands pass through unchanged, and commands other than down are never changed above the minimum safe altitude. Its navigation-paused indicator is on exactly while it restricts commands, and the decision depends only on the history of altitudes shown to that guard.',
 ['histories', 'inputs'], 'all sequences of (altitude band, action) up to a depth that exceeds the number of guard states, with band representatives on, just above and just below every threshold, for several atmospheres',
 'altitude_safety_test checks single steps from chosen states, not the reachable state graph or boundaries.',
 [B+'altitude_safety.py'], [('AltitudeSafetyLayer transition', B+'altitude_safety.py:AltitudeSafetyLayer.get_action')],
 ['AltitudeSafetyLayer.get_action', 'AltitudeSafetyLayer.navigation_is_paused'],
 [('state', 'hysteresis state of the guard', B+'altitude_safety.py')])

prop('C04', 'Envelope guard keeps superpressure away from zero and from bursting',
 'Near zero pressure and near the maximum superpressure the guard never passes a down command (down becomes stay; in the critical bands within 150 Pa of either end the command becomes up), and once triggered (within 250 Pa) it keeps restricting until superpressure is at least 300 Pa from that end: hysteresis. Otherwise commands pass through unchanged, and an up command is never changed. Its navigation-paused indicator is on exactly while it restricts commands, and the decision depends only on the history of superpressures shown to that guard and its configured maximum superpressure.',
 ['histories', 'inputs'], 'all sequences of (superpressure band, action) up to a depth exceeding the number of guard states, with representatives at and one ulp either side of every threshold, for several burst limits',
 'envelope_safety_test checks single transitions from chosen states.',
 [B+'envelope_safety.py'], [('EnvelopeSafetyLayer transition', B+'envelope_safety.py:EnvelopeSafetyLayer.get_action')],
 ['EnvelopeSafetyLayer.get_action', 'EnvelopeSafetyLayer.navigation_is_paused'])

prop('C05', 'Power guard sheds pumping when night power would run out',
 'During the night, when the battery would fall below 2.5 % of its capacity before half an hour after the next sunrise under the fixed night-time hotel load, the guard turns a down command into stay, and it keeps doing so until it is day and the battery has at least 5 % charge; it never alters stay or up, and never starts to restrict during the day. The indicator that navigation is paused is on exactly while it is shedding load. The decision is a function of the battery state, the power parameters and the sun times of the start location, tracked day after day as simulated time advances.',
 ['histories', 'inputs'], 'all sequences over (time step, charge band, action) up to a depth over several days, for start locations and dates across the supported latitudes',
 'power_safety_test checks a few instants on one date.',
 [B+'power_safety.py', B+'solar.py'], [('PowerSafetyLayer.get_action', B+'power_safety.py')],
 ['PowerSafetyLayer.get_action', 'PowerSafetyLayer.navigation_is_paused'])

prop('C06', 'Guards compose in flight: priority, honest records and no bypass',
 'In every reachable flight state the command the altitude control system actually executes is the requested one filtered by the power guard (unless disabled by configuration), then by the envelope guard, then by the altitude guard, the last having the final say. The balloon state always records the latest requested command, and pump power and air flow always correspond to the command actually executed. Disabling the power guard changes nothing but that guard.',
 ['histories', 'inputs'], 'all action words up to a depth from states placed in every combination of guard conditions (altitude band x superpressure band x charge band x time of day x guard flag)',
 'balloon_test exercises each guard separately with the others idle.',
 [B+'balloon.py', B+'altitude_safety.py', B+'envelope_safety.py', B+'power_safety.py'],
 [('Balloon.simulate_step safety chain', B+'balloon.py:Balloon.simulate_step'), ('acs and power update', B+'balloon.py:Balloon._simulate_step_internal')],
 ['BalloonState.acs_power', 'BalloonState.acs_mass_flow', 'BalloonState.last_command'])

prop('C07', 'The physics step moves every state variable by its stated law',
 'A simulation step displaces the balloon by exactly wind times elapsed time, changes pressure by the buoyancy and drag balance, and updates internal temperature, envelope volume, superpressure, solar charging, power load, battery charge and ballast air by the documented law from the previous state only, with the constants of the documented vehicle. Battery charge always stays within zero and capacity, ballast air never goes below zero, and elapsed and date time both advance by exactly the step. Variables not governed by the step (such as start location, lift gas and masses) never change.',
 ['inputs', 'histories'], 'a lattice of states (pressure, temperature, charge, ballast air, superpressure, time of day, start latitude, displacement) x wind x action, plus all action words from several starts',
 'balloon_test checks signs and selected magnitudes from one state; no reference trajectory exists.',
 [B+'balloon.py', B+'thermal.py', B+'acs.py', B+'solar.py'], [('one stride of the simulation', B+'balloon.py:Balloon._simulate_step_internal')],
 ['Balloon.simulate_step', 'BalloonState'])

prop('C08', 'Terminal status is exact, sticky, and strides compose',
 'A balloon becomes out-of-power exactly when its battery is empty, burst exactly when superpressure exceeds its limit, and zero-pressure exactly when superpressure is not positive (in that order of precedence: out of power, zero pressure, burst); otherwise its status stays OK. When a step ends a flight midway no further physics is applied in that step, and simulating from a terminal state is refused (AssertionError) and changes nothing of the flight. Simulating an outer step with a given inner stride equals simulating each inner stride in turn with the same command, and a step that is not a whole number of strides is rejected (AssertionError).',
 ['histories', 'inputs'], 'states placed one stride before, at and after every terminal boundary, at each stride index of an outer step, every divisor and non-divisor stride, and strides that are no whole number of seconds',
 'Tests reach each terminal cause once or not at all and never mid-step.',
 [B+'balloon.py'], [('status and early exit', B+'balloon.py:Balloon.simulate_step')],
 ['BalloonState.status', 'Balloon.simulate_step'])

prop('C09', 'Envelope volume and superpressure solve is physical',
 'The envelope volume and superpressure computed for any gas amount, temperature and ambient pressure satisfy the ideal gas law together with the envelope stiffness law: while the envelope is slack superpressure is exactly zero and the volume is the gas volume at ambient pressure, and once it is full the volume is the base volume stretched linearly by superpressure. Superpressure is never negative. Volume and superpressure are continuous and non-decreasing in gas amount and temperature and volume is non-increasing in ambient pressure.',
 ['inputs'], 'an exhaustive lattice over gas amount, ballast air, temperature, pressure, envelope constants, including the fill point and its neighbours',
 'balloon_test checks a couple of points.',
 [B+'balloon.py'], [('superpressure and volume solve', B+'balloon.py:Balloon.calculate_superpressure_and_volume')],
 ['Balloon.calculate_superpressure_and_volume', 'BalloonState.superpressure'])

prop('C10', 'Pump and power tables are monotone, bounded and match their data',
 'Pump power and pump efficiency are functions of the pressure ratio (and power) that reproduce the calibration points, interpolate linearly between them and hold the edge values outside them, so power lies in 100 to 400 W. The mass flow of the pump is efficiency times power in units of mass per time and is positive for every pressure ratio at which a balloon can fly, so that commanding down always moves air in. The flight-time power budget table returns its calibrated value for every pressure ratio and state of charge in its domain, higher charge never lowering the budget, and refuses ratios outside the domain (AssertionError).',
 ['inputs'], 'every table cell, its corners and one ulp either side, and a fine lattice beyond both ends',
 'acs_test and power_table tests check a few entries.',
 [B+'acs.py', B+'power_table.py'], [('ACS interpolators', B+'acs.py'), ('lookup', B+'power_table.py')],
 ['acs.get_most_efficient_power', 'acs.get_fan_efficiency', 'acs.get_mass_flow', 'power_table.lookup'])

prop('C11', 'Sun model is one consistent sky for every place and instant',
 'The solar elevation and flux depend only on the instant and place, not on the time zone used to write the instant, vary continuously in time, agree with an independent astronomical calculation, and invalid latitudes, longitudes and naive times are refused. The reported next sunrise and sunset are, to within a few minutes, the first crossings of the minimum sun elevation after the query (latitudes beyond 60 degrees are refused), and noon and midnight are the daily extremes. Solar power on the panels is never negative, is zero when the sun is below its minimum elevation, never exceeds the unshaded panel output, and atmospheric attenuation lies in [0, 1], increasing with elevation and altitude.',
 ['inputs'], 'a lattice of latitude x longitude x day of year x time of day x time zone x pressure',
 'solar_test checks a few instants in UTC.',
 [B+'solar.py'], [('solar_calculator', B+'solar.py:solar_calculator'), ('solar_power', B+'solar.py:solar_power'), ('get_next_sunrise_sunset', B+'solar.py')],
 ['solar.solar_calculator', 'solar.get_next_sunrise_sunset', 'solar.calculate_solar_noon/midnight', 'solar.solar_power', 'solar.solar_atmospheric_attenuation'])

prop('C12', 'Standard atmosphere maps altitude, pressure and temperature consistently',
 'For every atmosphere draw, altitude to pressure and pressure to altitude are mutual inverses, continuous and strictly decreasing over the supported range; both report the same temperature for the same level, and queries outside the supported range are refused rather than extrapolated. Density obeys the ideal gas law. A draw is a function of its key, and every draw lies between the two documented extreme lapse-rate profiles.',
 ['inputs', 'configurations'], 'a lattice of altitudes and pressures including every layer boundary and one ulp either side, over many atmosphere keys',
 'standard_atmosphere_test samples a few altitudes.',
 [B+'standard_atmosphere.py'], [('Atmosphere.at_pressure/at_height', B+'standard_atmosphere.py:Atmosphere')],
 ['Atmosphere.at_pressure', 'Atmosphere.at_height'])

prop('C13', 'Initial balloons are in equilibrium and heat flow is physical',
 'For every start pressure, time, place and atmosphere the initialisation leaves the balloon neutrally buoyant with a radiatively balanced internal temperature and matching volume and superpressure and a non-negative amount of ballast air, so that an unforced first stride barely moves it vertically (within 2 % of its pressure). The internal temperature rate pulls toward the radiative and convective balance: its derivative decreases with internal temperature, increases with solar and earth heating and vanishes at the equilibrium. The absorptivity and convection helpers are non-negative and continuous in their arguments.',
 ['inputs'], 'a lattice of start pressure x time x place x atmosphere, and of temperatures around the equilibrium',
 'stable_init_test checks a few starts.',
 [B+'stable_init.py', B+'thermal.py'], [('cold_start_to_stable_params', B+'stable_init.py'), ('d_balloon_temperature_dt', B+'thermal.py')],
 ['stable_init.cold_start_to_stable_params', 'thermal.d_balloon_temperature_dt', 'Balloon.simulate_step'])

prop('C14', 'Reward is the documented function of distance and pump power',
 'The per-step reward is 1.0 within the station-keeping radius (50 km) and outside it 0.4 halved every 100 km beyond the radius; if the last requested command was down and there is no excess energy it is multiplied by 0.95 - 0.3 times the pump power above 100 W relative to 200 W (saturated to [0, 1]). Excess energy means that solar power exceeds the daytime load and the battery is over 99 % full; radius, cliff and halving distance follow the parameters given to the reward function. It is non-increasing in horizontal distance and in pump power, depends on nothing else, and is what the environment returns, once per step, for the state reached by that step, also when another reward function is configured.',
 ['inputs', 'configurations'], 'a lattice of distances (including both sides of the radius) x directions x pump powers x excess solar flags x reward parameters',
 'balloon_env_test checks a few distances.',
 [E+'balloon_env.py'], [('perciatelli_reward_function', E+'balloon_env.py')],
 ['perciatelli_reward_function', 'BalloonEnv.step reward'])

prop('C15', 'Saving and restoring the simulator is invisible to the future',
 "A copy of the simulator state taken at any point of an episode and restored, in the same arena or in another one, makes the balloon state, atmosphere and wind field identical and leaves the continuation identical: the same flight, and the same ambient features. Observations handed out earlier are never changed by later steps or by the caller's changes to them. Copies of the whole arena or environment made by deep copy or pickling continue exactly as the original does, and independently of it.",
 ['histories', 'crash_points'], 'every position of a save and of a restore in every action word up to a depth, into the same and into a fresh arena',
 'balloon_arena_test sets and reads back one state without continuing.',
 [E+'balloon_arena.py', E+'simulator_data.py', B+'balloon.py'], [('get/set_simulator_state', E+'balloon_arena.py')],
 ['BalloonArena.get_simulator_state', 'BalloonArena.set_simulator_state', 'BalloonArena.step'])

prop('C16', 'Grid wind forecast interpolates its grid and saturates at its edges',
 'The grid forecast returns the stored wind exactly at grid nodes and the multilinear interpolation between them, holds the edge value outside the horizontal and pressure extent, and beyond the last time of the grid runs backward and forward again (boomerang) with the grid period. The forecast for a column of pressures equals the forecasts at each of its points, and a query is a pure function of position, pressure, time and the loaded field (loading another field replaces it entirely). Asking before a field was loaded is an error (RuntimeError), and the deprecated GenerativeWindField follows the same rule.',
 ['inputs'], 'all grid nodes, cell midpoints and boundary neighbours of small fields with distinct values, all times over several boomerang periods, all single and column queries',
 'grid_based_wind_field_test samples random points of a random field.',
 [E+'grid_based_wind_field.py', E+'grid_wind_field_sampler.py'], [('get_forecast', E+'grid_based_wind_field.py')],
 ['GridBasedWindField.get_forecast', 'GridBasedWindField.get_forecast_column'])

prop('C17', 'Ground-truth wind is forecast plus a fixed, bounded noise field',
 'At every place, pressure and time the true wind equals the forecast plus the noise of the episode, and the noise is the documented weighted sum of five harmonics per component: a deterministic continuous function of the position and the episode key alone, independent of the order or number of queries. Its components are independent fields of bounded magnitude that average to zero. Resetting with the same key restores the same noise, another key gives another, and asking before a reset is refused (ValueError).',
 ['inputs', 'histories'], 'a lattice of positions, pressures and times including the wrap boundaries over several keys; all orders of short query sequences',
 'simplex_wind_noise_test samples statistics for one seed.',
 [E+'wind_field.py', E+'simplex_wind_noise.py'], [('get_ground_truth', E+'wind_field.py:WindField.get_ground_truth'), ('NoisyWindComponent', E+'simplex_wind_noise.py')],
 ['WindField.get_ground_truth', 'SimplexWindNoise.get_wind_noise'])

prop('C18', 'Wind belief equals the exact posterior of the measurements seen',
 'For every history of measurements the wind belief at any location equals the forecast plus the exact Gaussian process posterior mean of the deviations given the measurements less than six hours away from the queried time, and its uncertainty equals the exact posterior variance relative to the prior one. Querying never changes later answers, single and batch queries agree, and answers do not depend on how queries and observations are interleaved. Before any measurement the belief is the forecast itself with the prior uncertainty (one), and resetting forgets all measurements.',
 ['histories', 'inputs'], 'all words over (observe at one of several places and times, query point, query column, reset) up to a depth',
 'wind_gp_test checks one or two measurements against loose bounds.',
 [E+'wind_gp.py'], [('WindGP.query/observe', E+'wind_gp.py')],
 ['WindGP.observe', 'WindGP.query', 'WindGP.query_batch'])

prop('C19', 'Observation features encode the true state and decode back',
 'Every ambient feature of the observation vector equals the documented normalisation of the quantity of the balloon state it names, and the wind columns are the belief at the 181 pressure levels, centred on the balloon in 361 slots, with levels outside the accessible range or the column marked as unreachable (0, 1, 1). Reading the vector through the named view gives back the quantities the state had, and out-of-range levels are refused (ValueError). Features depend only on the observation history since the last reset.',
 ['inputs', 'histories'], 'a lattice of balloon states (each field over extreme and interior values) and all short observation histories',
 'features_test checks selected features of one default state and does not round trip the named view.',
 [E+'features.py'], [('PerciatelliFeatureConstructor.get_features', E+'features.py'), ('NamedPerciatelliFeatures', E+'features.py')],
 ['PerciatelliFeatureConstructor', 'NamedPerciatelliFeatures'])

prop('C20', 'Accessible pressure range is where the balloon can really hold',
 'For every state and atmosphere the reported accessible range is ordered and its ends are what an independent solution of the equilibrium gives: at the low-pressure end the balloon has no ballast air left or superpressure has reached its limit, and at the high-pressure end it has reached the altitude guard or superpressure has reached its minimum or maximum. It is refused with ValueError when no level is safe. It depends only on the state and the atmosphere.',
 ['inputs'], 'a lattice of balloon states x atmospheres with a bisection reference',
 'pressure_range_builder tests check one typical state.',
 [B+'pressure_range_builder.py'], [('get_pressure_range', B+'pressure_range_builder.py')],
 ['pressure_range_builder.get_pressure_range'])

prop('C21', 'Unit types are an exact, safe arithmetic',
 'Converting a quantity to any of its units and back is the identity to rounding, sums, differences, scalings and ratios agree with real arithmetic in any unit, and comparisons order quantities as real numbers do. Combining quantities of different kinds is refused, and stride and date helpers agree with calendar arithmetic across time zones.',
 ['inputs'], 'the product of a value lattice with every unit, operator and pair of kinds',
 'units_test checks selected conversions.',
 [P+'utils/units.py', P+'utils/constants.py'], [('Distance/Velocity/Energy/Power', P+'utils/units.py')],
 ['units.Distance', 'units.Velocity', 'units.Power', 'units.Energy', 'units.relative_distance'])

prop('C22', 'Scaling transforms invert and samplers stay in their ranges',
 "Each scaling transform maps its documented domain into the unit interval monotonically and its inverse undoes it; inputs outside an inverse's domain are refused. Every sampler returns values inside its documented range (latitude within 10 degrees of the equator, longitude within 175, dates from 2011 to 2014, pressure from 6500 Pa to the altitude of 50,000 ft, upwelling infrared from 225 to 315 W/m^2) and reaches all of it, refuses unknown distributions, and is a function of its key. Every episode starts inside these ranges and within 200 km of the station, with separate keys for separate quantities.",
 ['inputs'], 'a fine lattice with boundaries for the transforms; a key lattice for the samplers; a seed range for the starts of episodes',
 'transforms_test and sampling_test check a few points or one key.',
 [P+'utils/transforms.py', P+'utils/sampling.py', P+'env/balloon_arena.py'], [('linear_rescale/squash', P+'utils/transforms.py'), ('samplers', P+'utils/sampling.py'), ('start of an episode', P+'env/balloon_arena.py')],
 ['transforms.*', 'sampling.*', 'BalloonArena.reset'])

prop('C23', 'Moving over the Earth is geometrically faithful',
 'Offsetting a position by east and north distances moves it along a great circle of a 6371 km sphere by that distance in that direction, also across poles and the antimeridian; zero offset is the identity, longitude wraps, and positions survive pickling. The reported position of a balloon is its start location offset by its displacement. A wind moves a balloon east for positive u and north for positive v.',
 ['inputs'], 'a lattice of latitudes, longitudes (including the antimeridian) and offsets',
 'spherical_geometry_test checks two offsets.',
 [P+'utils/spherical_geometry.py'], [('calculate_latlng_from_offset', P+'utils/spherical_geometry.py')],
 ['spherical_geometry.calculate_latlng_from_offset', 'BalloonState.latlng'])

prop('C24', 'A checkpoint is complete, recoverable and never costs the last good one',
 'Loading a checkpoint that was saved restores exactly what was saved, and resuming uses the highest iteration whose checkpoint is complete, falling back to the latest earlier complete one when a crash tore the newest; an empty or missing directory has none. A crash at any point of saving or cleaning up never destroys or hides a checkpoint that was completed earlier and lies within the retention window. Clean-up deletes exactly the checkpoints that have fallen out of the window (iterations older than the checkpoint duration), and foreign files are neither mistaken for checkpoints nor touched.',
 ['crash_points', 'histories', 'fault_sequences'], 'every write operation of every save and clean-up history of a few iterations as a crash point, with whole and torn final writes, followed by recovery',
 'dopamine_utils_test mocks the file layer.',
 [P+'agents/dopamine_utils.py', P+'train_lib.py', P+'agents/marco_polo_exploration.py', P+'agents/quantile_agent.py'],
 [('save/load/clean_up/get_latest_checkpoint', P+'agents/dopamine_utils.py')],
 ['dopamine_utils.save_checkpoint', 'dopamine_utils.load_checkpoint', 'dopamine_utils.get_latest_checkpoint'])

prop('C25', 'Training drives agent, environment and metrics in strict order',
 "Whatever episode lengths occur, training runs exactly the requested number of iterations of whole episodes: each begins with an environment reset and the agent's first action, feeds every reward with its observation to the agent in order and exactly once, ends with exactly one end-of-episode call that says whether the episode truly terminated, and cuts off at the step limit (the last reward then goes to the end-of-episode call only). Metrics see training bracketed by begin and end, one begin and one end per episode with every transition, and the environment is rendered every render period. Checkpoints are saved after every iteration, and restarting from any checkpoint continues at the iteration after it.",
 ['histories', 'crash_points'], 'all combinations of episode length, limit, iteration and episode counts in small bounds; every restart iteration',
 'train_lib_test checks call counts for one configuration with mocks.',
 [P+'train_lib.py'], [('run_training_loop', P+'train_lib.py')],
 ['calls seen by the agent, environment and metrics', 'checkpoint directory'])

prop('C26', 'Metrics report what happened, per episode and overall',
 'Each statistics collector receives the life-cycle events in order, once each, and every transition once; the dispatcher forwards every event to all collectors in the configured order and only those configured exist. The action counts, rewards and lengths the collectors write are those of the events they received, reset at each episode. Files land in the directory given, and resuming keeps what was written before.',
 ['histories'], 'all event words accepted by the training protocol up to a depth, over all subsets of collectors',
 'Collector tests feed one fixed word.',
 [P+'metrics/collector.py', P+'metrics/collector_dispatcher.py', P+'metrics/console_collector.py', P+'metrics/pickle_collector.py', P+'metrics/tensorboard_collector.py'],
 [('CollectorDispatcher', P+'metrics/collector_dispatcher.py')],
 ['files written by the collectors', 'summary writer calls'])

prop('C27', 'Evaluation reports faithful, seed-keyed episode results',
 'For any agent and suite, evaluation runs exactly one episode per seed in order, each seeded by its own seed, in evaluation mode, capped at the suite\'s maximum length. Each result reports the seed, the total reward, the fraction of steps within the station radius, the terminal flags, the final step and the flight path that the episode actually had, and writing and reading results as JSON preserves them.',
 ['histories', 'inputs'], 'all small combinations of seeds, lengths, terminal causes and distances through a scripted environment',
 'eval_lib_test checks totals for one scripted agent.',
 [P+'eval/eval_lib.py'], [('eval_agent', P+'eval/eval_lib.py'), ('EvalResultEncoder', P+'eval/eval_lib.py')],
 ['eval_lib.eval_agent', 'eval_lib.EvaluationResult', 'JSON output'])

prop('C28', 'Sharded evaluation covers every seed exactly once and recombines',
 "For every suite size and shard count the shards are disjoint and together contain each seed of the suite exactly once, and the results are written to the file named after the agent (or the name override), checkpoint and shard. Combining the shard files of a model reproduces exactly the results of the unsharded evaluation of that model, sorted by seed, using only that model's shards. Flight paths are kept in the combined results only when asked for.",
 ['inputs', 'configurations'], 'all suite sizes and shard counts up to a bound; all small directories of shard files with other models\' files present',
 'There is no test of the combine script and eval_test samples one shard count.',
 [P+'eval/eval.py', P+'eval/combine_eval_shards.py'], [('shard slicing', P+'eval/eval.py'), ('combine', P+'eval/combine_eval_shards.py')],
 ['the files written by the two scripts'])

prop('C29', 'Evaluation suites are fixed, disjoint and well formed',
 'Each named suite always yields the same seeds and maximum length, whatever callers did with earlier returned suites, and unknown names are refused. The difficulty strata are disjoint and without duplicates, and the strata suites are the complete published strata (all_strata from hardest to easiest).',
 ['histories', 'inputs'], 'every suite name and stratum, before and after every short sequence of mutations of returned suites',
 'suites_test checks sizes of some suites.',
 [P+'eval/suites.py', P+'eval/strata_seeds.py'], [('get_eval_suite', P+'eval/suites.py')],
 ['suites.get_eval_suite', 'suites.available_suites'])

prop('C30', 'MarcoPolo exploration alternates phases as specified',
 "Every training episode is exploratory with the configured probability, drawn from the given key and independent of other episodes and of what happened in them; every episode starts with the agent's own actions, and in exploratory episodes four hours of the agent's actions alternate with two hours of the exploration policy's. Phase and clock restart every episode, the exploration policy is told of the beginning of each exploratory episode, and only valid actions are returned. Outside of the exploration phase, and always in evaluation, the agent's action is returned unchanged.",
 ['histories'], 'all words of episode begins and steps up to several phase changes for several keys and phase durations',
 'marco_polo_exploration_test checks one or two switches.',
 [P+'agents/marco_polo_exploration.py', P+'agents/exploration.py', P+'agents/random_walk_agent.py'],
 [('MarcoPoloExploration', P+'agents/marco_polo_exploration.py')],
 ['MarcoPoloExploration.begin_episode', 'MarcoPoloExploration.step'])

prop('C31', 'Learning agents record the transitions that happened and freeze in eval',
 'In training mode each stored transition holds the observation the agent saw, the action that was really sent to the environment, and the reward and terminal flag that followed, and learning updates happen at the configured period on such transitions. In evaluation mode the agent returns valid greedy actions and neither stores data nor changes parameters. Checkpointing an agent and loading it into a fresh one reproduces its decisions, parameters, optimizer state, counters and stored data.',
 ['histories', 'crash_points'], 'all protocol words of short episodes and modes, with every checkpoint position, for each learning agent',
 'Agent tests check one transition and mock the networks.',
 [P+'agents/dqn_agent.py', P+'agents/quantile_agent.py', P+'agents/mlp_agent.py', P+'agents/networks.py'],
 [('begin_episode/step/end_episode', P+'agents/quantile_agent.py')],
 ['agent actions', 'replay contents', 'parameters'])

prop('C32', 'Baseline controllers follow their stated rule',
 'The station-seeking controller always heads for the reachable level with the best documented score of wind bearing, wind magnitude, uncertainty and closeness, and stays when already at it; the random walk heads for its hidden, randomly moving target pressure and stays within 100 Pa of it, starting each episode from a target in the sampled pressure range; the frozen Perciatelli agent answers with the greedy action of the model it was loaded from. The random agent always returns a valid action. All controllers return valid actions for every observation and, given a key, the same actions for the same observations.',
 ['inputs', 'histories'], 'a lattice of observation vectors built from belief columns; all short observation sequences for the random walk',
 'station_seeker tests check a few fixed beliefs.',
 [P+'agents/station_seeker_agent.py', P+'agents/random_walk_agent.py', P+'agents/agent.py'],
 [('StationSeekerAgent', P+'agents/station_seeker_agent.py'), ('RandomWalkAgent', P+'agents/random_walk_agent.py')],
 ['agent.begin_episode', 'agent.step'])

prop('C33', 'Training and evaluation wind fields never mix',
 "A dataset-backed wind reservoir serves training batches only from the training part and the evaluation batch exactly from the reserved evaluation part (the last eval_batch_size fields); the two parts are disjoint and together are the whole dataset, and every served field is one of the dataset's, unchanged and not repeated within a batch. Which fields are served is a function of the seed and the sequence of requests, and asking for the evaluation batch at any point does not change it. Requests for more than the training part holds are refused, and over many batches every training field is served about equally often.",
 ['histories', 'configurations'], 'all dataset sizes and reserve sizes up to a bound, all words of mode switches and draws up to a depth',
 'There is no exhaustive test; one test uses one size.',
 [P+'generative/dataset_wind_field_reservoir.py', P+'generative/wind_field_reservoir.py'], [('get_wind_field', P+'generative/dataset_wind_field_reservoir.py')],
 ['WindFieldReservoir.get_wind_field'])

prop('C34', 'Generated winds are a function of the key and free of divergence',
 'The decoder turns every latent vector into a finite wind field of the documented grid shape that is incompressible on its grid, and a sampled field is a function of its key alone. The generative sampler, the grid-based wind field and the older generative wind field agree for the same key. The winds served to balloons are those of that field, so they are incompressible too.',
 ['inputs'], 'a lattice of latent vectors (axes, corners, large values) and keys, on randomly initialised and scaled decoder parameters',
 'vae_test checks shapes for one latent vector; the trained weights are not in this checkout.',
 [P+'generative/vae.py', E+'generative_wind_field.py'], [('Decoder', P+'generative/vae.py')],
 ['vae.Decoder', 'generative_wind_field.GenerativeWindFieldSampler'])

prop('C35', 'Names and configuration files resolve to what they name',
 'Every registered agent name builds its own agent class with its own default configuration and unknown agent and wind-field names are refused; configuration files bind in the documented order (agent file, then additional files, then bindings) with later ones winning; and the wind field, renderer and collectors chosen are the ones used. A model file is looked up at the given path, then in the installed package, then relative to the working directory; a given path without a model is a ValueError and a model found nowhere is a RuntimeError. Training started from the command line uses the flags it was given.',
 ['configurations'], 'every registered name, every combination of environment variable, installed file and override in the configuration routes',
 'run_helpers_test checks some names.',
 [P+'agents/agent_registry.py', P+'utils/run_helpers.py', P+'models/models.py', E+'gym.py'],
 [('REGISTRY', P+'agents/agent_registry.py'), ('run_helpers', P+'utils/run_helpers.py'), ('models lookup', P+'models/models.py')],
 ['run_helpers.get_agent_factory', 'run_helpers.bind_gin_variables', 'models.load_*', 'gym.make'])

prop('C36', 'Rendering shows the flight and changes nothing',
 'Every rendered picture shows exactly the flight since the last reset: its path in space, its charge over time, and the balloon and station where they are, as an RGB image of the whole figure. Rendering, or merely having a renderer, never changes the simulation. Unsupported modes are refused (ValueError), and pictures go to the summary writer once, under the iteration they were rendered for.',
 ['histories', 'configurations'], 'all words of reset, step and render up to a depth with a twin environment without renderer; every mode and writer',
 'matplotlib_renderer_test mocks the figure; nothing reads back what is drawn or compares with an unrendered run.',
 [E+'rendering/matplotlib_renderer.py', E+'rendering/renderer.py', E+'balloon_env.py'],
 [('step/reset/render', E+'rendering/matplotlib_renderer.py:MatplotlibRenderer'), ('BalloonEnv.render', E+'balloon_env.py')],
 ['the figure drawn', 'the image returned', 'writer.add_image calls'])

prop('C37', 'Station-keeping winds are recognised and speeds are exact',
 'A column of winds supports station keeping exactly when still air lies within the convex hull of its winds, for every column: of any height, order, scale and precision, with repeated or nil winds, and with all winds along one line. The speeds of a wind field are the lengths of its winds at every grid point, and its mean speed is their mean. The column asked about is left as it was.',
 ['inputs'], 'all small sets of wind vectors, degenerate ones included, and columns that turn through every sector',
 'wind_test asks about one column that is suited and one that is not; degenerate columns raised an error.',
 [P+'utils/wind.py'], [('is_station_keeping_winds', P+'utils/wind.py'), ('wind_field_speeds', P+'utils/wind.py')],
 ['wind.is_station_keeping_winds', 'wind.wind_field_speeds', 'wind.mean_speed_in_wind_field'])

prop('C38', 'Agents learn of true winds only where the balloon has been',
 'What an agent sees of an episode (observations, rewards, ends and information) depends on the true wind only at the places, altitudes and times at which the balloon has already been: worlds that differ anywhere else, however much, look identical under the same actions. A wind that is met does show in the observation made there, and in none before it.',
 ['histories'], 'all action words up to a depth, each replayed in worlds with other winds elsewhere, above and below, earlier and later',
 'No test compares two worlds; peeking at the true wind would only make agents look better.',
 [E+'balloon_arena.py', E+'features.py', E+'wind_gp.py', E+'balloon_env.py'],
 [('BalloonArena.step', E+'balloon_arena.py'), ('PerciatelliFeatureConstructor.observe', E+'features.py'), ('WindGP.observe', E+'wind_gp.py')],
 ['BalloonEnv.reset', 'BalloonEnv.step', 'WindField.get_ground_truth'])

prop('C39', 'Acme adapters fly the same flights and learn from what was done',
 'The environment handed to Acme is the balloon environment itself, cut off at the given maximum length; in the evaluation environment the rewards of an episode add up to the fraction of that length spent within the station radius. With MarcoPolo exploration an Acme training actor alternates, in four episodes out of five, four hours of the learner\'s own actions with two hours of the exploration policy\'s, starting afresh every episode, and otherwise returns the learner\'s action; the learner\'s actor sees every time step, every action really taken and every update, in order. Actors for evaluation are never wrapped, the evaluation policy is greedy whatever the exploration rate, and the Acme evaluation agent refuses the training mode and answers with the greedy action of exactly the checkpoint it was last told to load.',
 ['histories'], 'all words of actions, episode lengths, loads and queries, with stand-ins for the interfaces of Acme',
 'The adapters have no test at all: Acme is an optional dependency that the tests do without.',
 [P+'acme_utils.py', P+'agents/acme_eval_agent.py'],
 [('create_env', P+'acme_utils.py'), ('CombinedActor', P+'acme_utils.py'), ('create_dqn', P+'acme_utils.py'), ('AcmeEvalAgent', P+'agents/acme_eval_agent.py')],
 ['acme_utils.create_env', 'CombinedActor.select_action/observe_first/observe/update', 'acme_utils.create_dqn', 'AcmeEvalAgent'])

prop('C40', 'The training program does what its flags say and keeps runs apart',
 'Running train.py trains exactly the named agent (told the number of actions and the observation shape of the environment) in exactly the named environment, made with the wind field and renderer named by the flags, for the given number of iterations, episodes per iteration, steps per episode and render period, and reports to the named collectors only (unknown collectors are skipped). Everything of a run is kept below base_dir/agent/run_number: a run continues after the last checkpoint of the same agent and run number and is not affected by any other run. The agent is configured by its default gin file, or the given gin file instead of it, and then the gin bindings, which win. If the environment renders an image at the end, that image is saved as balloon_path.png in base_dir. Unknown agents, environments, wind fields, renderers or gin parameters are refused before anything is run or written. Flags that are not given have their documented defaults.',
 ['histories', 'inputs'], 'all flag combinations within small bounds, and all words of three runs over agent, run number and iterations',
 'train.py has no test; its wiring and the interaction of several runs in one base directory are never exercised.',
 [P+'train.py', P+'train_lib.py', P+'utils/run_helpers.py'],
 [('main', P+'train.py'), ('run_training_loop', P+'train_lib.py'), ('bind_gin_variables', P+'utils/run_helpers.py')],
 ['train.main', 'files below base_dir', 'calls the agent and environment see'])

prop('C41', 'Generator training learns from training fields only and resumes exactly',
 'Training of the wind generator moves its parameters by the gradient of the mean over the batch of squared error over twice sigma squared, plus log of sigma times root two pi, plus the weight times the KL divergence of the latent from a standard normal. The weight of an epoch is that of the schedule (a step schedule multiplies its start by the increment every so many epochs, up to its cap). Fields reserved for evaluation are never learned from; evaluations use them only, always with the same noise, and report mean squared error, KL divergence and mean speeds of the fields and their reconstructions. A run trains up to the given number of epochs, reporting the means over each epoch under its number and leaving exactly one checkpoint, that of the last finished epoch. Started again after a crash at any batch it goes on with the next epoch from that checkpoint, neither repeating nor skipping a finished one. A bootstrap directory is only used by a run without progress of its own, and is never written to.',
 ['inputs', 'histories', 'crash_points'], 'a lattice of parameters, batches and weights for one step; all words of two runs over numbers of epochs and the batch at which they crash',
 'The training program has no test at all.',
 [P+'generative/learn_wind_field_generator.py', P+'generative/dataset_wind_field_reservoir.py'],
 [('train_step', P+'generative/learn_wind_field_generator.py'), ('evaluation', P+'generative/learn_wind_field_generator.py'), ('train', P+'generative/learn_wind_field_generator.py')],
 ['learn_wind_field_generator.train_step/evaluation/train/step_schedule', 'checkpoints and summaries written'])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
if __name__ == '__main__':
  with open(path, 'w') as f:
    for d in OUT:
      f.write(json.dumps(d) + '\n')
  print(len(OUT))
