rows = {}
def r(id, enumerated, oracle, bounds, why): rows[id]=(enumerated, oracle, bounds, why)
r('C01','Tree search over action words on the real `BalloonEnv` (one snapshot per node, copies validated by C15); de Bruijn words and constant policies over long flights; each terminal cause placed at each of the 18 strides of a step, then stepped again and reset; every out-of-range action','contract predicates: space membership, reward range, clock, flags against the state','words of 5 (t: 7) steps x 4 (t: 12) seeds x winds; flights of 240 (t: 960) steps','a terminal state is only crossed at particular strides; tests never reach two of the three causes')
r('C02','All interleavings of the operations of two or three environments; all operation words before every seeding route; all pairs of seeds; global generators fingerprinted around every call; pairs of starting dates; a freshly started process against an old one; one operation placed before any line of another (preemption bound 1)','the solo run of the same instance','3 (t: 5) operations per instance; histories of depth 2 (t: 3); 24 (t: 120) seeds','leaks between instances need an interleaving')
r('C03','All words of (altitude representative, command) on a fresh guard; de Bruijn words on one guard; interleaved guards; real atmospheres; one guard asked under several atmospheres in turn (mixed)','3-state automaton written from the documentation','representatives on, one ulp and one foot either side of each threshold; words of 3 (t: 4), every subword of 3 (t: 4) in one long history','the state graph with jumps between any two bands is never walked by tests')
r('C04','As C03 over superpressure for several burst limits','5-state automaton','words of 3 with all commands at the default limit, other limits from 650 Pa likewise in t; subwords of 2 (t: 3)','same')
r('C05','All words of (time advance, charge band, command), with the charge bands put just below and above the threshold that applies at that instant','reference that recomputes day, night and need from the sun times of the start','words of 2 with all commands, of 3 (t: 4) with down, over latitudes, seasons, hours and several days','the second night, and thresholds that move with time')
r('C06','All words over (altitude band x superpressure band x charge band x command) on the real balloon, by day and night, with and without the power guard; words of unassisted flight near each threshold','three reference guards composed; command in force read from pump power and air flow','placed words of 2 (t: 3) on 4 dimensions x 3 times of day; flights of 4 (t: 5) steps from 34 starts','needs two guards to disagree at once')
r('C07','Lattice of states x wind x command, one stride; all action words with every stride compared','independent implementation of the laws (`mc/ref/physics.py`), 1e-7 relative','~10^4 states quick; words of depth 4 (t: 6)','no reference trajectory exists in the tests')
r('C08','Starts placed so that a boundary is crossed at each stride index of an outer step, or just not; steps after the end; all strides, fractional ones too','strides one at a time and the status rule','all 18 indices x 3 causes; all divisors','mid-step ends are never tested')
r('C09','Lattice over gas, air, temperature, pressure, constants; points down to 1e-12 either side of the fill point','gas law, stiffness law, closed solution, monotonicity to neighbours','~10^5 points','branch at the fill point')
r('C10','Pressure ratios on a 1e-4 (t: 1e-5) grid, powers on a 5 W (1 W) grid, every table cell with ulp neighbours','independent copies of the calibration tables','complete over the grid','tests read single entries')
r('C11','Every calendar day over years; place x month x hour x time zone lattice; sunrise, sunset, noon, midnight for a time grid; elevation x pressure grid','independent solar position (NOAA-style, double precision) and root finder','latitudes to 60 degrees','tests use a few UTC instants')
r('C12','For every key: altitude and pressure grids, every layer boundary with ulp neighbours, queries outside, all orders of resets, keys asked for again after others','independent layered profile','64 (t: 1000) keys','layer boundaries x draws')
r('C13','Lattice of starts through the real initialisation and one stride; lattice of heat-balance arguments','independent equilibrium and balance; sign laws between lattice neighbours','3 atmosphere keys','tests use a few starts')
r('C14','Lattice of distance x bearing x command x pump power x sun x charge x parameters; action words in the real environment','documented formula; monotonicity over neighbours','words of 3 (t: 6) steps','excess energy combines three thresholds')
r('C15','Every action word x save position x copy route x restore target; whole-arena copies; observations held and scribbled on','the uninterrupted run','depth 3 (t: 4) from 6 situations (each guard restricting, dying)','state hidden in guards shows only in a continuation')
r('C16','Nodes, midpoints, off-centre, beside-node and outside points on all four axes over three time reflections, single and column; orders of queries and resets','multilinear reference','small and full-size fields','reflection and edge combinations')
r('C17','Lattice of keys x places x pressures x times; all operation words with resets and foreign instances; places and times far out on each axis','independent sum of harmonics over the trusted OpenSimplex','8 (t: 32) keys, words of 3 (t: 4)','purity needs orders of queries')
r('C18','All words over observe / query / column / reset; all orders of the same measurements; both sides of the window edge; day-long histories','independently solved Gaussian process','words of 3 (t: 4), histories of 200 (t: 480)','caching and window edges need interleavings')
r('C19','Lattice of states (pairs of quantities crossed); all observation histories with features read at every subset of positions; named view decoded','independent encoder','see RULE in the check','round trips were untested')
r('C20','Lattice of time x place x infrared x burst limit x masses x atmosphere; ends put back into the real initialisation','independent equilibrium search','a 20-level column between which values are interpolated, as documented','one state is tested')
r('C21','Value lattice x constructor x reader x operator; all ordered pairs of kinds under all operators; calendar helpers','plain arithmetic','complete product','kind errors are a product space')
r('C22','Transforms on lattices x parameters, scalars and arrays; samplers on every key of a range, repeated; starting dates and hours over their whole range','plain arithmetic; ranges, coverage, distinctness','800 (t: 32,000) keys per sampler','one key is tested')
r('C23','Offsets (zero to 20,000 km x 24 bearings) from starts incl. poles and both sides of the antimeridian; simulation steps in winds from all directions','rotation of the unit vector','complete lattice','poles and wrap')
r('C24','All words of saves, failed saves, clean-ups and foreign files; the directory at every file-system operation of a save or clean-up plus torn prefixes of every write, each followed by recovery; the same for real agents','set model of the directory','see RULE','crash points are never enumerated by tests')
r('C25','All combinations of lengths, limits, episodes, iterations, restarts, render periods; a crash at each environment step and restarts until done','reference word of calls','small bounds','order of calls over all lengths')
r('C26','All life-cycle words over 0-3 collectors; pairs and triples of short episodes, all logging options, fresh, resumed and abandoned part-way; the files read back','the events sent','see RULE','one word is tested')
r('C27','All combinations of episode length, limit, cause, radius side over 1-3 seeds in a scripted environment; all orders of 3 seeds in the real one','reference evaluation','see RULE','')
r('C28','All suite sizes x shard counts through the two real scripts; all small directories of prefix-related names','unsharded run','suites of 0 to 25 and 100 (t: 0 to 79) seeds x 1 to 12 (t: 40) shards; all published suites','no tests of the combine script')
r('C29','Every suite, before and after every word of mutations','published seeds and digests','words of 2 (t: 3) mutations','aliasing')
r('C30','All sequences of 1-3 episodes with lengths around each phase change (t: all lengths to 410 pairwise) with a scripted second agent','phase automaton; fraction over a fixed set of keys within 5 sigma','3 probabilities','one or two switches are tested')
r('C31','De Bruijn words of episodes {train, eval} x lengths x endings for DQN, quantile and exploring quantile agents; mode switches at every position; all words for the MLP agent; a checkpoint after every episode; lattice of network shapes','reference log and reference update (Dopamine train function on the sampled batch)','subwords of 2 (t: 3) episodes','')
r('C32','Pairs of reachable levels over a lattice; full columns with 1-3 changed levels; walk episodes with the hidden target located by bisected probes on copies; frozen agent on generated graphs','documented score; drift law','see RULE','')
r('C33','All dataset, reserve and batch sizes and words of draws; rows carry their index','set model','datasets up to 6 (t: 8), words of 2 (t: 3), 40-batch runs','')
r('C34','Zero, axes, corners and keys of the latent space x initialisations x field shapes; keys x dates x call orders of the sampler and both wind fields; many keys with far latents; whole models of other field shapes','reference decoder; central differences','see RULE','')
r('C35','All registered names and near-misses; all ordered choices of configuration sources from two directories; all placements of model files; the training entry point for every choice; environments and fields made apart share nothing','documented resolution order','see RULE','')
r('C36','All words over {reset, down, stay, up, render} with a twin without renderer; the figure read back','states flown since the reset; image drawn from scratch','length 3 (t: 5)','tests mock the figure')
r('C37','All multisets of 3 and 4 (t: 5) winds from a lattice, in several orders, scales and precisions; all small columns along lines; tall turning columns; all small fields with one odd value','largest gap between directions, exact on whole numbers','25 vectors for 3 winds, 11 for 4 (t: 25; 11 for 5)','degenerate columns are never tested')
r('C38','All action words, each replayed in four worlds whose true wind differs elsewhere; long flights over two episodes; a wind changed at each single flown point','bit-for-bit equality with the unchanged world','words of 3 and 4 (t: 5, 6) steps x 2 (t: 4) seeds x winds; flights of 60 (t: 300) steps','needs two worlds at once')
r('C39','All action words x step limits x distances on the wrapped environments; all words of three episode lengths around the phase changes on the combined actor; policies for every best action; all words of loads and queries on the evaluation agent','plain environment with the same seed; exploration automaton; argmax of the network','words of 3 (t: 5) actions, 12 (t: 22) lengths, calls 3 (t: 4)','Acme is not installed: no tests exist; stand-ins for its interfaces')
r('C40','All combinations of iterations, episodes, limits, periods and episode ends as flags to the real main(); all words of runs over (agent, run number, iterations); all winds, renderers, collector orders, images and gin sources','the reference word of C25; a dict of last checkpoints per (agent, run number); last-writer-wins configuration','words of 3 (t: 4) runs over 8 kinds; up to 4 (t: 6) episodes','train.py has no test')
r('C41','All phi, lam, sigma, theta, batches and weights of a lattice for one training step and evaluation; all words of runs of the real train() over (epochs, batch of the crash) with one-hot fields, real reservoir and real checkpoints; bootstraps; schedules','gradients worked out by hand; a simulation of the parameters that do not depend on the draw; theta shows which fields were learned from','words of 2 (t: 3) runs over 8 kinds','no tests; needs flax.optim, which is gone: stand-ins for it and a small network')
import json,os
T=json.load(open('/verif/tools/design/timings.json')) if os.path.exists('/verif/tools/design/timings.json') else {}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
out=[]
for p in props:
  e,o,b,w=rows[p['id']]
  t=T.get(p['id'],{})
  cost='q %s s, t %s s'%(t.get('quick','?'),t.get('thorough','?'))
  why=w or p['why_tests_cant']
  out.append(f"**{p['id']} {p['title']}.** *Enumerated:* {e}. *Oracle:* {o}. *Bounds:* {b}. *Cost:* {cost}. *Beyond the tests:* {why.rstrip('.')}.\n")
print('\n'.join(out))
