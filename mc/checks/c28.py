"""C28: sharded evaluation, through the two real scripts."""
import contextlib
import itertools
import json
import os
import types
from unittest import mock

from absl import flags
from balloon_learning_environment.eval import eval as eval_main
from balloon_learning_environment.eval import eval_lib
from balloon_learning_environment.eval import suites
from mc import agents
from mc.checks import c27
import gin
import gym

# Both scripts define --pretty_json with the same meaning; they normally run in
# processes of their own.
flags.FLAGS.__delattr__('pretty_json')
from balloon_learning_environment.eval import combine_eval_shards  # pylint: disable=g-import-not-at-top,wrong-import-position

PROP, LEVEL = 'C28', 'model_checking'
RULE = ('cover: every suite size and shard count up to a bound, every shard '
        'run through the real eval script in a scripted environment, the '
        'files combined by the real combine script and compared with the '
        'unsharded run. names: all small directories with shards and results '
        'of models whose names are prefixes of one another. suites: the '
        'published suites, seeds only. again: evaluations and combinations over '
        'results that are already there. large: combining thousands of results.')
ASSUMPTIONS = ['a result is looked up by its file name: <name>.json or '
               '<name>_<shard>.json, name from --name_override, else '
               '<agent>_<checkpoint>, else <agent>']
FLAGS = flags.FLAGS


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='cover', n=n, shards=12 if q else 40)
         for n in (list(range(0, 26)) + [100] if q else range(0, 80))]
  out += [dict(kind='suites', name=n, shards=k) for n in
          suites.available_suites() for k in ((2, 3, 7, 64) if q else (
              2, 3, 7, 64, 100, 1000)) if n != 'big_eval' or k == 7]
  out += [dict(kind='names', first=i) for i in range(len(NAMES))]
  out += [dict(kind='options'), dict(kind='ambiguous'),
          dict(kind='again'), dict(kind='large', q=q)]
  return out


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


class Env(c27.Env):
  action_space = types.SimpleNamespace(n=3)
  observation_space = types.SimpleNamespace(shape=(1,))


def script_for(seeds):
  return {s: dict(n=[None, 1, 2][s % 3], why=c27.WHYS[s % 5],
                  path=c27.PATHS[s % 8]) for s in seeds}


@contextlib.contextmanager
def world(seeds, limit):
  def get(name):
    return suites.EvaluationSuite(list(seeds), limit)
  env = Env(script_for(seeds), [])
  with mock.patch.object(gym, 'make', lambda *a, **k: env), \
      mock.patch.object(suites, 'get_eval_suite', get):
    yield


def evaluate(out, **kw):
  """Runs the eval script with the given flags."""
  gin.clear_config()
  FLAGS.unparse_flags()
  argv = ['eval', f'--output_dir={out}']
  base = dict(agent='random', suite='tiny_eval', wind_field='simple',
              name_override='', num_shards=1, shard_idx=0)
  base.update(kw)
  for k, v in base.items():
    if v is not None:
      argv.append(f'--{k}={v}')
  for f in ('checkpoint_idx', 'checkpoint_dir', 'renderer'):
    if f not in kw:
      FLAGS[f].value = None
      FLAGS[f].present = 0
  FLAGS['pretty_json'].value = False
  rest = FLAGS(argv + ['--path=x', '--models=x'])
  eval_main.main(rest[:1])


def combine(path, models, **kw):
  FLAGS.unparse_flags()
  FLAGS['models'].present = 0
  FLAGS['flight_paths'].value = False
  FLAGS['pretty_json'].value = False
  FLAGS(['combine', f'--path={path}'] + [f'--models={m}' for m in models] +
        [f'--{k}={v}' for k, v in kw.items()])
  combine_eval_shards.main(['combine'])


def read(p):
  with open(p) as f:
    return json.load(f)


def strip(rows):
  return [dict(r, flight_path=[]) for r in rows]


def by_seed(rows):
  return sorted(rows, key=lambda r: r['seed'])


def do_cover(case, rec):
  n = case['n']
  for order in ('up', 'down'):
    seeds = [3 * i + 1 for i in range(n)]
    if order == 'down':
      seeds = seeds[::-1]
    with agents.scratch() as top, world(seeds, 2):
      evaluate(top)
      d = os.path.join(top, 'tiny_eval')
      whole = read(os.path.join(d, 'random.json'))
      rec.check([r['seed'] for r in whole] == seeds, 'unsharded', f'{n} seeds: '
                f'evaluated {[r["seed"] for r in whole]}')
      for k in range(1, case['shards'] + 1):
        if order == 'down' and k > 4:
          break
        got = []
        for i in range(k):
          evaluate(top, num_shards=k, shard_idx=i, name_override=f'm{k}')
          name = f'm{k}_{i}.json' if k > 1 else f'm{k}.json'
          p = os.path.join(d, name)
          if not rec.check(os.path.exists(p), 'file', f'{n} seeds, shard {i} of '
                           f'{k}: no {name}, but {os.listdir(d)[:5]}'):
            return
          part = read(p)
          got += part
          rec.trans()
          rec.state((n, k, i, len(part)))
        where = f'{n} seeds in {k} shards'
        rec.check(sorted(r['seed'] for r in got) == sorted(seeds), 'cover',
                  f'{where}: evaluated {[r["seed"] for r in got]}')
        rec.check(by_seed(got) == by_seed(whole), 'same', f'{where}: results '
                  'differ from the unsharded run')
        if k > 1:
          combine(d, [f'm{k}'])
          c = read(os.path.join(d, f'm{k}.json'))
          rec.check(c == strip(by_seed(whole)), 'combine', f'{where}: combined '
                    f'{[r["seed"] for r in c]}')
          if k in (2, 3, 5, 11):
            combine(d, [f'm{k}'], flight_paths='true', pretty_json='true')
            c = read(os.path.join(d, f'm{k}.json'))
            rec.check(c == by_seed(whole), 'combine', f'{where}: combined with '
                      f'flight paths {[r["seed"] for r in c]}')
            left = {x for x in os.listdir(d) if x.startswith(f'm{k}_')}
            rec.check(left == {f'm{k}_{i}.json' for i in range(k)}, 'keep',
                      f'{where}: shard files {left}')
        rec.ev(outcome=(n, k, order))
        rec.trace()


def do_suites(case, rec):
  """The published suites, with the evaluation itself recorded only."""
  real = suites.get_eval_suite(case['name'])
  seen = []

  def record(agent, env, suite, **kw):
    seen.append((list(suite.seeds), suite.max_episode_length))
    return []
  env = Env({}, [])
  with agents.scratch() as top, mock.patch.object(
      gym, 'make', lambda *a, **k: env), mock.patch.object(
          eval_lib, 'eval_agent', record):
    for i in range(case['shards']):
      evaluate(top, suite=case['name'], num_shards=case['shards'], shard_idx=i)
      rec.trans()
  got = [s for part, _ in seen for s in part]
  rec.check(sorted(got) == sorted(real.seeds), 'cover', f'{case}: the shards '
            f'hold {len(got)} seeds, the suite {len(real.seeds)}')
  rec.check(all(m == real.max_episode_length for _, m in seen), 'length',
            f'{case}: maximum lengths {set(m for _, m in seen)}')
  rec.ev(outcome=str(case))
  rec.state(str(case))


NAMES = ['m', 'm_a', 'a_m', 'mm', 'm.x', 'm_a_b', 'M', 'm-1', 'm*', 'm[1]']


def do_names(case, rec):
  """Combining one model uses the shards of that model only."""
  first = NAMES[case['first']]
  for r in (1, 2, 3):
    for others in itertools.combinations([x for x in NAMES if x != first],
                                         r - 1):
      models = [first] + list(others)
      for k in (2, 12):
        with agents.scratch() as d:
          want = {}
          for m, name in enumerate(models):
            rows = [dict(seed=s, cumulative_reward=m + s / 10, flight_path=[1],
                         who=name) for s in range(14)]
            want[name] = strip(rows)
            for i in range(k):
              with open(os.path.join(d, f'{name}_{i}.json'), 'w') as f:
                json.dump(rows[14 * i // k:14 * (i + 1) // k], f)
          with open(os.path.join(d, f'{first}_notes.json'), 'w') as f:
            json.dump([dict(seed=99, flight_path=[])], f)
          with open(os.path.join(d, f'{first}.json'), 'w') as f:
            json.dump([dict(seed=98, flight_path=[])], f)
          if any(c in first for c in '*['):
            continue  # glob patterns are not names of agents
          combine(d, [first])
          got = read(os.path.join(d, f'{first}.json'))
          rec.check(got == want[first], 'names', f'{models}: combining {first} '
                    f'gives {str(got)[:200]}')
          for o in others:
            rec.check(not os.path.exists(os.path.join(d, f'{o}.json')), 'names',
                      f'combining {first} also wrote {o}.json')
          use = [m for m in models if '*' not in m and '[' not in m]
          combine(d, use)
          for m in use:
            got = read(os.path.join(d, f'{m}.json'))
            rec.check(got == want[m], 'names', f'{models}: combining all, {m} '
                      f'gets {str(got)[:200]}')
          rec.ev(outcome=(models, k))
          rec.trans(len(models))
          rec.trace()


def do_options(case, rec):
  """File names and formats."""
  seeds = [4, 1, 9]
  with agents.scratch() as top, world(seeds, 2):
    d = os.path.join(top, 'tiny_eval')
    for override in ('', 'mine'):
      for ck in (None, 0, 7):
        for k, i in ((1, 0), (3, 1)):
          for pretty in (False, True):
            for suite in ('tiny_eval', 'micro_eval'):
              d = os.path.join(top, suite)
              before = set(os.listdir(d)) if os.path.isdir(d) else set()
              for x in before:
                os.remove(os.path.join(d, x))
              kw = {} if ck is None else dict(checkpoint_idx=ck)
              evaluate(top, name_override=override, num_shards=k, shard_idx=i,
                       suite=suite, pretty_json=str(pretty).lower(), **kw)
              name = override or ('random' if ck is None else f'random_{ck}')
              if k > 1:
                name += f'_{i}'
              rec.check(os.listdir(d) == [name + '.json'], 'file',
                        f'{override!r}, checkpoint {ck}, shard {i} of {k}: '
                        f'wrote {os.listdir(d)}')
              text = open(os.path.join(d, os.listdir(d)[0])).read()
              rec.check(('\n' in text) == pretty, 'pretty', f'pretty={pretty}')
              want = c27.reference(script_for(seeds), seeds if k == 1 else
                                   seeds[1:2], 2)
              rec.check(json.loads(text) == json.loads(json.dumps(want)),
                        'content', f'{name}: {text[:200]}')
              rec.ev(outcome=(override, ck, k, pretty, suite))
              rec.trans()


def do_ambiguous(case, rec):
  """An unsharded checkpoint result next to the shards of the same agent."""
  seeds = [1, 2, 3, 4]
  with agents.scratch() as top, world(seeds, 2):
    d = os.path.join(top, 'tiny_eval')
    for i in range(2):
      evaluate(top, num_shards=2, shard_idx=i)
    evaluate(top, checkpoint_idx=50)
    combine(d, ['random'])
    got = [r['seed'] for r in read(os.path.join(d, 'random.json'))]
    rec.ev(outcome=got)
    if got != seeds:
      rec.fail('checkpoint-looks-like-shard' if got == sorted(seeds * 2) else
               'ambiguous', f'shards of random and random_50.json combine to '
               f'{got}')


def do_again(case, rec):
  """Results written where older ones are: the new ones, and only those."""
  for old, new in itertools.product(([], [5], [4, 1, 9, 2, 7]), repeat=2):
    for k in (1, 2):
      with agents.scratch() as top:
        d = os.path.join(top, 'tiny_eval')
        for seeds in (old, new):
          with world(seeds, 2):
            for i in range(k):
              evaluate(top, num_shards=k, shard_idx=i)
            if k > 1:
              combine(d, ['random'])
              combine(d, ['random'])
        want = json.loads(json.dumps(c27.reference(script_for(new), new, 2)))
        want = want if k == 1 else strip(by_seed(want))
        try:
          got = read(os.path.join(d, 'random.json'))
        except ValueError as e:
          got = repr(e)
        rec.check(got == want, 'again', f'{old} then {new} in {k} shards: '
                  f'{str(got)[:200]}')
        rec.ev(outcome=(old, new, k))
        rec.trans(2 * k)
        rec.trace()


def do_large(case, rec):
  """As many results as the largest suites have."""
  for n, k in ((1000, 3), (1200, 2), (10000, 7)) + (
      () if case['q'] else ((10000, 100), (20000, 11))):
    rows = [dict(seed=s, cumulative_reward=s / 10, flight_path=[s])
            for s in range(n)]
    with agents.scratch() as d:
      for i in range(k):
        with open(os.path.join(d, f'm_{i}.json'), 'w') as f:
          json.dump(rows[n * i // k:n * (i + 1) // k], f)
      combine(d, ['m'])
      got = read(os.path.join(d, 'm.json'))
      rec.check(got == strip(rows), 'large', f'{n} results in {k} shards: '
                f'{len(got)} results combined')
    rec.ev(outcome=(n, k))
    rec.trans()
    rec.state((n, k))
