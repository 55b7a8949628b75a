"""C31: learning agents."""
import itertools
import os
import random

from balloon_learning_environment.agents import agent as agent_lib
from balloon_learning_environment.agents import exploration
from balloon_learning_environment.agents import networks
from mc import agents
from mc import words
import numpy as np

PROP, LEVEL = 'C31', 'model_checking'
TECHNIQUE = ('every word of episodes (mode, length, ending) up to a depth on '
             'the real small agents, each operation compared with a reference '
             'log of transitions and a reference update; a checkpoint at '
             'every position of a history')
RULE = ('replay: de Bruijn words containing every sequence of 2 (thorough: 3) '
        'episodes out of {train, eval} x {0, 1, 2, 5 steps} x {terminal, time '
        'out} for the DQN agent, the quantile agent and the quantile agent '
        'with an exploration that overrides actions, for several update and '
        'target periods; after each call the replay memory, counters, '
        'parameters and the action are compared with the reference. switch: '
        'every position of mode switches within an episode. '
        'mlp: all words of begin/step/end/mode up to depth 6 (7), SARSA update '
        'recomputed. checkpoint: a checkpoint after every episode of a '
        'history, loaded into fresh agents, both continued. network: a '
        'lattice of sizes and inputs against a reference forward pass.')
ASSUMPTIONS = ['networks are small (shape of the layers as in the published '
               'configuration otherwise); arithmetic compared to 1e-5',
               'the replay memory and the loss are Dopamine\'s: the parameter '
               'update is compared with Dopamine\'s train function on the '
               'sampled batch']

EPISODES = [(m, n, t) for m in ('train', 'eval') for n in (0, 1, 2, 5)
            for t in (True, False)]


class Shift(exploration.Exploration):
  """Replaces every second action by the next one, notes what it got."""
  log = []

  def begin_episode(self, observation, a):
    Shift.log.append(('begin', int(a)))
    return (int(a) + 1) % 3

  def step(self, reward, observation, a):
    Shift.log.append(('step', int(a)))
    return int(a) if len(Shift.log) % 2 else (int(a) + 1) % 3


def cases(tier):
  q = tier == 'quick'
  out = []
  names = ('dqn', 'quantile', 'explore', 'uniform')
  grid = [(1, 3, 4), (2, 3, 7)] if q else [
      (1, 3, 4), (2, 3, 7), (3, 2, 0), (4, 4, 20)]
  for name in names:
    for up, tp, mh in grid:
      for shift in ((0,) if q else range(6)):
        out.append(dict(kind='replay', name=name, update=up, target=tp,
                        history=mh, depth=2 if q else 3, part=shift,
                        parts=1 if q else 6))
  for name in names[:3]:
    out.append(dict(kind='switch', name=name, n=6 if q else 9))
    for part in range(2):
      out.append(dict(kind='checkpoint', name=name, part=part,
                      n=6 if q else 16))
  out += [dict(kind='mlp', layers=l, first=f, depth=5 if q else 7)
          for l in (1, 2) for f in range(6)]
  out += [dict(kind='network', layers=l, hidden=h) for l in (1, 2, 3, 8)
          for h in (1, 3)]
  out.append(dict(kind='published'))
  return out


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def build(name, extra=(), seed=0, shape=(2,)):
  extra = list(extra)
  cls = 'JaxDQNAgent' if name == 'dqn' else 'JaxQuantileAgent'
  extra = [e.replace('AGENT', cls) for e in extra]
  if name == 'dqn':
    return agents.make('dqn', shape, seed, extra)
  if name == 'explore':
    ref = agents.binding('Shift', Shift)
    extra.append(f'QuantileAgent.exploration_wrapper_constructor = {ref}')
  else:
    extra.append(agents.no_exploration())
  if name == 'uniform':
    extra.append("JaxQuantileAgent.replay_scheme = 'uniform'")
  return agents.make('quantile', shape, seed, extra)


def same(a, b, tol=0.):
  x, y = agents.tree(a), agents.tree(b)
  if len(x) != len(y):
    return False
  for u, v in zip(x, y):
    if np.shape(u) != np.shape(v) or not np.allclose(u, v, rtol=tol, atol=tol):
      return False
  return True


class Driver:
  """Drives an agent through protocol words with a shadow log."""

  def __init__(self, rec, name, a, where):
    self.rec, self.name, self.a, self.where = rec, name, a, where
    self.log = []               # stored transitions, in order
    self.mode = 'train'
    self.t = 0                  # clock that makes observations unique
    self.obs = self.act = None
    self.steps = 0              # expected training_steps
    self.ops = 0

  def observation(self):
    self.t += 1
    return np.array([np.sin(.7 * self.t), self.t % 97 / 97.], np.float32)

  def say(self):
    return f'{self.where}, operation {self.ops}'

  def snapshot(self):
    a = self.a
    return dict(params=a.online_params, target=a.target_network_params,
                opt=a.optimizer_state, steps=a.training_steps,
                count=int(a._replay.add_count))

  def call(self, f, stored, trains):
    """Runs f; stored: transition this call must add; trains: _train_step."""
    rec, a = self.rec, self.a
    before = self.snapshot()
    if hasattr(a, 'replay_elements'):
      del a.replay_elements
    act = f()
    after = self.snapshot()
    self.ops += 1
    rec.transitions += 1
    if self.mode == 'eval':
      for k in before:
        ok = (before[k] == after[k] if k in ('steps', 'count') else
              same(before[k], after[k]))
        rec.check(ok, 'eval-frozen', f'{self.say()}: {k} changed in '
                  'evaluation mode')
      return act
    # Memory.
    if stored is not None:
      self.log.append(stored)
    rec.check(after['count'] == len(self.log), 'stored', f'{self.say()}: '
              f'{after["count"]} transitions stored, expected {len(self.log)}')
    if stored is not None and after['count']:
      i = (after['count'] - 1) % a._replay._replay_capacity
      s = a._replay._store
      got = (s['observation'][i].reshape(-1), int(s['action'][i]),
             float(s['reward'][i]), int(s['terminal'][i]))
      o, ac, r, term, end = stored
      rec.check(np.array_equal(got[0], o.reshape(-1)), 'stored',
                f'{self.say()}: stored observation {got[0]}, the agent saw {o}')
      rec.check(got[1:] == (ac, r, int(term)), 'stored', f'{self.say()}: '
                f'stored action, reward, terminal {got[1:]}, happened '
                f'{(ac, r, int(term))}')
      rec.check(bool(i in a._replay.episode_end_indices) == bool(end or term),
                'stored', f'{self.say()}: episode end marked '
                f'{i in a._replay.episode_end_indices}, expected {end or term}')
    # Training.
    if not trains:
      rec.check(same(before['params'], after['params']) and
                after['steps'] == before['steps'], 'train', f'{self.say()}: '
                'trained outside of a step')
      return act
    ready = after['count'] > a.min_replay_history
    update = ready and before['steps'] % a.update_period == 0
    rec.check(after['steps'] == before['steps'] + 1, 'train', f'{self.say()}: '
              f'training_steps {before["steps"]} -> {after["steps"]}')
    rec.state((self.name, self.mode, update, ready,
               before['steps'] % a.target_update_period == 0))
    if update:
      if rec.check(hasattr(a, 'replay_elements'), 'train',
                   f'{self.say()}: no update'):
        rec.count('updates')
        self.check_update(before, after)
    else:
      rec.check(not hasattr(a, 'replay_elements') and
                same(before['params'], after['params']) and
                same(before['opt'], after['opt']), 'train', f'{self.say()}: '
                f'updated at training step {before["steps"]} with '
                f'{after["count"]} transitions')
    sync = ready and before['steps'] % a.target_update_period == 0
    rec.check(same(after['target'],
                   after['params'] if sync else before['target']), 'target',
              f'{self.say()}: target network at training step '
              f'{before["steps"]} ' + ('not synchronised' if sync else
                                       'changed'))
    return act

  def check_update(self, before, after):
    from dopamine.jax.agents.dqn import dqn_agent as d
    from dopamine.jax.agents.quantile import quantile_agent as qa
    a, e, rec = self.a, self.a.replay_elements, self.rec
    n = len(self.log)
    low = max(0, n - a._replay._replay_capacity)
    for j in range(len(e['action'])):
      o = e['state'][j][..., 0]
      hits = [i for i in range(low, n)
              if np.array_equal(self.log[i][0], o)]
      ok = any(self.log[i][1] == int(e['action'][j]) and
               abs(self.log[i][2] - float(e['reward'][j])) < 1e-6 and
               bool(self.log[i][3]) == bool(e['terminal'][j]) and
               (self.log[i][3] or (i + 1 < n and not self.log[i][4] and
                                   np.array_equal(self.log[i + 1][0],
                                                  e['next_state'][j][..., 0])))
               for i in hits)
      rec.check(ok, 'batch', f'{self.say()}: trained on a transition that did '
                f'not happen: {o}, {e["action"][j]}, {e["reward"][j]}, '
                f'{e["next_state"][j][..., 0]}, {e["terminal"][j]}')
    args = (a.network_def, before['params'], before['target'], a.optimizer,
            before['opt'], e['state'], e['action'], e['next_state'],
            e['reward'], e['terminal'])
    if self.name == 'dqn':
      opt, params, loss = d.train(*args, a.cumulative_gamma, a._loss_type)
    else:
      opt, params, loss, _ = qa.train(*args, a._kappa, a._num_atoms,
                                      a.cumulative_gamma)
      if self.name != 'uniform':
        p = np.sqrt(np.asarray(loss) + 1e-10)
        cur = (int(a._replay.add_count) - 1) % a._replay._replay_capacity
        ind = [int(x) for x in e['indices']]
        for k, i in enumerate(ind):
          if i != cur and ind.count(i) == 1:
            rec.close(a._replay.sum_tree.get(i), p[k], 'priority',
                      f'{self.say()}: priority of transition {i}', rel=1e-4)
    rec.check(same(params, after['params'], 1e-5) and
              same(opt, after['opt'], 1e-5), 'update', f'{self.say()}: the '
              'parameters after the update are not those of one training step '
              'on the sampled batch')
    rec.check(not same(before['params'], after['params']) or
              bool(np.all(np.asarray(loss) == 0)), 'update', f'{self.say()}: '
              'the update changed nothing')

  def mode_to(self, m):
    self.a.set_mode(agent_lib.AgentMode(m) if self.t % 2 else m)
    self.mode = m

  def action(self, act, obs, explored):
    """Validity, greediness of an action."""
    rec = self.rec
    v = int(act)
    rec.check(v in (0, 1, 2) and np.shape(act) == (), 'valid',
              f'{self.say()}: action {act!r}')
    if explored is not None:
      rec.check(v == explored, 'executed', f'{self.say()}: the exploration '
                f'chose {explored}, returned {v}')
    elif self.mode == 'eval' or self.a.epsilon_train == 0:
      g = agents.forward(self.a)(obs)
      rec.check(v in g, 'greedy', f'{self.say()}: action {v}, greedy {g}')
    return v

  def begin(self):
    del Shift.log[:]
    o = self.observation()
    act = self.call(lambda: self.a.begin_episode(o.copy()), None, True)
    ex = None
    if self.name == 'explore' and self.mode == 'train':
      ex = (Shift.log[-1][1] + 1) % 3
      self.rec.check(Shift.log[0][0] == 'begin' and len(Shift.log) == 1,
                     'explore', f'{self.say()}: exploration got {Shift.log}')
    elif self.name == 'explore':
      self.rec.check(not Shift.log, 'explore', f'{self.say()}: exploration '
                     'consulted in evaluation')
    self.obs, self.act = o, self.action(act, o, ex)

  def step(self, r):
    o = self.observation()
    k = len(Shift.log)
    act = self.call(lambda: self.a.step(r, o.copy()),
                    (self.obs, self.act, r, False, False), True)
    ex = None
    if self.name == 'explore':
      new = Shift.log[k:]
      if self.mode == 'train':
        self.rec.check(len(new) == 1 and new[0][0] == 'step', 'explore',
                       f'{self.say()}: exploration got {new}')
        ex = new[0][1] if len(Shift.log) % 2 else (new[0][1] + 1) % 3
      else:
        self.rec.check(not new, 'explore', f'{self.say()}: exploration '
                       'consulted in evaluation')
    self.obs, self.act = o, self.action(act, o, ex)

  def end(self, r, terminal):
    self.call(lambda: self.a.end_episode(r, terminal),
              (self.obs, self.act, r, terminal, True), False)

  def episode(self, m, n, terminal):
    self.mode_to(m)
    self.begin()
    for i in range(n):
      self.step((self.t % 11) / 8.)
    self.end((self.t % 7) / 4., terminal)


def seed_all(s):
  np.random.seed(s)
  random.seed(s)


def do_replay(case, rec):
  w = words.debruijn(len(EPISODES), case['depth'])
  size = -(-len(w) // case['parts'])
  lo = max(0, case['part'] * size - case['depth'])
  w = w[lo:(case['part'] + 1) * size]
  a = build(case['name'], [f'AGENT.update_period={case["update"]}',
                           f'AGENT.target_update_period={case["target"]}',
                           f'AGENT.min_replay_history={case["history"]}'])
  # One complete ordinary episode first, so that sampling finds a batch.
  d = Driver(rec, case['name'], a, f'{case}')
  seed_all(case['part'])
  d.episode('train', 8, True)
  for k, i in enumerate(w):
    d.where = f'{case["name"]} agent, episode {k}: {EPISODES[i]} after ' + (
        f'{[EPISODES[j] for j in w[max(0, k - 2):k]]}')
    d.episode(*EPISODES[i])
    rec.trace()
    rec.ev(outcome=(case['name'], i, w[k - 1] if k else None))


def do_switch(case, rec):
  """Modes switched at every position within episodes."""
  a = build(case['name'], ['AGENT.min_replay_history=20'])
  d = Driver(rec, case['name'], a, '')
  seed_all(1)
  d.episode('train', 21, True)
  n = case['n']
  for w in itertools.product(('train', 'eval'), repeat=n - 1):
    d.where = f'{case["name"]} agent, modes {w}'
    d.mode_to(w[0])
    d.begin()
    for m in w[1:-1]:
      d.mode_to(m)
      d.step((d.t % 5) / 8.)
    d.mode_to(w[-1])
    d.end(.5, d.t % 2 == 0)
    rec.trace()
    rec.ev(outcome=(case['name'], w))
  for bad in ('Train', '', 'test', None, 0):
    rec.raises((ValueError,), lambda b=bad: a.set_mode(b), 'mode',
               f'{case["name"]}: mode {bad!r}')


def do_checkpoint(case, rec):
  name = case['name']
  eps = 'AGENT.epsilon_train=0.0'
  a = build(name, [eps])
  d = Driver(rec, name, a, f'{name} agent')
  seed_all(2)
  with agents.scratch() as top:
    for k in range(case['n']):
      d.episode('train', 1 + (3 * k + case['part']) % 6, k % 3 == 0)
      where = f'{name} agent, checkpoint after episode {k}'
      # A new directory every time: retention is the business of C24.
      ck = os.path.join(top, str(k))
      a.save_checkpoint(ck, k)
      for via in ('load', 'reload'):
        b = build(name, [eps], seed=17 + k)
        if via == 'load':
          b.load_checkpoint(ck, k)
        else:
          got = b.reload_latest_checkpoint(ck)
          rec.check(got == k, 'reload', f'{where}: latest {got}')
        for what in ('online_params', 'target_network_params',
                     'optimizer_state'):
          rec.check(same(getattr(a, what), getattr(b, what)), 'restored',
                    f'{where}, {via}: {what} differ')
        rec.check(a.training_steps == b.training_steps, 'restored',
                  f'{where}, {via}: training steps {b.training_steps}, '
                  f'saved {a.training_steps}')
        rec.check(memory(a) == memory(b), 'restored', f'{where}, {via}: the '
                  'replay memory differs')
        # Both continue alike: training on the same data, then greedily.
        c = build(name, [eps], seed=99)
        c.load_checkpoint(ck, k)
        out = []
        for x in (b, c):
          seed_all(5)
          del Shift.log[:]
          x.set_mode('train')
          acts = [int(x.begin_episode(np.array([.1, .2], np.float32)))]
          for i in range(6):
            acts.append(int(x.step(i / 4., np.array([np.sin(i), .1 * i],
                                                    np.float32))))
          x.end_episode(1., True)
          x.set_mode('eval')
          acts += [int(x.begin_episode(np.array([u, v], np.float32)))
                   for u in (-1., 0., 1.) for v in (0., .5)]
          out.append((acts, agents.tree(x.online_params), x.training_steps))
        rec.check(out[0] == out[1], 'continue', f'{where}, {via}: two agents '
                  'restored from it continue differently')
        a.set_mode('eval')
        e = build(name, [eps], seed=3)
        e.load_checkpoint(ck, k)
        e.set_mode('eval')
        for u in (-1., 0., 1.):
          o = np.array([u, .3], np.float32)
          rec.check(int(a.begin_episode(o)) == int(e.begin_episode(o)),
                    'decision', f'{where}: decides differently on {o}')
        rec.trace()
        rec.ev(outcome=(name, k, via))
        rec.state((name, k, via, a.training_steps))
      a.set_mode('train')
    # An absent checkpoint changes nothing and is reported.
    b = build(name, [eps], seed=8)
    p = b.online_params
    r = b.reload_latest_checkpoint(os.path.join(top, 'absent'))
    rec.check(r == -1 and same(p, b.online_params), 'absent',
              f'{name}: reload without checkpoint gives {r}')


def memory(a):
  r = a._replay
  n = min(int(r.add_count), r._replay_capacity)
  out = [int(r.add_count)]
  for k in sorted(r._store):
    out.append((k, r._store[k][:n].tolist()))
  if hasattr(r, 'sum_tree'):
    out.append([r.sum_tree.get(i) for i in range(n)])
  return out


# ---------------------------------------------------------------- MLP agent
MLP_OPS = ['step0', 'step1', 'end_t', 'end_f', 'train', 'eval']


def backprop(layers, x, out_grad):
  """Gradient of out_grad . mlp(x) with respect to every kernel and bias."""
  acts, h = [np.asarray(x, float).reshape(-1)], np.asarray(x, float).reshape(-1)
  for i, (k, b) in enumerate(layers):
    h = h @ k + b
    if i + 1 < len(layers):
      h = np.maximum(h, 0.)
    acts.append(h)
  g, out = np.asarray(out_grad, float), []
  for i in reversed(range(len(layers))):
    if i + 1 < len(layers):
      g = g * (acts[i + 1] > 0)
    out.append((np.outer(acts[i], g), g))
    g = layers[i][0] @ g
  return out[::-1]


def sarsa(layers, s, a, r, s2, a2, gamma, lr):
  """One step of SGD on (q(s, a) - r - gamma q(s2, a2))^2."""
  delta = agents.mlp(layers, s)[a] - r - gamma * agents.mlp(layers, s2)[a2]
  one, two = np.zeros(3), np.zeros(3)
  one[a], two[a2] = 1., 1.
  g1, g2 = backprop(layers, s, one), backprop(layers, s2, two)
  return [(k - lr * 2 * delta * (p[0] - gamma * q[0]),
           b - lr * 2 * delta * (p[1] - gamma * q[1]))
          for (k, b), p, q in zip(layers, g1, g2)]


def do_mlp(case, rec):
  import gin
  gin.clear_config()
  gin.parse_config([f'networks.MLPNetwork.num_layers={case["layers"]}',
                    'networks.MLPNetwork.hidden_units=3',
                    'mlp_agent.create_optimizer.learning_rate=0.05'])
  from balloon_learning_environment.agents import mlp_agent
  for gamma in (0.9, 0.5):
    a = mlp_agent.MLPAgent(3, (2,), gamma=gamma, seed=case['first'])
    p0, o0 = a.network_params, a.optimizer_state
    n = [0]
    for w in itertools.product(range(len(MLP_OPS)), repeat=case['depth'] - 2):
      word = [MLP_OPS[case['first']], 'begin'] + [MLP_OPS[i] for i in w]
      if 'end' in word[0] or 'step' in word[0]:
        word = ['begin'] + word
      # One agent per case, restarted in its initial parameters: what it
      # learned in other words may not matter.
      a.network_params, a.optimizer_state = p0, o0
      a.set_mode('train')
      mode = 'train'
      last = None
      layers = agents.dense(a.network_params)
      where = f'mlp agent, layers {case["layers"]}, gamma {gamma}, {word}'
      for op in word:
        n[0] += 1
        obs = np.array([np.sin(n[0]), (n[0] % 5) / 4. - .5], np.float32)
        if op in ('train', 'eval'):
          mode = op
          a.set_mode(op)
        elif op.startswith('end'):
          a.end_episode(.7, op == 'end_t')
        else:
          r = (float(op == 'step1') if gamma == .9 else
               2.5 if op == 'step1' else -3.)
          q = agents.mlp(layers, obs)
          act = a.begin_episode(obs) if op == 'begin' else a.step(r, obs)
          v = int(act)
          if not rec.check(v in (0, 1, 2) and q[v] >= q.max() - 1e-5, 'mlp-greedy',
                           f'{where}: {op} returns {act}, values {q}'):
            break
          if op != 'begin' and mode == 'train':
            layers = sarsa(layers, last[0], last[1], r, obs, v, gamma, .05)
          last = (obs, v)
        got = agents.dense(a.network_params)
        if not rec.check(all(np.allclose(x, y, rtol=2e-4, atol=2e-5)
                             for g, l in zip(got, layers)
                             for x, y in zip(g, l)), 'mlp-update',
                         f'{where}: after {op} in {mode} mode the parameters '
                         f'are {got}, expected {layers}'):
          break
        layers = got          # no accumulation of rounding
        rec.transitions += 1
        rec.state((op, mode, last is not None and last[1]))
      rec.trace()
      rec.ev(outcome=(case['layers'], gamma, tuple(word)))
  for bad in ('Train', '', None, 1):
    rec.raises((ValueError,), lambda b=bad: a.set_mode(b), 'mode',
               f'mlp: mode {bad!r}')


# ---------------------------------------------------------------- networks
def do_network(case, rec):
  import jax
  import jax.numpy as jnp
  l, h = case['layers'], case['hidden']
  inputs = [np.array(x, np.float32) for x in itertools.product(
      (-2., 0., .5, 1.), repeat=3)]
  inputs += [x.reshape(3, 1) for x in inputs[:5]] + [
      x.astype(np.float64) for x in inputs[:5]]
  for na in (2, 3, 4):
    for atoms in (None, 1, 2, 51):
      key = jax.random.PRNGKey(l * 10 + h)
      if atoms is None:
        nets = [networks.MLPNetwork(num_actions=na, num_layers=l,
                                    hidden_units=h, is_dopamine=d)
                for d in (False, True)]
      else:
        nets = [networks.QuantileNetwork(num_actions=na, num_layers=l,
                                         hidden_units=h, num_atoms=atoms)]
      for net in nets:
        params = net.init(key, jnp.zeros(3))
        layers = agents.dense(params)
        sizes = [3] + [h] * (l - 1) + [na * (atoms or 1)]
        rec.check([k.shape for k, _ in layers] ==
                  list(zip(sizes, sizes[1:])), 'layers',
                  f'{case} layers {[k.shape for k, _ in layers]}, expected '
                  f'{sizes}')
        # Biases start at zero: move everything so that each part counts.
        params = jax.tree_util.tree_map(
            lambda v: v + .05 * jnp.cos(jnp.arange(v.size)).reshape(v.shape),
            params)
        layers = agents.dense(params)
        f = jax.jit(net.apply)
        for x in inputs:
          out = f(params, x)
          want = agents.mlp(layers, x)
          where = f'{type(net).__name__} {case} atoms {atoms} input {x.tolist()}'
          if atoms is None:
            q = out.q_values if getattr(net, 'is_dopamine') else out
            rec.check(np.shape(q) == (na,) and
                      np.allclose(q, want, rtol=1e-4, atol=1e-5), 'forward',
                      f'{where}: {q}, expected {want}')
          else:
            lg = want.reshape(na, atoms)
            e = np.exp(lg - lg.max(axis=1, keepdims=True))
            rec.check(np.allclose(out.logits, lg, rtol=1e-4, atol=1e-5) and
                      np.allclose(out.q_values, lg.mean(axis=1), rtol=1e-4,
                                  atol=1e-5) and
                      np.allclose(out.probabilities,
                                  e / e.sum(axis=1, keepdims=True), rtol=1e-4,
                                  atol=1e-5), 'forward', f'{where}: {out}')
          rec.trans()
        rec.ev(outcome=(l, h, na, atoms), n=len(inputs))
        rec.state((l, h, na, atoms, type(net).__name__))
    rec.trace()


def do_published(case, rec):
  """The published quantile configuration with its real random walk."""
  a = agents.make('quantile', (1099,), 4, [
      'MarcoPoloExploration.exploratory_episode_probability = 1.0',
      'OutOfGraphPrioritizedReplayBuffer.replay_capacity=500'])
  rng = np.random.RandomState(0)
  seen = []
  for ep in range(2):
    obs = rng.rand(1099).astype(np.float32)
    act = a.begin_episode(obs)
    for i in range(125):
      seen.append((obs, int(act)))
      obs = rng.rand(1099).astype(np.float32)
      act = a.step(.5, obs)
      rec.check(int(act) in (0, 1, 2), 'valid', f'action {act!r}')
      rec.trans()
    seen.append((obs, int(act)))
    a.end_episode(1., ep == 0)
  got = [(a._replay._store['observation'][i].reshape(-1),
          int(a._replay._store['action'][i])) for i in range(len(seen))]
  for i, (g, s) in enumerate(zip(got, seen)):
    rec.check(np.array_equal(g[0], s[0]) and g[1] == s[1], 'stored',
              f'published configuration: transition {i} stored action {g[1]}, '
              f'executed {s[1]}')
    rec.ev(outcome=i)
  rec.check(int(a._replay.add_count) == len(seen), 'stored',
            f'{a._replay.add_count} transitions of {len(seen)}')
  rec.state('published')
  rec.trace()
