"""Scripted environments, agents and collectors that record what happens."""
import types

from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.metrics import collector
import gym
import numpy as np


class Boom(Exception):
  """A simulated crash."""


def reward_of(episode, step):
  """The reward of a step: a number with no short decimal form."""
  return 100. * (episode + 1) + step + 1. / (3 * step + 7)


class Env(gym.Env):
  """Episode e ends with a terminal at its scripted length (None: never)."""

  def __init__(self, lengths, log, crash_at=None, num_actions=3):
    self.lengths = list(lengths)
    self.log = log
    self.action_space = types.SimpleNamespace(n=num_actions)
    self.episode = -1
    self.steps = 0
    self.total = 0
    self.crash_at = crash_at

  def obs(self):
    return ('obs', self.episode, self.steps)

  def reward(self):
    return reward_of(self.episode, self.steps)

  def reset(self, **kw):
    self.episode += 1
    self.steps = 0
    self.log.append(('reset',))
    return self.obs()

  def step(self, action):
    self.total += 1
    if self.crash_at is not None and self.total == self.crash_at:
      raise Boom()
    self.steps += 1
    n = self.lengths[self.episode] if self.episode < len(self.lengths) else None
    terminal = n is not None and self.steps >= n
    self.log.append(('env', action))
    return self.obs(), self.reward(), terminal, {}

  def render(self, *a, **k):
    self.log.append(('render',))


class Agent(base_agent.Agent):
  """Acts by a counter, so that every action can be told apart."""

  def __init__(self, log, num_actions=3, start=-1):
    self.log = log
    self.n = 0
    self.start = start
    self.summary_writer = None
    super().__init__(num_actions, (1,))

  def act(self):
    self.n += 1
    return (self.n * self.n + 1) % self._num_actions

  def begin_episode(self, observation):
    a = self.act()
    self.log.append(('begin', observation, a))
    return a

  def step(self, reward, observation):
    a = self.act()
    self.log.append(('step', reward, observation, a))
    return a

  def end_episode(self, reward, terminal=True):
    self.log.append(('end', reward, bool(terminal)))

  def set_mode(self, mode):
    self.log.append(('mode', base_agent.AgentMode(mode).value))

  def set_summary_writer(self, w):
    self.log.append(('writer', w))

  def save_checkpoint(self, d, i):
    self.log.append(('save', d, i))

  def load_checkpoint(self, d, i):
    self.log.append(('load', d, i))

  def reload_latest_checkpoint(self, d):
    self.log.append(('reload', d))
    return self.start


class Recording(collector.Collector):
  """A collector that logs its life cycle."""

  def __init__(self, log, tag, args, writer=None):
    self.log, self.tag = log, tag
    self.summary_writer = writer
    log.append((tag, 'new', args))

  def get_name(self):
    return self.tag

  def pre_training(self):
    self.log.append((self.tag, 'pre'))

  def begin_episode(self):
    self.log.append((self.tag, 'begin'))

  def step(self, s):
    self.log.append((self.tag, 'step', s.step, s.action, s.reward,
                     bool(s.terminal)))

  def end_episode(self, s):
    self.log.append((self.tag, 'end', s.step, s.action, s.reward,
                     bool(s.terminal)))

  def end_training(self):
    self.log.append((self.tag, 'post'))


def plain(x):
  return np.asarray(x).tolist()
