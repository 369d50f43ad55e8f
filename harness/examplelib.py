"""Loads the example programs with stand-ins for what they need and is absent.

optax, tensorflow, tensorflow_datasets, dm_env, rlax and dm-tree are not
installed. The stand-ins below provide the few pieces the examples' models and
helpers use; data loading and optimisers are never exercised.
"""
import collections
import enum
import importlib
import os
import sys
import types
from unittest import mock

from absl import flags as absl_flags
import jax

import core


class StepType(enum.IntEnum):
  FIRST = 0
  MID = 1
  LAST = 2


class TimeStep(collections.namedtuple(
    "TimeStep", ["step_type", "reward", "discount", "observation"])):
  __slots__ = ()

  def first(self):
    return self.step_type == StepType.FIRST

  def last(self):
    return self.step_type == StepType.LAST


def restart(observation):
  return TimeStep(StepType.FIRST, None, None, observation)


def map_structure(fn, t):
  if isinstance(t, tuple) and hasattr(t, "_fields"):
    return type(t)(*[map_structure(fn, v) for v in t])
  if isinstance(t, (tuple, list)):
    return type(t)(map_structure(fn, v) for v in t)
  if isinstance(t, dict):
    return type(t)((k, map_structure(fn, v)) for k, v in sorted(t.items()))
  return fn(t)


def flatten_with_path(t, path=()):
  if isinstance(t, collections.abc.Mapping):
    return [x for k in sorted(t) for x in flatten_with_path(t[k], path + (k,))]
  return [(path, t)]


class Sgd:
  """The shape of an optax.GradientTransformation, for momentum descent."""

  def init(self, params):
    return jax.tree_util.tree_map(lambda p: p * 0, params)

  def update(self, grads, state):
    new = jax.tree_util.tree_map(lambda m, g: 0.5 * m + g, state, grads)
    return jax.tree_util.tree_map(lambda m: -0.1 * m, new), new


def apply_updates(params, updates):
  return jax.tree_util.tree_map(lambda p, u: p + u, params, updates)


def _stubs():
  s = {}
  for n in ("tensorflow", "tensorflow.compat", "tensorflow.compat.v2",
            "tensorflow_datasets", "optax", "rlax", "dm_env", "tree"):
    m = types.ModuleType(n)
    m.__getattr__ = lambda name: mock.MagicMock()
    m.__path__ = []
    s[n] = m
  s["optax"].apply_updates = apply_updates
  s["optax"].GradientTransformation = Sgd
  s["optax"].TraceState = s["optax"].ScaleByScheduleState = tuple
  s["optax"].ScaleState = tuple
  s["dm_env"].TimeStep, s["dm_env"].StepType = TimeStep, StepType
  s["dm_env"].restart = restart
  s["tree"].map_structure = map_structure
  s["tree"].flatten_with_path = flatten_with_path
  return s


def _flags_module():
  """absl.flags with a registry of its own: the examples' flags clash."""
  values = absl_flags.FlagValues()
  m = types.ModuleType("absl.flags")
  for n in dir(absl_flags):
    v = getattr(absl_flags, n)
    if n.startswith("DEFINE_"):
      v = (lambda f: lambda *a, **k: f(*a, **dict(k, flag_values=values)))(v)
    setattr(m, n, v)
  m.FLAGS = values
  return m


_cache = {}


def load(name):
  """Imports examples.<name> from the tree under test."""
  if name in _cache:
    return _cache[name]
  import absl  # pylint: disable=g-import-not-at-top
  if "examples" not in sys.modules or not getattr(
      sys.modules["examples"], "_vp", False):
    pkg = types.ModuleType("examples")
    pkg.__path__ = [os.path.join(core.REPO, "examples")]
    pkg._vp = True
    sys.modules["examples"] = pkg
  stubs = _stubs()
  fm = _flags_module()
  stubs["absl.flags"] = fm
  saved = {k: sys.modules.get(k) for k in stubs}
  real = absl.flags
  sys.modules.update(stubs)
  absl.flags = fm
  try:
    m = importlib.import_module("examples." + name)
  finally:
    absl.flags = real
    for k, v in saved.items():
      if v is None:
        sys.modules.pop(k, None)
      else:
        sys.modules[k] = v
  fm.FLAGS.mark_as_parsed()
  _cache[name] = m
  return m
