"""Helpers for checks of layers against float64 numpy references."""
import zlib

import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk
from hypothesis import strategies as st

from core import Violation, check, eq, close, same_struct, fail

TOL = {"float32": (2e-4, 2e-5), "float16": (2e-2, 2e-2),
       "bfloat16": (8e-2, 8e-2), "float64": (1e-9, 1e-9)}


def tol(dtype, k=1.0):
  r, a = TOL[str(dtype)]
  return dict(rtol=r * k, atol=a * k)


def rnd(seed, shape, scale=1.0, lo=None, hi=None):
  r = np.random.RandomState(seed % (2**32))
  if lo is not None:
    return r.uniform(lo, hi, size=shape)
  return r.randn(*shape) * scale


def cast(x, dtype):
  """A jax array of the given dtype, and the float64 values it holds."""
  a = jnp.asarray(np.asarray(x, np.float32)).astype(dtype)
  return a, np.asarray(a.astype(jnp.float32)).astype(np.float64)


BIG = (9, 17, 40, 71, 128, 131)


def dim(lo, hi, *big):
  """A small size, and about one time in eight a large one."""
  small = list(range(lo, hi + 1))
  big = list(big) or list(BIG)
  k = max(1, -(-7 * len(big) // len(small)))
  return st.sampled_from(small * k + big)


def bigger(lists, *big, cap=4000):
  """Lists of sizes, one of them large about one time in eight."""
  def put(t):
    v, b, i = t
    v = list(v)
    if b is not None and v:
      v[i % len(v)] = b
    return v if np.prod(v) <= cap else list(t[0])
  big = list(big) or list(BIG)
  return st.tuples(lists, st.sampled_from([None] * 7 * len(big) + big),
                   st.integers(0, 3)).map(put)


def shape_of(v):
  return tuple(v.shape) if hasattr(v, "shape") else np.shape(v)


def fill(struct, seed, scale=0.5, positive=()):
  """Random values for a parameter/state tree: (jax tree, float64 tree)."""
  j, n = {}, {}
  for m in struct:
    j[m], n[m] = {}, {}
    for k in struct[m]:
      v = struct[m][k]
      h = zlib.crc32(f"{seed}|{m}|{k}".encode())
      x = rnd(h, shape_of(v), scale)
      if k in positive:
        x = np.abs(x) + 0.3
      dt = getattr(v, "dtype", np.float32)
      if np.dtype(dt).kind in "iu" and str(dt) != "bfloat16":
        j[m][k] = jnp.asarray(v)
        n[m][k] = np.asarray(v)
        continue
      j[m][k], n[m][k] = cast(x, dt)
  return j, n


def shapes(tree):
  return {str(m): {str(k): (shape_of(v), str(v.dtype))
                   for k, v in b.items()} for m, b in tree.items()}


def want_shapes(tree, want, what):
  """want: {module: {name: shape or (shape, dtype)}}."""
  got = shapes(tree)
  w = {m: {k: (tuple(s[0]), s[1]) for k, s in b.items()}
       for m, b in want.items() if b}
  got = {m: b for m, b in got.items() if b}
  if got != w:
    raise Violation(f"{what}: {got}, expected {w}")


def f64(tree):
  return jax.tree_util.tree_map(
      lambda v: np.asarray(jnp.asarray(v).astype(jnp.float32)
                           if jnp.asarray(v).dtype == jnp.bfloat16
                           else v).astype(np.float64), tree)


def relu(x):
  return np.maximum(x, 0)


def sigmoid(x):
  return 1.0 / (1.0 + np.exp(-x))


def softmax(x, axis=-1):
  e = np.exp(x - np.max(x, axis=axis, keepdims=True))
  return e / np.sum(e, axis=axis, keepdims=True)


def apply_arrays(t, params, x, as_np):
  """t.apply, perhaps on numpy arrays: they must come out as they went in."""
  if not as_np:
    return t.apply(params, None, x)
  tmap = jax.tree_util.tree_map
  np_args = tmap(np.array, (dict(params), x))
  before = tmap(np.array, np_args)
  out = t.apply(np_args[0], None, np_args[1])
  for a, b in zip(jax.tree_util.tree_leaves(np_args),
                  jax.tree_util.tree_leaves(before)):
    check(np.array_equal(a, b), "apply changed an array it was given")
  return out
