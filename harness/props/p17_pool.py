"""P17: max and average pooling against window-by-window references."""
import itertools

from core import Prop, Sub, Violation, check, eq, raises, close
import nnlib as nn
import convref as cr
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk


def size_strat():
  return st.one_of(st.integers(1, 3),
                   nn.bigger(st.lists(st.integers(1, 3), min_size=1,
                                      max_size=5), 4, 5, 9))


def strat():
  return st.fixed_dictionaries({
      "shape": nn.bigger(st.lists(st.integers(1, 5), min_size=2, max_size=5)),
      "window": size_strat(), "stride": size_strat(),
      "pad": st.sampled_from(["SAME", "VALID", "SAME", "VALID", "same",
                              "FULL"]),
      "ch": st.sampled_from(["default", "default", -1, 1, -2, 2, None, 0, 7]),
      "max": st.booleans(), "module": st.booleans(), "list": st.booleans(),
      "dtype": st.sampled_from(["float32"] * 4 + ["bfloat16"]),
      "neg": st.booleans(),
      # The window covers the whole of the middle axes.
      "whole": st.sampled_from([0] * 6 + [1, 131]),
      "inf": st.sampled_from([0, 0, 0, 1, 2]), "seed": st.integers(0, 99)})


def infer(size, nd, ch):
  if isinstance(size, int):
    if ch and not abs(ch) < nd:
      return None
    skip = None if ch is None else ch % nd
    return [1] + [1 if d == skip else size for d in range(1, nd)]
  return [1] * (nd - len(size)) + list(size)


def pool_ref(x, win, stride, pad, is_max):
  nd = x.ndim
  pads = [cr.same_pads(n, w, s) if pad == "SAME" else (0, 0)
          for n, w, s in zip(x.shape, win, stride)]
  xp = np.pad(x, pads, constant_values=np.nan)
  outs = [max((n - w) // s + 1, 0)
          for n, w, s in zip(xp.shape, win, stride)]
  res = np.zeros(outs)
  for o in itertools.product(*map(range, outs)):
    v = xp[tuple(slice(a * s, a * s + w) for a, s, w in zip(o, stride, win))]
    v = v[~np.isnan(v)]
    res[o] = v.max() if is_max else v.mean()
  return res


def run(case):
  shape, dt = tuple(case["shape"]), case["dtype"]
  nd = len(shape)
  ch = -1 if case["ch"] == "default" else case["ch"]
  cut = lambda v: v if isinstance(v, int) else v[:nd]
  win, stride = cut(case["window"]), cut(case["stride"])
  if case["whole"] and dt == "float32":
    if case["whole"] > 1 and np.prod(shape) < 60:
      shape = shape[:1] + (case["whole"],) + shape[2:]
    win = [1] + list(shape[1:-1]) + [1] if nd > 2 else list(shape)
  x64 = nn.rnd(case["seed"], shape)
  if case["neg"]:
    x64 = -np.abs(x64) - 1
  if case["inf"] and case["max"]:
    # Masked-out entries; windows may hold nothing else.
    hide = np.random.RandomState(case["seed"]).rand(*shape) < (
        0.5 if case["inf"] == 1 else 0.95)
    x64 = np.where(hide, -np.inf, x64)
  x, xn = nn.cast(x64, dt)
  kind = (lambda v: v if isinstance(v, int) or case["list"] else tuple(v))
  a = [kind(win), kind(stride), case["pad"]]
  if case["ch"] != "default":
    a.append(ch)
  if case["module"]:
    Cls = hk.MaxPool if case["max"] else hk.AvgPool
    run_ = lambda v: hk.transform(lambda u: Cls(*a)(u)).apply({}, None, v)
  else:
    fn = hk.max_pool if case["max"] else hk.avg_pool
    run_ = lambda v: fn(v, *a)
  if case["pad"] not in ("SAME", "VALID"):
    raises(lambda: run_(x), ValueError, f"padding {case['pad']}")
    return ["rejected"]
  w, s = infer(win, nd, ch), infer(stride, nd, ch)
  if w is None or s is None:
    raises(lambda: run_(x), ValueError, f"channel axis {ch}")
    return ["rejected"]
  if case["pad"] == "VALID" and any(a_ > b for a_, b in zip(w, shape)):
    return ["empty"]
  out = run_(x)
  ref = pool_ref(xn, w, s, case["pad"], case["max"])
  hidden = np.isneginf(ref)
  check(np.array_equal(np.isneginf(np.asarray(out.astype(jnp.float32))),
                       hidden), "windows of -inf only")
  out, ref = jnp.where(hidden, 0, out), np.where(hidden, 0, ref)
  close(out, ref, "max_pool" if case["max"] else "avg_pool", dtype=dt,
        **nn.tol(dt))
  if not isinstance(win, int) and not isinstance(stride, int):
    # Extra leading dimensions are batch dimensions.
    y, yn = nn.cast(nn.rnd(case["seed"] + 1, (2,) + shape), dt)
    if len(win) <= nd and len(stride) <= nd:
      both = run_(y)
      per = jax.vmap(run_)(y)
      close(both, np.asarray(per.astype(jnp.float32)), "batched and vmapped",
            **nn.tol(dt))
  return (["nt"] if max(w) > 1 and case["pad"] == "SAME" or max(s) > 1
          else []) + ["max" if case["max"] else "avg"]


PROP = Prop("P17", [
    Sub("pool", strat, run, 3500, 40000,
        "a window larger than 1 with SAME padding, or a stride above 1"),
])
