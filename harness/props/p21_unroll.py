"""P21: static and dynamic unrolls, state resets, over any core."""
from core import Prop, Sub, Violation, check, eq, raises, close
import nnlib as nn
import rnnref
from props.p20_cores import trees, random_state, kinds
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

seeds = st.integers(0, 10**6)


def strat():
  return st.fixed_dictionaries({
      "spec": rnnref.core_strategy(2), "width": st.integers(1, 3),
      "batch": st.sampled_from([None, 1, 2, 2, 3] * 3 + [9, 33]),
      "time": nn.dim(1, 5, 9, 17, 40, 130), "time_major": st.booleans(),
      "reset": st.sampled_from(["no", "yes", "yes", "nest", "deepest"]),
      "pattern": st.integers(0, 2**15 - 1),
      "start": st.sampled_from(["initial", "other"]),
      "jit": st.booleans(), "seed": seeds})


def bits(pattern, seed, shape):
  r = np.random.RandomState(pattern * 7 + seed)
  return np.asarray(r.rand(*shape) < 0.4)


def run(case):
  spec, width, batch, tt = (case["spec"], case["width"], case["batch"],
                            case["time"])
  tm = case["time_major"]
  if batch is None:
    tm = True
  reset = case["reset"]
  if reset != "no":
    spec = ["reset", spec]
  ref = rnnref.Ref(spec, width)
  lead = () if batch is None else (batch,)
  x, xn = nn.cast(nn.rnd(case["seed"], (tt,) + lead + (width,)), "float32")
  zero = ref.initial(batch)
  leaves, tdef = jax.tree_util.tree_flatten(zero)
  # Reset signals, time major here.
  sig = None
  if reset in ("yes", "nest", "deepest") and reset != "no":
    if reset == "yes" or len(leaves) < 2:
      sig = bits(case["pattern"], 0, (tt,) + lead)
      if len(leaves) == 1:
        pass
    elif reset == "nest":
      sig = jax.tree_util.tree_unflatten(tdef, [
          bits(case["pattern"], i, (tt,) + lead) for i in range(len(leaves))])
    else:
      # Each part of the state reset elementwise.
      sig = jax.tree_util.tree_unflatten(tdef, [
          bits(case["pattern"], i, (tt,) + l.shape)
          for i, l in enumerate(leaves)])
  inp = xn if sig is None else (xn, sig)
  jin = x if sig is None else (x, jax.tree_util.tree_map(jnp.asarray, sig))
  if not tm:
    sw = lambda v: jnp.swapaxes(v, 0, 1)
    jin = jax.tree_util.tree_map(sw, jin)
  if case["start"] == "initial":
    s0, s0n = jax.tree_util.tree_map(lambda v: jnp.asarray(v, jnp.float32),
                                     zero), zero
  else:
    s0, s0n = random_state(ref, batch, case["seed"] + 9)

  def f(which, inp, s):
    core, _ = rnnref.Builder().build(spec, width)
    un = hk.static_unroll if which == "static" else hk.dynamic_unroll
    kw = {} if tm and case["seed"] % 2 else {"time_major": tm}
    return un(core, inp, s, **kw)

  t = hk.transform_with_state(f)
  structs = {}
  # Long sequences are unrolled by the scan only: XLA needs minutes for them.
  kinds_ = ("static", "dynamic") if tt <= 17 else ("dynamic",)
  for which in kinds_:
    params, hstate = jax.eval_shape(lambda k, i, s: t.init(k, which, i, s),
                                    jax.random.PRNGKey(0), jin, s0)
    nn.want_shapes(params, ref.want, f"{which} params")
    structs[which] = params
  # Reference.
  j, n = nn.fill(structs["dynamic"], case["seed"])
  outs, s = [], s0n
  for k in range(tt):
    o, s = ref.step(n, jax.tree_util.tree_map(lambda v: v[k], inp), s)
    outs.append(o)
  want = np.stack(outs, 0)
  if not tm:
    want = np.swapaxes(want, 0, 1)
  for which in kinds_:
    hs = {m: {"n": jnp.zeros([])} for m in ref.ticks}
    jit = case["jit"] and (which == "dynamic" or tt <= 5)
    fn = lambda p, hs, i, s: t.apply(p, hs, None, which, i, s)
    (out, fin), hs = (jax.jit(fn) if jit else fn)(j, hs, jin, s0)
    close(out, want, f"{which} outputs", **nn.tol("float32", 5))
    trees(fin, s, f"{which} final state", **nn.tol("float32", 5))
    for m in ref.ticks:
      eq(float(hs[m]["n"]), float(tt), f"{which}: steps counted in state")
  ks = kinds(case["spec"])
  labels = sorted(ks) + [reset]
  if tt > 1 and (leaves or ref.ticks):
    labels.append("nt")
  if sig is not None and any(np.any(v) for v in
                             jax.tree_util.tree_leaves(sig)):
    labels.append("some-reset")
  return labels


# ------------------------------------------------- pure cores and nested values


def nest_strat():
  return st.fixed_dictionaries({
      "time": st.one_of(st.integers(1, 4), st.sampled_from([9, 17, 40, 71])), "batch": nn.dim(1, 3, 9, 33),
      "time_major": st.booleans(), "which": st.sampled_from(["static",
                                                             "dynamic"]),
      "same": st.booleans(), "inside": st.booleans(), "dtype": st.sampled_from(
          ["float32", "bfloat16", "int32"]), "seed": seeds})


def run_nest(case):
  """Nested inputs, outputs and states; plain callables in or out of transform."""
  tt, b, dt = case["time"], case["batch"], case["dtype"]
  r = np.random.RandomState(case["seed"])
  a = r.randint(-4, 5, size=(tt, b, 2))
  c = r.randint(-4, 5, size=(tt, b))
  ja, jc = jnp.asarray(a, dt), jnp.asarray(c, dt)
  if not case["time_major"]:
    ja, jc = jnp.swapaxes(ja, 0, 1), jnp.swapaxes(jc, 0, 1)

  if case["same"]:
    return same_nest(case, a, ja)

  def core(x, s):
    p, (q,) = x["a"], x["b"]
    tot = s[0] + p
    return {"sum": tot, "both": (q + s[1]["m"], p)}, (
        tot, {"m": jnp.maximum(s[1]["m"], q)})

  s0 = (jnp.zeros([b, 2], dt), {"m": jnp.full([b], -1, dt)})
  un = hk.static_unroll if case["which"] == "static" else hk.dynamic_unroll
  go = lambda: un(core, {"a": ja, "b": (jc,)}, s0,
                  time_major=case["time_major"])
  out, fin = hk.transform(go).apply({}, None) if case["inside"] else go()
  tot, m = np.zeros((b, 2)), np.full((b,), -1)
  ws, wb = [], []
  for k in range(tt):
    wb.append(c[k] + m)
    tot = tot + a[k]
    ws.append(tot)
    m = np.maximum(m, c[k])
  ax = 0 if case["time_major"] else 1
  trees(jax.tree_util.tree_map(lambda v: v.astype(jnp.float32), out),
        {"sum": np.stack(ws, ax), "both": (
            np.stack(wb, ax), np.asarray(ja.astype(jnp.float32)))}, "outputs")
  trees(jax.tree_util.tree_map(lambda v: v.astype(jnp.float32), fin),
        (tot, {"m": m}), "final state")
  for v in jax.tree_util.tree_leaves((out, fin)):
    eq(str(v.dtype), dt, "dtype")
  return ["nt"] if tt > 1 else []


def same_nest(case, a, ja):
  """Outputs with the structure of the state, but other values."""
  tt, b, dt = case["time"], case["batch"], case["dtype"]
  core = lambda x, s: ((x - 1, s[0]), (s[0] + x, -x))
  s0 = (jnp.zeros([b, 2], dt), jnp.ones([b, 2], dt))
  un = hk.static_unroll if case["which"] == "static" else hk.dynamic_unroll
  go = lambda: un(core, ja, s0, time_major=case["time_major"])
  out, fin = hk.transform(go).apply({}, None) if case["inside"] else go()
  sums = np.cumsum(a, 0)
  ax = 0 if case["time_major"] else 1
  want = (a - 1, np.concatenate([np.zeros((1, b, 2)), sums[:-1]]))
  up = lambda t: jax.tree_util.tree_map(lambda v: v.astype(jnp.float32), t)
  trees(up(out), tuple(np.moveaxis(v, 0, ax) for v in want), "outputs")
  trees(up(fin), (sums[-1], -a[-1]), "final state")
  return ["nt"] if tt > 1 else []


# ----------------------------------------------------------- reset signal shape


def shape_strat():
  return st.fixed_dictionaries({
      "state": st.lists(st.integers(1, 3), min_size=1, max_size=3),
      "sig": st.lists(st.integers(1, 3), max_size=4),
      "prefix": st.booleans(), "dtype": st.sampled_from(
          ["float32", "bfloat16", "float16", "int32"]), "seed": seeds})


class Shaped(hk.RNNCore):

  def __init__(self, shape):
    super().__init__(name="shaped")
    self.shape = tuple(shape)

  def __call__(self, x, state):
    return state, state

  def initial_state(self, batch_size):
    lead = () if batch_size is None else (batch_size,)
    return jnp.full(lead + self.shape, 7.0)


def run_shape(case):
  shp = tuple(case["state"])
  sig = shp[:len(case["sig"])] if case["prefix"] else tuple(case["sig"])
  flag = bits(case["seed"], 1, sig)
  x = jnp.zeros((shp[0], 2))
  s, sn = nn.cast(np.round(nn.rnd(case["seed"], shp)), "float32")
  s = s.astype(case["dtype"])
  t = hk.transform(lambda: hk.ResetCore(Shaped(shp[1:]))(
      (x, jnp.asarray(flag)), s))
  if sig != shp[:len(sig)]:
    raises(lambda: t.apply({}, None), ValueError,
           f"reset of shape {sig} against state {shp}")
    return ["rejected"]
  out, ns = t.apply({}, None)
  eq(str(ns.dtype), case["dtype"], "dtype of the state after a reset")
  f = flag.reshape(sig + (1,) * (len(shp) - len(sig)))
  close(ns.astype(jnp.float32), np.where(f, 7.0, sn), "state after the reset")
  return ["nt"] if flag.size > 1 and flag.any() and not flag.all() else []


PROP = Prop("P21", [
    Sub("unroll", strat, run, 640, 6000,
        "two or more time steps and some core state"),
    Sub("nested", nest_strat, run_nest, 200, 2000, "two or more time steps"),
    Sub("reset_shape", shape_strat, run_shape, 400, 4000,
        "some but not all entries are reset"),
])
