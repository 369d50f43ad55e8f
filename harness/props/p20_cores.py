"""P20: one step (and its initial state) of every recurrent core."""
from core import Prop, Sub, Violation, check, eq, raises, close
import nnlib as nn
import rnnref
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

seeds = st.integers(0, 10**6)


def trees(got, want, what, **kw):
  gl, gt = jax.tree_util.tree_flatten(got)
  wl, wt = jax.tree_util.tree_flatten(want)
  eq(str(gt), str(wt), f"{what}: structure")
  for i, (g, w) in enumerate(zip(gl, wl)):
    close(g, w, f"{what}, leaf {i}", **kw)


def step_strat():
  return st.fixed_dictionaries({
      "spec": rnnref.core_strategy(2), "width": nn.dim(1, 4, 9, 33),
      "batch": st.sampled_from([None, 1, 2, 3] * 4 + [9, 33]), "steps": st.integers(1, 3),
      # Size of the state, and of the input.
      "mag": st.sampled_from([[1, 1]] * 6 + [[30, 1], [1, 30]]),
      "jit": st.sampled_from([False, False, False, True]), "seed": seeds})


def random_state(ref, batch, seed, mag=1):
  """A state unlike the initial one, as (jax, float64)."""
  leaves, tdef = jax.tree_util.tree_flatten(ref.initial(batch))
  js, ns = [], []
  for i, l in enumerate(leaves):
    a, b = nn.cast(nn.rnd(seed + i, l.shape) * 0.7 * mag, "float32")
    js.append(a)
    ns.append(b)
  u = jax.tree_util.tree_unflatten
  return u(tdef, js), u(tdef, ns)


def kinds(spec):
  out = {spec[0]}
  for s in spec[1:]:
    if isinstance(s, list):
      for e in (s if s and isinstance(s[0], list) else [s] if s else []):
        out |= kinds(e)
  return out


def run_step(case):
  spec, width, batch = case["spec"], case["width"], case["batch"]
  ref = rnnref.Ref(spec, width)
  lead = () if batch is None else (batch,)

  def f(x, state, n):
    core, w = rnnref.Builder().build(spec, width)
    outs = []
    for _ in range(n):
      out, state = core(x, state)
      outs.append(out)
    return outs, state

  t = hk.transform_with_state(f)
  init = hk.transform_with_state(
      lambda: rnnref.Builder().build(spec, width)[0].initial_state(batch))
  got0, _ = init.apply({}, {}, None)
  trees(got0, ref.initial(batch), "initial state", dtype="float32")
  ms, mx = case["mag"]
  x, xn = nn.cast(nn.rnd(case["seed"], lead + (width,)) * mx, "float32")
  s, sn = random_state(ref, batch, case["seed"] + 50, ms)
  params, hstate = jax.eval_shape(lambda k, x, s: t.init(k, x, s, 1),
                                  jax.random.PRNGKey(0), x, s)
  nn.want_shapes(params, ref.want, "core params")
  j, n = nn.fill(params, case["seed"])
  hs = {m: {"n": jnp.zeros([])} for m in ref.ticks}
  eq(sorted(m for m in hstate if hstate[m]), sorted(hs), "haiku state")
  fn = lambda p, hs, x, s: t.apply(p, hs, None, x, s, case["steps"])
  (outs, s), hs = (jax.jit(fn) if case["jit"] else fn)(j, hs, x, s)
  for k in range(case["steps"]):
    want, sn = ref.step(n, xn, sn)
    close(outs[k], want, f"output of step {k}",
          **nn.tol("float32", 3 * max(ms, mx)))
  trees(s, sn, "next state", **nn.tol("float32", 3 * max(ms, mx)))
  for m in ref.ticks:
    eq(float(hs[m]["n"]), float(ref.ticks[m]), "calls counted in haiku state")
  ks = kinds(spec)
  return sorted(ks) + (["nt"] if ks & {"rnn", "lstm", "gru"} else [])


def conv_strat():
  return st.integers(1, 3).flatmap(lambda nd: st.fixed_dictionaries({
      "nd": st.just(nd),
      "spatial": nn.bigger(st.lists(st.integers(1, 4), min_size=nd,
                                     max_size=nd), 9, 17),
      "kernel": st.one_of(st.integers(1, 3), st.lists(
          st.integers(1, 3), min_size=nd, max_size=nd)),
      "in": nn.dim(1, 3, 9, 17), "out": nn.dim(1, 3, 9, 17),
      "batch": st.integers(1, 2), "seed": seeds}))


def run_conv(case):
  nd, sp, b = case["nd"], tuple(case["spatial"]), case["batch"]
  ks = (case["kernel"],) * nd if isinstance(case["kernel"], int) else tuple(
      case["kernel"])
  o, ci = case["out"], case["in"]

  def make():
    return {1: hk.Conv1DLSTM, 2: hk.Conv2DLSTM, 3: hk.Conv3DLSTM}[nd](
        sp, o, case["kernel"], name="c")

  x, xn = nn.cast(nn.rnd(case["seed"], (b,) + sp + (ci,)), "float32")
  h, hn = nn.cast(nn.rnd(case["seed"] + 1, (b,) + sp + (o,)), "float32")
  c, cn = nn.cast(nn.rnd(case["seed"] + 2, (b,) + sp + (o,)), "float32")
  t = hk.transform(lambda x, s: make()(x, s))
  p = jax.eval_shape(t.init, jax.random.PRNGKey(0), x, hk.LSTMState(h, c))
  nn.want_shapes(p, {
      "c/input_to_hidden": {"w": (ks + (ci, 4 * o), "float32"),
                            "b": ((4 * o,), "float32")},
      "c/hidden_to_hidden": {"w": (ks + (o, 4 * o), "float32"),
                             "b": ((4 * o,), "float32")}}, "params")
  j, n = nn.fill(p, case["seed"])
  out, ns = t.apply(j, None, x, hk.LSTMState(h, c))
  want, wns = rnnref.conv_lstm(n, "c", xn, hk.LSTMState(hn, cn), nd)
  close(out, want, "output", **nn.tol("float32", 3))
  trees(ns, wns, "state", **nn.tol("float32", 3))
  for bs in (None, b):
    lead = () if bs is None else (bs,)
    i0 = hk.transform(lambda: make().initial_state(bs)).apply({}, None)
    trees(i0, hk.LSTMState(np.zeros(lead + sp + (o,)),
                           np.zeros(lead + sp + (o,))), "initial state",
          dtype="float32")
  return ["nt"] if max(sp) > 1 and max(ks) > 1 else []


def misc_strat():
  return st.fixed_dictionaries({
      "kind": st.sampled_from(["lstm", "gru"]), "rank": st.sampled_from([0, 3]),
      "h": st.integers(1, 3), "inits": st.integers(0, 7),
      "dtype": st.sampled_from(["float32", "bfloat16", "float16"]),
      "seed": seeds})


def run_misc(case):
  h, dt = case["h"], case["dtype"]
  # Wrong ranks are refused.
  if case["kind"] == "lstm":
    s = hk.LSTMState(jnp.zeros([h]), jnp.zeros([h]))
    mk = lambda: hk.LSTM(h)
  else:
    s = jnp.zeros([h])
    mk = lambda: hk.GRU(h)
  raises(lambda: hk.transform(lambda x: mk()(x, s)).init(
      jax.random.PRNGKey(0), jnp.ones([2] * case["rank"])), ValueError,
         f"rank {case['rank']} input")
  raises(lambda: hk.transform(lambda: hk.deep_rnn_with_skip_connections(
      [jax.nn.relu])).init(None), ValueError, "skip over a non-core")
  # GRU initialisers reach the parameter they are for, in the input's dtype.
  kw, want = {}, {"w_i": None, "w_h": None, "b": 0.0}
  for i, k in enumerate(("w_i", "w_h", "b")):
    if (case["inits"] >> i) & 1:
      kw[k + "_init"] = lambda s, d, i=i: jnp.full(s, i + 3, d)
      want[k] = i + 3
  x = jnp.ones([2], dt)
  p = hk.transform(lambda x: hk.GRU(h, **kw)(x, jnp.zeros([h], dt))).init(
      jax.random.PRNGKey(case["seed"]), x)["gru"]
  for k, v in want.items():
    eq(str(p[k].dtype), dt, f"dtype of {k}")
    if v is not None:
      close(p[k], np.full(p[k].shape, v, np.float32), f"GRU {k}")
  out, ns = hk.transform(lambda x: mk()(x, jax.tree_util.tree_map(
      lambda v: v.astype(dt), s))).apply(
          hk.transform(lambda x: mk()(x, jax.tree_util.tree_map(
              lambda v: v.astype(dt), s))).init(jax.random.PRNGKey(1), x),
          None, x)
  for v in jax.tree_util.tree_leaves((out, ns)):
    eq(str(v.dtype), dt, "dtype of the step")
  return ["nt"] if case["inits"] else []


PROP = Prop("P20", [
    Sub("step", step_strat, run_step, 900, 12000,
        "the composition contains a parameterised core"),
    Sub("conv_lstm", conv_strat, run_conv, 240, 3000,
        "spatial extent and kernel above one"),
    Sub("refusals", misc_strat, run_misc, 100, 800,
        "some initialiser is given"),
])
