"""P27: built-in layers under JAX transforms, dtypes, input kinds and wrapping.

A case is a chain of randomly configured built-in layers, an input shape and one
relation between two ways of running it.  Arithmetic is float64, so the two sides
agree to rounding.
"""
import jax
jax.config.update("jax_enable_x64", True)

import pickle

from core import Prop, Sub, Violation, check, eq, raises, close, same_bits
import nnlib as nn
from hypothesis import strategies as st
import numpy as np
import jax.numpy as jnp
import haiku as hk

tmap = jax.tree_util.tree_map
leaves = jax.tree_util.tree_leaves

# ---------------------------------------------------------------------- layers
# Every layer is [kind, a, b, c]: three small numbers that its builder reads as
# it likes.  A layer that does not fit the rank of its input is skipped.

ANY = ["linear", "mlp", "act", "sequential", "vq", "vq_ema", "ema", "dropout",
       "spectral", "reshape", "to_module"]
RANK2 = ["bias", "layer_norm", "pool", "flatten", "batch_apply", "group_norm"]
RANK3 = ["conv1", "conv1_t", "batch_norm", "instance_norm", "attention", "rnn",
         "conv_lstm"]
RANK4 = ["conv2", "conv2_t", "depthwise", "separable", "batch_norm",
         "instance_norm", "net"]
NEEDS = {"conv1": 3, "conv1_t": 3, "attention": 3, "rnn": 3, "conv_lstm": 3,
         "conv2": 4, "conv2_t": 4, "depthwise": 4, "separable": 4, "net": 4}
BATCH_STATS = {"batch_norm", "ema", "spectral", "vq_ema", "net"}
STATEFUL = {"batch_norm", "ema", "spectral", "vq_ema", "net"}
ROUGH = {"vq", "vq_ema", "spectral", "dropout", "net", "ema"}


def fits(kind, rank):
  if kind in NEEDS:
    return rank == NEEDS[kind]
  if kind in ("batch_norm", "instance_norm"):
    return rank >= 3
  if kind in ("spectral", "group_norm", "flatten", "bias", "layer_norm", "pool",
              "batch_apply"):
    return rank >= 2
  return True


def out_rank(kind, rank):
  if kind in ("flatten", "net"):
    return 2
  return rank


def plan(case):
  """The layers that run, by rank."""
  rank, out = len(case["shape"]), []
  for i, l in enumerate(case["layers"]):
    if fits(l[0], rank):
      out.append((i, l))
      rank = out_rank(l[0], rank)
  return out


ACTS = [jnp.tanh, jax.nn.sigmoid, jax.nn.softplus]


def unif(scale=0.5):
  return hk.initializers.RandomUniform(-scale, scale)


def conv_mask(c, shape):
  """A numpy mask with some zeros, for a third of the configurations."""
  if c < 8:
    return None
  return (np.arange(np.prod(shape)).reshape(shape) % 3 > 0).astype(np.int8)


def layer(i, spec, x, mode):
  """Builds and applies one layer.  mode: train, eval."""
  kind, a, b, c = spec
  nm = f"l{i}"
  train = mode == "train"
  d = x.shape[-1]
  if kind == "linear":
    return hk.Linear(1 + a % 4, with_bias=bool(b % 2), name=nm)(x)
  if kind == "mlp":
    m = hk.nets.MLP([1 + a % 3, 1 + b % 4], with_bias=bool(c % 2),
                    activation=ACTS[a % 3], activate_final=bool(b % 2), name=nm)
    return m(x)
  if kind == "act":
    return ACTS[a % 3](x)
  if kind == "sequential":
    return hk.Sequential([hk.Linear(1 + a % 4, name=f"{nm}s"), jnp.tanh,
                          hk.Linear(1 + b % 3, name=f"{nm}t")], name=nm)(x)
  if kind == "to_module":
    def scale(v, k):
      return v * hk.get_parameter("w", v.shape[-1:], v.dtype, init=unif()) * k
    return hk.to_module(scale)(name=nm)(x, 1 + a % 3)
  if kind == "reshape":
    if a % 2:
      return hk.Reshape(x.shape[1:], name=nm)(x)
    return hk.Reshape((-1,) + x.shape[-1:], preserve_dims=max(x.ndim - 1, 1),
                      name=nm)(x).reshape(x.shape)
  if kind == "vq":
    m = hk.nets.VectorQuantizer(d, 2 + a % 4, 0.25, dtype=x.dtype, name=nm)
    return m(x, is_training=train)["quantize"]
  if kind == "vq_ema":
    m = hk.nets.VectorQuantizerEMA(d, 2 + a % 4, 0.25, 0.9, dtype=x.dtype,
                                   name=nm)
    return m(x, is_training=train)["quantize"]
  if kind == "ema":
    m = hk.ExponentialMovingAverage(0.1 + 0.2 * (a % 4), zero_debias=bool(b % 2),
                                    warmup_length=(c % 3) if not b % 2 else 0,
                                    name=nm)
    return x + m(jnp.mean(x, axis=0), update_stats=train or hk.running_init())
  if kind == "dropout":
    if not train or hk.maybe_next_rng_key() is None:
      return x
    return hk.dropout(hk.next_rng_key(), 0.1 + 0.2 * (a % 4), x)
  if kind == "spectral":
    return hk.SpectralNorm(n_steps=1 + a % 2, name=nm)(
        x, update_stats=train or hk.running_init())
  if kind == "bias":
    dims = [None, [-1], list(range(1, x.ndim)), [], [1]][a % 5]
    return hk.Bias(bias_dims=dims, b_init=unif(), name=nm)(
        x, multiplier=[None, 2.0, -0.5][b % 3])
  if kind == "layer_norm":
    axis = [-1, slice(1, None), [1, -1] if x.ndim > 2 else 1][a % 3]
    return hk.LayerNorm(axis, bool(b % 2), bool(c % 2), eps=1e-3,
                        scale_init=unif(2.) if b % 2 else None,
                        offset_init=unif() if c % 2 else None, name=nm)(x)
  if kind == "group_norm":
    g = [k for k in range(1, d + 1) if d % k == 0]
    return hk.GroupNorm(g[a % len(g)], create_scale=bool(b % 2),
                        create_offset=bool(c % 2), eps=1e-2, name=nm)(x)
  if kind == "instance_norm":
    return hk.InstanceNorm(bool(b % 2), bool(c % 2), eps=1e-2, name=nm)(x)
  if kind == "batch_norm":
    m = hk.BatchNorm(bool(a % 2), bool(b % 2), 0.5 + 0.2 * (c % 3), eps=1e-2,
                     name=nm)
    return m(x, is_training=train or hk.running_init(),
             test_local_stats=bool(c % 2))
  if kind == "pool":
    M = [hk.MaxPool, hk.AvgPool][a % 2]
    return M(1 + b % 2, 1 + c % 2, ["SAME", "VALID"][(a // 2) % 2], name=nm)(
        x) if x.shape[0] and min(x.shape[1:-1], default=2) > 1 else x
  if kind == "flatten":
    return hk.Flatten(name=nm)(x)
  if kind == "batch_apply":
    n = 1 + a % (x.ndim - 1)
    return hk.BatchApply(hk.Linear(1 + b % 3, name=nm), num_dims=n)(x)
  if kind in ("conv1", "conv2"):
    C = hk.Conv1D if kind == "conv1" else hk.Conv2D
    return C(1 + a % 3, 1 + b % 3, stride=1 + c % 2,
             rate=1 if c % 2 else 1 + a % 2, padding="SAME",
             with_bias=bool(b % 2), mask=conv_mask(
                 c, (1 + b % 3,) * (x.ndim - 2) + (d, 1 + a % 3)), name=nm)(x)
  if kind in ("conv1_t", "conv2_t"):
    C = hk.Conv1DTranspose if kind == "conv1_t" else hk.Conv2DTranspose
    return C(1 + a % 3, 1 + b % 3, stride=1 + c % 2,
             padding=["SAME", "VALID"][a % 2], with_bias=bool(b % 2),
             mask=conv_mask(c, (1 + b % 3,) * (x.ndim - 2) + (1 + a % 3, d)),
             name=nm)(x)
  if kind == "depthwise":
    return hk.DepthwiseConv2D(1 + a % 2, 1 + b % 3, stride=1 + c % 2, name=nm)(x)
  if kind == "separable":
    return hk.SeparableDepthwiseConv2D(1 + a % 2, 1 + b % 3, stride=1 + c % 2,
                                       name=nm)(x)
  if kind == "attention":
    return hk.MultiHeadAttention(1 + a % 2, 1 + b % 3, w_init_scale=1.0,
                                 value_size=[None, 2][c % 2],
                                 model_size=[None, 3][a % 2], name=nm)(x, x, x)
  if kind == "rnn":
    h = 1 + a % 3
    core = [lambda: hk.LSTM(h, name=nm), lambda: hk.GRU(h, name=nm),
            lambda: hk.VanillaRNN(h, name=nm),
            lambda: hk.DeepRNN([hk.LSTM(h, name=nm), jnp.tanh,
                                hk.GRU(2, name=f"{nm}b")], name=f"{nm}d"),
            lambda: hk.ResetCore(hk.LSTM(h, name=nm), name=f"{nm}r"),
            lambda: hk.IdentityCore(name=nm)][b % 6]()
    state = tmap(lambda v: v.astype(x.dtype) if v.dtype.kind == "f" or
                 v.dtype == jnp.bfloat16 else v,
                 core.initial_state(x.shape[0]))
    ins = x
    if b % 6 == 4:
      reset = np.zeros(x.shape[:2], bool)
      reset[:, 1::2] = True
      ins = (x, jnp.asarray(reset))
    unroll = hk.dynamic_unroll if c % 2 else hk.static_unroll
    out, _ = unroll(core, ins, state, time_major=False)
    return out
  if kind == "conv_lstm":
    core = hk.Conv1DLSTM(list(x.shape[1:-1]), 1 + a % 2, 1 + b % 3, name=nm)
    state = tmap(lambda v: v.astype(x.dtype), core.initial_state(x.shape[0]))
    out, state = core(x, state)
    out, _ = core(x, state)
    return out
  if kind == "net":
    x = jnp.tile(x, (1, 7, 7, 1))[:, :7, :7]
    net = hk.nets.MobileNetV1((1 + b % 2,), (2,), 2, use_bn=bool(c % 2), name=nm)
    return net(x, is_training=train or hk.running_init())
  raise ValueError(kind)


def network(case, mode):
  layers = plan(case)
  def net(x):
    for i, l in layers:
      x = layer(i, l, x, mode)
    return x
  return net


# ------------------------------------------------------------------- relations

RELS = ["jit", "jit_init", "hk_jit", "hk_remat", "numpy", "eval_shape",
        "hk_eval_shape", "init_values", "module", "scope", "vmap", "hk_vmap",
        "permute", "hooks", "scan", "fori", "dtype", "dtype", "grad", "hk_grad",
        "examples", "repeat", "rng", "cond"]


def strat():
  small = st.integers(0, 11)
  def lay(kinds, w=1):
    return st.tuples(st.sampled_from(kinds), small, small, small).map(list)
  def chain(rank):
    kinds = ANY + ANY + {1: [], 2: RANK2 * 2, 3: RANK2 + RANK3 * 3,
                         4: RANK2 + RANK4 * 3}[rank]
    kinds = [k for i, k in enumerate(kinds)
             if k not in ("net",) or i == kinds.index(k)]
    return st.fixed_dictionaries({
        "shape": st.lists(st.integers(1, 3), min_size=rank, max_size=rank),
        "layers": st.lists(lay(kinds), min_size=1, max_size=4),
        "rel": st.sampled_from(RELS), "mode": st.sampled_from(["train", "eval"]),
        "seed": st.integers(0, 99), "k": st.integers(0, 11)})
  return st.sampled_from([1, 2, 2, 3, 3, 3, 4, 4, 4]).flatmap(chain)


TOL = dict(rtol=1e-7, atol=1e-8)


def same(got, want, what, **tol):
  a, b = jax.tree_util.tree_structure(got), jax.tree_util.tree_structure(want)
  check(a == b, f"{what}: structure {a}, expected {b}")
  for g, w in zip(leaves(got), leaves(want)):
    check(jnp.asarray(g).dtype == jnp.asarray(w).dtype,
          f"{what}: dtype {jnp.asarray(g).dtype}, expected "
          f"{jnp.asarray(w).dtype}")
    close(g, w, what, **(tol or TOL))


def exact(got, want, what):
  a, b = jax.tree_util.tree_structure(got), jax.tree_util.tree_structure(want)
  check(a == b, f"{what}: structure {a}, expected {b}")
  for g, w in zip(leaves(got), leaves(want)):
    same_bits(g, w, what)


def plain(tree):
  return {m: dict(b) for m, b in tree.items()}


def data(case, k=0, dtype="float64", shape=None):
  x = nn.rnd(case["seed"] * 7 + k, tuple(shape or case["shape"]))
  return jnp.asarray(x).astype(dtype)


def run(case):
  layers = plan(case)
  if not layers:
    return ["empty"]
  kinds = {l[0] for _, l in layers}
  rel, mode = case["rel"], case["mode"]
  if "net" in kinds and rel not in ("jit", "numpy", "module", "dtype", "permute",
                                    "rng", "init_values"):
    return ["costly"]
  net = network(case, mode)
  t = hk.transform_with_state(net)
  key = jax.random.PRNGKey(case["seed"])
  key2 = jax.random.PRNGKey(case["seed"] + 1)
  x = data(case)
  labels = [rel] + sorted(kinds) + (["nt"] if len(layers) > 1 or rel != "repeat"
                                    else [])
  if rel == "dtype":
    run_dtype(case, net, key, key2, kinds)
    return labels
  p, s0 = t.init(key, x)
  p, s0 = plain(p), plain(s0)
  # Warm state, so that evaluation has averages to use.
  warm = hk.transform_with_state(network(case, "train"))
  _, s = warm.apply(p, s0, key2, data(case, 3))
  s = plain(s)
  out, s1 = t.apply(p, s, key2, x)
  s1 = plain(s1)
  base = (out, s1)
  if not all(np.all(np.isfinite(np.asarray(v, np.float64)))
             for v in leaves(out)):
    check("spectral" in kinds, "output is not finite")
    return ["zero-matrix"]   # the spectral norm of zeros
  plain2 = lambda r: (r[0], plain(r[1]))

  if rel == "jit":
    same(plain2(jax.jit(t.apply)(p, s, key2, x)), base, "jitted apply")
  elif rel == "jit_init":
    pj, sj = jax.jit(t.init)(key, x)
    same((plain(pj), plain(sj)), (p, s0), "jitted init")
  elif rel in ("hk_jit", "hk_remat"):
    w = hk.jit if rel == "hk_jit" else hk.remat
    g = hk.transform_with_state(lambda x: w(net)(x))
    pi, si = g.init(key, x)
    same((plain(pi), plain(si)), (p, s0), f"init through {rel}")
    same(plain2(g.apply(p, s, key2, x)), base, f"apply through {rel}")
  elif rel == "numpy":
    as_np = lambda tree: tmap(np.array, tree)  # Writable copies.
    pn, sn = t.init(np.asarray(key), np.asarray(x))
    same((plain(pn), plain(sn)), (p, s0), "init from numpy input")
    # numpy widens a 0-d int32 counter when one is added: compared by value.
    wide = lambda tree: tmap(lambda v: v.astype(np.int64) if np.dtype(
        v.dtype).kind == "i" else v, tree)
    args = as_np((p, s, key2, x))
    same(wide(plain2(t.apply(*args))), wide(base), "apply to numpy arrays")
    same(args, as_np((p, s, key2, x)), "arrays given to apply, afterwards")
  elif rel == "eval_shape":
    def spec(tree):
      return tmap(lambda v: (tuple(v.shape), str(v.dtype)), tree,
                  is_leaf=lambda v: hasattr(v, "shape"))
    a = jax.eval_shape(t.init, key, x)
    eq(spec(tuple(map(plain, a))), spec((p, s0)), "abstract init")
    eq(spec(plain2(jax.eval_shape(t.apply, p, s, key2, x))), spec(base),
       "abstract apply")
  elif rel == "hk_eval_shape":
    def g(x):
      sh = hk.eval_shape(net, x)
      g.got = tmap(lambda v: (tuple(v.shape), str(v.dtype)), sh)
      return net(x)
    same(plain2(hk.transform_with_state(g).apply(p, s, key2, x)), base,
         "apply after hk.eval_shape")
    eq(g.got, tmap(lambda v: (tuple(v.shape), str(v.dtype)), out),
       "shapes from hk.eval_shape")
  elif rel == "init_values":
    pi, si = t.init(key, x * 3 + 1)
    exact(plain(pi), p, "init on other values")
    # Averages and sigma may start at the first value: same entries only.
    eq(nn.shapes(si), nn.shapes(s0), "state from init on other values")
    if not kinds & STATEFUL:
      pi = hk.transform(net).init(key, x)
      exact(plain(pi), p, "init without state")
  elif rel in ("module", "scope"):
    class Outer(hk.Module):
      def __call__(self, x):
        return net(x)
    if rel == "module":
      f2, pre = (lambda x: Outer(name="outer")(x)), "outer/"
    else:
      def f2(x):
        with hk.experimental.name_scope("sc/inner"):
          return net(x)
      pre = "sc/inner/"
    ren = lambda tree: {pre + m: b for m, b in tree.items()}
    g = hk.transform_with_state(f2)
    pi, si = g.init(key, x)
    exact((plain(pi), plain(si)), (ren(p), ren(s0)), f"init inside a {rel}")
    same(plain2(g.apply(ren(p), ren(s), key2, x)), (out, ren(s1)),
         f"apply inside a {rel}")
  elif rel == "vmap":
    xs = [x, data(case, 1), data(case, 2)]
    v = jax.vmap(t.apply, in_axes=(None, None, None, 0))(p, s, key2,
                                                         jnp.stack(xs))
    each = [plain2(t.apply(p, s, key2, xi)) for xi in xs]
    want = tmap(lambda *a: jnp.stack(a), *each)
    same(plain2(v), want, "jax.vmap of apply")
  elif rel == "hk_vmap":
    if kinds & STATEFUL:
      return ["stateful"]
    xs = [x, data(case, 1), data(case, 2)]
    g = hk.transform_with_state(lambda xs: hk.vmap(net)(xs))
    pi, _ = g.init(key, jnp.stack(xs))
    same(plain(pi), p, "init through hk.vmap")
    v, _ = g.apply(p, s, key2, jnp.stack(xs))
    want = tmap(lambda *a: jnp.stack(a),
                *[t.apply(p, s, key2, xi)[0] for xi in xs])
    same(v, want, "hk.vmap")
  elif rel == "permute":
    if len(case["shape"]) < 2 or "dropout" in kinds and mode == "train" or (
        "spectral" in kinds and len(case["shape"]) < 2):
      return ["no-batch"]
    perm = np.random.RandomState(case["k"]).permutation(x.shape[0])
    got = t.apply(p, s, key2, x[perm])
    same(plain2(got), (tmap(lambda v: v[perm], out), s1), "permuted batch",
         rtol=1e-6, atol=1e-7)
  elif rel == "examples":
    if len(case["shape"]) < 2 or kinds & (
        {"ema", "spectral", "vq_ema", "dropout", "net", "batch_norm"}):
      return ["batch-statistics"]
    n = 1 + case["k"] % x.shape[0]
    got, _ = t.apply(p, s, key2, x[:n])
    same(got, tmap(lambda v: v[:n], out), "part of the batch")
    more = jnp.concatenate([x, data(case, 1)])
    got, _ = t.apply(p, s, key2, more)
    same(tmap(lambda v: v[:x.shape[0]], got), out, "a larger batch")
  elif rel == "hooks":
    def g(x):
      with hk.experimental.custom_creator(
          lambda nxt, sh, dt, init, c: nxt(sh, dt, init), state=True):
        with hk.experimental.custom_getter(lambda nxt, v, c: nxt(v), state=True):
          with hk.experimental.intercept_methods(
              lambda nxt, a, k, c: nxt(*a, **k)):
            return net(x)
    g = hk.transform_with_state(g)
    pi, si = g.init(key, x)
    exact((plain(pi), plain(si)), (p, s0), "init under identity hooks")
    same(plain2(g.apply(p, s, key2, x)), base, "apply under identity hooks")
    old = hk.experimental.profiler_name_scopes(enabled=True)
    try:
      same(plain2(t.apply(p, s, key2, x)), base, "apply with profiler scopes")
    finally:
      hk.experimental.profiler_name_scopes(enabled=old)
  elif rel in ("scan", "fori", "cond"):
    xs = [x, data(case, 1), data(case, 2)][:1 + case["k"] % 3]
    stacked = jnp.stack(xs)
    n = len(xs)
    mods = layers_once(case, mode)
    def loop(xs):
      f = mods()
      return jnp.stack([f(xs[i]) for i in range(n)])
    if rel == "scan":
      def wrapped(xs):
        f = mods()
        return hk.scan(lambda c, v: (c, f(v)), 0, xs)[1]
    elif rel == "fori":
      shape = out.shape
      def wrapped(xs):
        f = mods()
        return hk.fori_loop(0, n, lambda i, b: b.at[i].set(f(xs[i])),
                            jnp.zeros((n,) + tuple(shape), out.dtype))
    else:
      n, xs, stacked = 1, xs[:1], stacked[:1]
      def wrapped(xs):
        f = mods()
        if hk.running_init():
          return f(xs[0])[None]
        return hk.cond(jnp.asarray(case["k"] % 2 == 0), lambda v: f(v)[None],
                       lambda v: f(v)[None], xs[0])
    gl, gw = (hk.transform_with_state(v) for v in (loop, wrapped))
    pl_, sl = gl.init(key, stacked)
    pw, sw = gw.init(key, stacked)
    if n == 1:
      same((plain(pw), plain(sw)), (plain(pl_), plain(sl)), f"init: {rel}")
    else:
      eq(nn.shapes(pw), nn.shapes(pl_), f"parameters: {rel}")
      eq(nn.shapes(sw), nn.shapes(sl), f"state: {rel}")
    _, sl = gl.apply(pl_, sl, key2, stacked)
    want = gl.apply(pl_, sl, key2, stacked)
    got = gw.apply(pl_, sl, key2, stacked)
    if not ("dropout" in kinds and mode == "train" and rel == "cond"):
      same(plain2(got), plain2(want), f"hk.{rel}")
  elif rel in ("grad", "hk_grad"):
    if kinds & ROUGH:
      return ["rough"]
    co = jnp.asarray(nn.rnd(case["seed"] + 11, out.shape))
    if rel == "grad":
      def loss(p, x):
        return jnp.sum(t.apply(p, s, key2, x)[0] * co)
      gp, gx = jax.grad(loss, argnums=(0, 1))(p, x)
    else:
      def g(x):
        return hk.value_and_grad(lambda v: jnp.sum(net(v) * co))(x)
      (val, gx), sg = hk.transform_with_state(g).apply(p, s, key2, x)
      close(val, jnp.sum(out * co), "value with the gradient", **TOL)
      same(plain(sg), s1, "state after hk.value_and_grad")
      def loss(p, x):
        return jnp.sum(t.apply(p, s, key2, x)[0] * co)
      gp = None
    dx = jnp.asarray(nn.rnd(case["seed"] + 12, x.shape))
    j, _ = nn.fill(p, case["seed"] + 13)
    dp = tmap(lambda a, b: jnp.asarray(a, b.dtype), j, p)
    if gp is None:
      dp = tmap(jnp.zeros_like, dp)
    def along(eps):
      mv = lambda e: loss(tmap(lambda a, b: a + e * b, p, dp), x + e * dx)
      return float((mv(eps) - mv(-eps)) / (2 * eps))
    d1, d2 = along(1e-5), along(3e-6)
    scale = 1 + abs(d1) + float(jnp.sum(jnp.abs(out * co)))
    if abs(d1 - d2) > 1e-6 * scale:
      return ["not-smooth"]
    got = float(jnp.sum(gx * dx))
    if gp is not None:
      got += float(sum(jnp.sum(a * b) for a, b in zip(leaves(gp), leaves(dp))))
    check(abs(got - d2) <= 1e-5 * scale,
          f"derivative {got}, finite difference {d2}")
  elif rel == "repeat":
    copies = pickle.loads(pickle.dumps(tmap(np.asarray, (p, s, key2, x))))
    exact(plain2(t.apply(p, s, key2, x)), base, "second apply")
    im = hk.data_structures.to_immutable_dict
    exact(plain2(t.apply(im(p), im(s), key2, x)), base,
          "apply to immutable structures")
    exact(tmap(np.asarray, (p, s, key2, x)), copies, "inputs after apply")
    exact(tuple(map(plain, t.init(key, x))), (p, s0), "second init")
  elif rel == "rng":
    if "dropout" in kinds and mode == "train":
      g1 = plain2(t.apply(p, s, key2, x))
      exact(g1, base, "the same key again")
    else:
      exact(plain2(t.apply(p, s, None, x)), base, "apply without a key")
      exact(plain2(t.apply(p, s, key, x)), base, "apply with another key")
  return labels


def layers_once(case, mode):
  """Like network(), but the modules outlive one call (as loops need)."""
  class Net(hk.Module):
    def __call__(self, x):
      return network(case, mode)(x)
  return lambda: Net(name="net")


def run_dtype(case, net, key, key2, kinds):
  """Half, single and double precision inputs give outputs of the same type."""
  dt = ["float16", "bfloat16", "float32", "float64"][case["k"] % 4]
  x = data(case, 0, dt)
  def ones(nxt, shape, dtype, init, c):
    eq(str(jnp.dtype(dtype)), dt, f"dtype requested for {c.full_name}")
    return nxt(shape, dtype, jnp.ones)
  def g(x):
    with hk.experimental.custom_creator(ones):
      return net(x)
  t = hk.transform_with_state(g)
  def is_float(v):
    return jnp.issubdtype(v.dtype, jnp.floating)
  def init(key, x):
    p, s = t.init(key, x)
    return p, tmap(lambda v: v.astype(dt) if is_float(v) else v, s)
  p, s = jax.eval_shape(init, key, x)
  for step in range(2):
    out, s = jax.eval_shape(t.apply, p, s, key2, x)
    for v in leaves(out):
      eq(str(v.dtype), dt, f"output dtype, step {step}")
    for m in s:
      for n, v in s[m].items():
        if is_float(v):
          eq(str(v.dtype), dt, f"dtype of state {m}/{n}, step {step}")


PROP = Prop("P27", [
    Sub("layers", strat, run, 1200, 20000,
        "a relation between two ways of running a network with parameters or "
        "several layers"),
])
