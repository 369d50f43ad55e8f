"""P25: initializers and the default initial values of layers."""
from core import Prop, Sub, Violation, check, eq, raises, close, same_bits
import nnlib as nn
from hypothesis import strategies as st
import numpy as np
from scipy import stats
import jax
import jax.numpy as jnp
import haiku as hk

seeds = st.integers(0, 10**6)
I = hk.initializers
N = 20000
SHAPES = [[], [1], [7], [3, 5], [5, 3], [2, 3, 4], [3, 3, 4, 8], [2, 1, 3, 2],
          [1, 9], [20, 2], [2, 2, 2, 3, 5]]


def fans(shape):
  if not shape:
    return 1, 1
  if len(shape) == 1:
    return shape[0], shape[0]
  f = int(np.prod(shape[:-2]))
  return f * shape[-2], f * shape[-1]


def follows(sample, dist, std, lo, hi, what, exact=True):
  """Marginal law of a large sample; thresholds are at odds below 1e-12."""
  x = np.asarray(sample, np.float64).reshape(-1)
  n = x.size
  check(np.isfinite(x).all(), f"{what}: non-finite values")
  slack = (1e-6 if exact else 2e-2) * (1 + abs(lo if np.isfinite(lo) else 0) +
                                       abs(hi if np.isfinite(hi) else 0))
  check(x.min() >= lo - slack and x.max() <= hi + slack,
        f"{what}: range [{x.min()}, {x.max()}], expected [{lo}, {hi}]")
  if std == 0:
    return
  mean = dist.mean()
  z = (x.mean() - mean) / (std / np.sqrt(n))
  check(abs(z) < 8 + (0 if exact else 4 + 0.01 * abs(mean) / std * np.sqrt(n)),
        f"{what}: mean {x.mean()}, expected {mean}")
  r = x.std() / std
  check(abs(r - 1) < max(0.05 if exact else 0.08, 8 * np.sqrt(0.5 / n)),
        f"{what}: standard deviation {x.std()}, expected {std}")
  if exact:
    d = stats.kstest(x, dist.cdf).statistic
    check(d < np.sqrt(np.log(2e12) / (2 * n)) + 1e-4,
          f"{what}: distribution differs (KS statistic {d:.4f})")


def sample(init, shape, dtype, seed):
  t = hk.transform(lambda: (init(shape, dtype), init(shape, dtype)))
  k = max(2, -(-N // (2 * (int(np.prod(shape)) or 1))))
  keys = jax.random.split(jax.random.PRNGKey(seed), k)
  a, b = jax.jit(jax.vmap(lambda key: t.apply({}, key)))(keys)
  eq(str(a.dtype), dtype, "dtype")
  eq(tuple(a.shape[1:]), tuple(shape), "shape")
  one, _ = t.apply({}, keys[1])
  close(one.astype(jnp.float32), np.asarray(a[1].astype(jnp.float32)),
        "the same key, without batching", **nn.tol(dtype))
  check(not np.array_equal(np.asarray(a), np.asarray(b)),
        "two calls in a row drew the same values")
  return np.concatenate([np.asarray(a.astype(jnp.float32)),
                         np.asarray(b.astype(jnp.float32))])


def tn(std, mean):
  return stats.truncnorm(-2, 2, loc=mean, scale=std)


def random_strat():
  dt = st.sampled_from(["float32"] * 4 + ["bfloat16", "float16"])
  common = dict(shape=st.sampled_from(SHAPES), dtype=dt, seed=seeds,
                astype=st.sampled_from(["list", "tuple"]),
                num=st.sampled_from(["py", "py", "scalar", "0-d", "jnp"]))
  std = st.sampled_from([0.1, 0.5, 1.0, 2.0, 1])
  mean = st.sampled_from([0.0, 1.0, -3.0])
  return st.one_of(
      st.fixed_dictionaries(dict(kind=st.sampled_from(["normal", "truncated"]),
                                 std=std, mean=mean, **common)),
      st.fixed_dictionaries(dict(kind=st.just("uniform"),
                                 lo=st.sampled_from([-1.0, 0.0, 0.5, -2.5]),
                                 width=st.sampled_from([0.5, 1.0, 3.0]),
                                 **common)),
      st.fixed_dictionaries(dict(
          kind=st.just("scaling"),
          scale=st.sampled_from([0.5, 1.0, 2.0, 1]),
          mode=st.sampled_from(["fan_in", "fan_out", "fan_avg"]),
          dist=st.sampled_from(["normal", "truncated_normal", "uniform",
                                "Uniform", "NORMAL"]), **common)),
      st.fixed_dictionaries(dict(
          kind=st.just("scaling"), scale=st.sampled_from([0.5, 2.0]),
          mode=st.sampled_from(["fan_in", "fan_out", "fan_avg"]),
          dist=st.sampled_from(["normal", "truncated_normal", "uniform"]),
          **common)),
      st.fixed_dictionaries(dict(kind=st.just("uniform_scaling"),
                                 scale=st.sampled_from([0.5, 1.0, 2.0]),
                                 **common)))


def run_random(case):
  num = {"py": lambda v: v, "scalar": np.float32, "0-d": np.array,
         "jnp": jnp.asarray}[case["num"]]
  if case["num"] == "jnp" and case["kind"] == "scaling":
    num = float  # VarianceScaling takes a concrete number.
  given = []

  def g(v):
    given.append((num(v), v))
    return given[-1][0]

  k, shape, dt = case["kind"], case["shape"], case["dtype"]
  exact = dt == "float32"
  arg = tuple(shape) if case["astype"] == "tuple" else list(shape)
  if k == "normal":
    init, d = I.RandomNormal(g(case["std"]), g(case["mean"])), stats.norm(
        case["mean"], case["std"])
    lo, hi = -np.inf, np.inf
  elif k == "truncated":
    init, d = I.TruncatedNormal(g(case["std"]), g(case["mean"])), tn(
        case["std"], case["mean"])
    lo, hi = case["mean"] - 2 * case["std"], case["mean"] + 2 * case["std"]
  elif k == "uniform":
    lo, hi = case["lo"], case["lo"] + case["width"]
    init, d = I.RandomUniform(g(lo), g(hi)), stats.uniform(lo, hi - lo)
  elif k == "uniform_scaling":
    hi = np.sqrt(3 / np.prod(shape[:-1])) * case["scale"]
    lo = -hi
    init, d = I.UniformScaling(g(case["scale"])), stats.uniform(lo, hi - lo)
  else:
    fi, fo = fans(shape)
    n = {"fan_in": fi, "fan_out": fo, "fan_avg": (fi + fo) / 2}[case["mode"]]
    s = case["scale"] / max(1.0, n)
    init = I.VarianceScaling(g(case["scale"]), case["mode"], case["dist"])
    dist = case["dist"].lower()
    if dist == "uniform":
      hi = np.sqrt(3 * s)
      lo, d = -hi, stats.uniform(-hi, 2 * hi)
    elif dist == "normal":
      d, lo, hi = stats.norm(0, np.sqrt(s)), -np.inf, np.inf
    else:
      sd = np.sqrt(s) / 0.8796256610342398
      d, lo, hi = tn(sd, 0), -2 * sd, 2 * sd
  x = sample(init, arg, dt, case["seed"])
  follows(x, d, d.std(), lo, hi, f"{k} {shape}", exact)
  for a, v in given:
    eq(float(a), float(num(v)), "an argument of the initialiser after use")
  return ["nt", k] if np.prod(shape) > 1 else [k]


# ----------------------------------------------------------------- layer defaults


def layer_strat():
  return st.fixed_dictionaries({
      "layer": st.sampled_from(["linear", "conv1", "conv2", "conv3", "convt",
                                "depthwise", "embed", "gru", "lstm", "mha",
                                "vq", "separable", "convlstm"]),
      "a": nn.dim(1, 6), "b": nn.dim(1, 6), "k": st.integers(1, 3),
      "groups": st.sampled_from([1, 1, 2]),
      "scale": st.sampled_from([0.5, 2.0]), "seed": seeds})


def run_layer(case):
  a, b, k, g = case["a"], case["b"], case["k"], case["groups"]
  L = case["layer"]
  ones = lambda *s: jnp.ones(s)
  T = lambda fan: ("t", 1 / np.sqrt(fan))
  VS = lambda fan, s=1.0: ("t", np.sqrt(s / fan) / 0.8796256610342398)
  if L == "linear":
    f, want = (lambda: hk.Linear(b)(ones(2, a))), {("linear", "w"): T(a)}
  elif L in ("conv1", "conv2", "conv3"):
    nd = int(L[-1])
    ci, co = a * g, b * g
    cls = {1: hk.Conv1D, 2: hk.Conv2D, 3: hk.Conv3D}[nd]
    f = lambda: cls(co, k, feature_group_count=g, name="c")(
        ones(1, *[3] * nd, ci))
    want = {("c", "w"): T(k ** nd * a)}
  elif L == "convt":
    f = lambda: hk.Conv2DTranspose(b, k, name="c")(ones(1, 3, 3, a))
    want = {("c", "w"): T(k * k * a)}
  elif L == "depthwise":
    f = lambda: hk.DepthwiseConv2D(b, k, name="c")(ones(1, 3, 3, a))
    want = {("c", "w"): T(k * k)}
  elif L == "separable":
    f = lambda: hk.SeparableDepthwiseConv2D(b, k, name="c")(ones(1, 3, 3, a))
    want = None
  elif L == "embed":
    f = lambda: hk.Embed(a, b)(jnp.zeros([2], jnp.int32))
    want = {("embed", "embeddings"): ("t", 1.0)}
  elif L == "gru":
    f = lambda: hk.GRU(b)(ones(a), jnp.zeros([b]))
    want = {("gru", "w_i"): VS(a), ("gru", "w_h"): VS(b)}
  elif L == "lstm":
    f = lambda: hk.LSTM(b)(ones(a), hk.LSTMState(ones(b), ones(b)))
    want = {("lstm/linear", "w"): T(a + b)}
  elif L == "convlstm":
    f = lambda: hk.Conv1DLSTM([3], b, k, name="c")(
        ones(1, 3, a), hk.LSTMState(ones(1, 3, b), ones(1, 3, b)))
    want = {("c/input_to_hidden", "w"): T(k * a),
            ("c/hidden_to_hidden", "w"): T(k * b)}
  elif L == "mha":
    s = case["scale"]
    f = lambda: hk.MultiHeadAttention(2, b, s, name="m")(
        ones(1, 2, a), ones(1, 2, a), ones(1, 2, a))
    want = {("m/query", "w"): VS(a, s), ("m/key", "w"): VS(a, s),
            ("m/value", "w"): VS(a, s), ("m/linear", "w"): VS(2 * b, s)}
  else:
    f = lambda: hk.nets.VectorQuantizer(a, b, 0.25, name="v")(
        ones(2, a), True)["loss"]
    want = {("v", "embeddings"): ("u", np.sqrt(3 / a))}
  t = hk.transform(f)
  size = sum(int(np.prod(v.shape)) for m in (
      jax.eval_shape(t.init, jax.random.PRNGKey(0)),) for bb in m.values()
             for v in bb.values())
  n = min(20000, max(400, 40000 // size))
  keys = jax.random.split(jax.random.PRNGKey(case["seed"]), n)
  p = jax.jit(jax.vmap(t.init))(keys)
  done = set()
  for (m, q), (kind, s) in (want or {}).items():
    d = tn(s, 0) if kind == "t" else stats.uniform(-s, 2 * s)
    lim = 2 * s if kind == "t" else s
    follows(p[m][q], d, d.std(), -lim, lim, f"{L}: initial {m}/{q}")
    done.add((m, q))
  for m in p:
    for q, v in p[m].items():
      if q == "b":
        close(v, np.zeros(v.shape), f"{L}: initial {m}/{q}")
      elif want is not None:
        check((m, q) in done, f"{L}: unexpected parameter {m}/{q}")
  return ["nt", L] if a != b else [L]


# -------------------------------------------------------- constants and matrices


def exact_strat():
  return st.one_of(
      st.fixed_dictionaries({
          "kind": st.just("constant"), "shape": st.sampled_from(SHAPES),
          "value": st.sampled_from([0, 3, -1.5, "last", "full"]),
          "dtype": st.sampled_from(["float32", "bfloat16", "int32"]),
          "seed": seeds}),
      st.fixed_dictionaries({
          "kind": st.just("identity"),
          "shape": st.lists(st.integers(1, 4), max_size=4),
          "gain": st.sampled_from([1.0, -2.0, 3, "array"]),
          "dtype": st.sampled_from(["float32", "bfloat16", "float16"]),
          "seed": seeds}),
      st.integers(0, 4).flatmap(lambda r: st.fixed_dictionaries({
          "kind": st.just("orthogonal"),
          "shape": st.lists(st.integers(1, 4), min_size=r, max_size=r),
          "axis": st.integers(-r, max(r - 1, 0)),
          "scale": st.sampled_from([1.0, 0.5, 3]), "seed": seeds})),
      st.fixed_dictionaries({
          "kind": st.just("haar"), "a": st.integers(1, 4),
          "b": st.integers(1, 4), "seed": seeds}),
      st.fixed_dictionaries({
          "kind": st.just("refuse"), "seed": seeds}))


def run_exact(case):
  k = case["kind"]
  draw = lambda init, *a, seed=case["seed"]: hk.transform(
      lambda: init(*a)).apply({}, jax.random.PRNGKey(seed))
  if k == "constant":
    shape, v = tuple(case["shape"]), case["value"]
    if v == "last":
      v = np.arange(shape[-1] if shape else 1).astype(np.float32).reshape(
          shape[-1:] if shape else ())
    elif v == "full":
      v = np.round(nn.rnd(case["seed"], shape) * 4).astype(np.float32)
    out = draw(I.Constant(v), list(shape), case["dtype"])
    want = np.broadcast_to(np.asarray(v), shape)
    if case["dtype"] == "int32":
      want = want.astype(np.int32)
    eq(str(out.dtype), case["dtype"], "dtype")
    close(out.astype(jnp.float32), want.astype(np.float64), "constant")
    return ["nt", k] if np.ndim(v) else [k]
  if k == "identity":
    shape, dt = case["shape"], case["dtype"]
    if len(shape) < 2:
      raises(lambda: draw(I.Identity(), shape, dt), ValueError, "rank below 2")
      return ["rejected"]
    g = case["gain"]
    gn = g
    if g == "array":
      g = np.round(nn.rnd(case["seed"], shape[:-2] + [1, 1]) * 4).astype(
          np.float32)
      gn = g.astype(np.float64)
    out = draw(I.Identity(g), shape, dt)
    close(out, np.broadcast_to(np.eye(*shape[-2:]), shape) * gn, "identity",
          dtype=dt, **nn.tol(dt))
    return ["nt", k] if shape[-1] != shape[-2] or len(shape) > 2 else [k]
  if k == "orthogonal":
    shape, axis = case["shape"], case["axis"]
    if len(shape) < 2:
      raises(lambda: draw(I.Orthogonal(), shape, jnp.float32), ValueError,
             "rank below 2")
      return ["rejected"]
    out = draw(I.Orthogonal(case["scale"], axis), shape, jnp.float32)
    eq(tuple(out.shape), tuple(shape), "shape")
    eq(str(out.dtype), "float32", "dtype")
    m = np.moveaxis(np.asarray(out, np.float64), axis, 0).reshape(
        shape[axis], -1)
    s = case["scale"] ** 2
    gram = m @ m.T if m.shape[0] <= m.shape[1] else m.T @ m
    close(gram, s * np.eye(len(gram)), "rows (or columns) orthonormal",
          rtol=1e-4, atol=1e-4)
    close(draw(I.Orthogonal(case["scale"], axis), shape, jnp.float32),
          np.asarray(out), "the same key")
    return ["nt", k] if min(m.shape) > 1 else [k]
  if k == "haar":
    # Uniformly distributed: no entry, and no coordinate product, is favoured.
    shape = (case["a"], case["b"])
    keys = jax.random.split(jax.random.PRNGKey(case["seed"]), 2000)
    t = hk.transform(lambda: I.Orthogonal()(shape, jnp.float32))
    x = np.asarray(jax.jit(jax.vmap(lambda q: t.apply({}, q)))(keys))
    n = max(shape)
    check(np.all(np.abs(x.mean(0)) < 8 / np.sqrt(2000 * n)),
          f"mean entries {x.mean(0)}")
    want = 1.0 / n
    check(np.all(np.abs((x ** 2).mean(0) - want) < 8 * np.sqrt(2 / 2000) / n +
                 1e-4), f"mean squares {(x ** 2).mean(0)}, expected {want}")
    return ["nt", k] if min(shape) > 1 else [k]
  raises(lambda: I.VarianceScaling(-1.0), ValueError, "negative scale")
  raises(lambda: I.VarianceScaling(1.0, "fan"), ValueError, "unknown mode")
  raises(lambda: I.VarianceScaling(1.0, "fan_in", "cauchy"), ValueError,
         "unknown distribution")
  return [k]


PROP = Prop("P25", [
    Sub("laws", random_strat, run_random, 200, 4000,
        "the array has more than one element"),
    Sub("layers", layer_strat, run_layer, 120, 1600,
        "input and output sizes differ"),
    Sub("exact", exact_strat, run_exact, 400, 4000,
        "an array constant, a batched or non-square identity, or an orthogonal "
        "matrix with both sides above one"),
], ["distributions are compared on samples of about 20000 values at odds of "
    "less than 1e-12 per comparison; differences smaller than about 5% of the "
    "standard deviation are not seen"])
