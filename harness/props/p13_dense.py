"""P13: Linear, Bias, MLP, Sequential, Reshape, Flatten, BatchApply."""
from core import Prop, Sub, Violation, check, eq, raises, close
import nnlib as nn
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

DT = ["float32", "float32", "float32", "bfloat16", "float16"]
dims = lambda lo, hi, mx=4, mn=1: st.lists(st.integers(mn, mx), min_size=lo,
                                           max_size=hi)

# ---------------------------------------------------------------------- Linear


def linear_strat():
  return st.fixed_dictionaries({
      "shape": nn.bigger(dims(1, 4, 5)), "out": nn.dim(1, 5), "bias": st.booleans(),
      "dtype": st.sampled_from(DT), "empty": st.sampled_from([False] * 9 + [True]),
      "inits": st.sampled_from(["none", "const", "both"]),
      "twice": st.booleans(), "jit": st.booleans(), "seed": st.integers(0, 99)})


def run_linear(case):
  shape, dt = list(case["shape"]), case["dtype"]
  if case["empty"] and len(shape) > 1:
    shape[0] = 0
  o = case["out"]
  kw = {}
  if case["inits"] != "none":
    kw["w_init"] = lambda s, d: jnp.full(s, 3, d)
  if case["inits"] == "both":
    kw["b_init"] = lambda s, d: jnp.full(s, 5, d)
  mods = []
  def f(x, y):
    m = hk.Linear(o, with_bias=case["bias"], name="lin", **kw)
    mods.append(m)
    return (m(x), m(y)) if case["twice"] else m(x)
  x, xn = nn.cast(nn.rnd(case["seed"], shape), dt)
  y, yn = nn.cast(nn.rnd(case["seed"] + 1, shape[-1:]), dt)
  t = hk.transform(f)
  p = t.init(jax.random.PRNGKey(case["seed"]), x, y)
  want = {"lin": {"w": ((shape[-1], o), dt)}}
  if case["bias"]:
    want["lin"]["b"] = ((o,), dt)
  nn.want_shapes(p, want, "Linear params")
  if case["inits"] != "none":
    close(p["lin"]["w"], np.full((shape[-1], o), 3.), "initial w")
  if case["bias"]:
    close(p["lin"]["b"], np.full((o,), 5. if case["inits"] == "both" else 0.),
          "initial b")
  j, n = nn.fill(p, case["seed"])
  out = (jax.jit(t.apply) if case["jit"] else t.apply)(j, None, x, y)
  eq(mods[-1].output_size, o, "output_size")
  eq(int(mods[-1].input_size), shape[-1], "input_size")
  for got, inp in zip(out if case["twice"] else [out], [xn, yn]):
    ref = np.tensordot(inp, n["lin"]["w"], axes=([-1], [0]))
    if case["bias"]:
      ref = ref + n["lin"]["b"]
    close(got, ref, "Linear", dtype=dt, **nn.tol(dt))
  raises(lambda: hk.transform(lambda: hk.Linear(o)(jnp.ones([]))).init(
      jax.random.PRNGKey(0)), ValueError, "Linear of a scalar")
  return ["nt"] if len(shape) > 1 and case["bias"] else []


# ------------------------------------------------------------------------ Bias


def bias_strat():
  return st.fixed_dictionaries({
      "shape": nn.bigger(dims(2, 5, 4)), "dims": st.one_of(
          st.none(), st.lists(st.integers(-4, 5), max_size=3)),
      "mult": st.sampled_from([None, None, 2.0, -1.0, 0.0, "array", "last"]),
      "out": st.sampled_from(["none", "ok", "list", "bad"]),
      "dtype": st.sampled_from(DT), "seed": st.integers(0, 99)})


def run_bias(case):
  shape, dt, bd = tuple(case["shape"]), case["dtype"], case["dims"]
  r = len(shape)
  x, xn = nn.cast(nn.rnd(case["seed"], shape), dt)
  osz = {"none": None, "ok": shape[1:], "list": list(shape[1:]),
         "bad": shape[1:-1] + (shape[-1] + 1,)}[case["out"]]
  mult, multn = case["mult"], case["mult"]
  if mult in ("array", "last"):
    mult, multn = nn.cast(nn.rnd(7, shape if mult == "array" else shape[-1:]),
                          dt)
  mods = []
  def f(x):
    m = hk.Bias(output_size=osz, bias_dims=bd)
    mods.append(m)
    return m(x) if case["mult"] is None else m(x, multiplier=mult)
  t = hk.transform(f)
  bad = case["out"] == "bad"
  if bd:
    for d in bd:
      d = d % r if d < 0 else d
      if d == 0 or d >= r:
        bad = True
  if bad:
    raises(lambda: t.init(None, x), ValueError, "Bias that cannot apply")
    return ["rejected"]
  if bd is None:
    bshape = shape[1:]
  else:
    keep = {d % r for d in bd}
    b = [shape[i] if i in keep else 1 for i in range(r)]
    while b and b[0] == 1:
      b.pop(0)
    bshape = tuple(b)
  p = t.init(None, x)
  nn.want_shapes(p, {"bias": {"b": (bshape, dt)}}, "Bias params")
  eq(tuple(mods[-1].bias_shape), bshape, "bias_shape")
  close(p["bias"]["b"], np.zeros(bshape), "initial bias")
  j, n = nn.fill(p, case["seed"])
  out = t.apply(j, None, x)
  bn = n["bias"]["b"] * (1 if case["mult"] is None else multn)
  close(out, xn + bn, "Bias", dtype=dt, **nn.tol(dt))
  return ["nt"] if bd is not None or case["mult"] is not None else []


# ------------------------------------------------------------------------- MLP


def mlp_strat():
  return st.fixed_dictionaries({
      "sizes": nn.bigger(dims(0, 4, 5)), "in": nn.bigger(dims(1, 3, 4)), "bias": st.booleans(),
      "final": st.booleans(), "act": st.sampled_from(["relu", "tanh", "sq"]),
      "gen": st.booleans(), "dropout": st.sampled_from([None, None, 0.0, 0.5]),
      "reverse": st.sampled_from([None, "default", "true", "false"]),
      "binit": st.booleans(), "seed": st.integers(0, 99)})


def run_mlp(case):
  sizes, shape = case["sizes"], tuple(case["in"])
  if case["dropout"]:
    # The reference tries every mask of a layer.
    sizes = [min(n, 6) for n in sizes]
    case = dict(case, sizes=sizes)
  act = {"relu": jax.nn.relu, "tanh": jnp.tanh, "sq": lambda v: v * v * 0.1 - 1}[
      case["act"]]
  actn = {"relu": nn.relu, "tanh": np.tanh, "sq": lambda v: v * v * 0.1 - 1}[
      case["act"]]
  x, xn = nn.cast(nn.rnd(case["seed"], shape), "float32")
  kw = {}
  if case["binit"]:
    kw["b_init"] = jnp.ones
  rev = case["reverse"]
  def f(x, key):
    m = hk.nets.MLP((s for s in sizes) if case["gen"] else sizes,
                    with_bias=case["bias"], activation=act,
                    activate_final=case["final"], **kw)
    a = [] if case["dropout"] is None else [case["dropout"], key]
    y = m(x, *a)
    if rev is None:
      return y, ()
    r = m.reverse(**({} if rev == "default" else
                     {"activate_final": rev == "true"}))
    return y, r(y)
  t = hk.transform(f)
  key = jax.random.PRNGKey(case["seed"])
  if case["binit"] and not case["bias"]:
    raises(lambda: t.init(key, x, key), ValueError, "b_init without bias")
    return ["rejected"]
  p = t.init(key, x, key)
  chain = [shape[-1]] + list(sizes)
  want = {}
  def layers(prefix, chain):
    for i in range(len(chain) - 1):
      b = {"w": ((chain[i], chain[i + 1]), "float32")}
      if case["bias"]:
        b["b"] = ((chain[i + 1],), "float32")
      want[f"{prefix}/~/linear_{i}"] = b
  layers("mlp", chain)
  if rev is not None:
    layers("mlp/~reverse/mlp_reversed", chain[::-1])
  nn.want_shapes(p, want, "MLP params")
  j, n = nn.fill(p, case["seed"])
  out, rout = t.apply(j, None, x, key)
  def ref(prefix, v, k, final):
    for i in range(k):
      q = n[f"{prefix}/~/linear_{i}"]
      v = np.tensordot(v, q["w"], axes=([-1], [0]))
      if case["bias"]:
        v = v + q["b"]
      if i < k - 1 or final:
        v = actn(v)
    return v
  k = len(sizes)
  if case["dropout"]:
    eq(out.shape, shape[:-1] + (chain[-1],), "shape with dropout")
    if k == 0 or (k == 1 and not case["final"]):
      # Nothing is activated, so nothing is dropped.
      close(out, ref("mlp", xn, k, case["final"]), "MLP, nothing to drop",
            **nn.tol("float32", 5))
    elif k == 1 and case["act"] == "relu":
      full = ref("mlp", xn, 1, True)
      o = np.asarray(out, np.float64)
      check(np.all(np.isclose(o, 0, atol=1e-6) |
                   np.isclose(o, full * 2, rtol=1e-3, atol=1e-4)),
            "MLP dropout: outputs are neither dropped nor scaled")
    elif k == 2:
      masked_rows(out, xn, n, case, actn)
    same = t.apply(j, None, x, key)[0]
    check(np.array_equal(np.asarray(same), np.asarray(out)),
          "MLP dropout with the same key differs")
  else:
    close(out, ref("mlp", xn, k, case["final"]), "MLP", dtype="float32",
          **nn.tol("float32", 5))
    if rev is not None:
      yn = np.asarray(out, np.float64)
      fin = case["final"] if rev == "default" else rev == "true"
      close(rout, ref("mlp/~reverse/mlp_reversed", yn, k, fin), "reversed MLP",
            dtype="float32", **nn.tol("float32", 10))
      eq(np.shape(rout), shape, "shape of the reversed output")
  def bad(*a):
    return lambda: hk.transform(lambda: hk.nets.MLP([2])(x, *a)).init(key)
  raises(bad(0.5), ValueError, "dropout without a key")
  raises(bad(None, key), ValueError, "a key without dropout")
  return ["nt"] if k >= 2 else []


def masked_rows(out, xn, n, case, actn):
  """Each row is explained by some set of dropped units (rate 0.5)."""
  import itertools
  q0, q1 = n["mlp/~/linear_0"], n["mlp/~/linear_1"]
  o = np.asarray(out, np.float64).reshape(-1, out.shape[-1])
  rows = xn.reshape(-1, xn.shape[-1])
  h = rows @ q0["w"] + (q0["b"] if case["bias"] else 0)
  masks = np.array(list(itertools.product([0., 2.], repeat=h.shape[-1])))
  for r in range(rows.shape[0]):
    v = actn(h[r] * masks) @ q1["w"] + (q1["b"] if case["bias"] else 0)
    if case["final"]:
      ok = (np.isclose(o[r], actn(v * 2), rtol=1e-3, atol=1e-3) |
            np.isclose(o[r], actn(v * 0), rtol=1e-3, atol=1e-3))
    else:
      ok = np.isclose(o[r], v, rtol=1e-3, atol=1e-3)
    check(np.any(np.all(ok, axis=-1)),
          f"MLP dropout: row {r} = {o[r]} matches no set of dropped units")


def mlp_drop_strat():
  return st.fixed_dictionaries({"seed": st.integers(0, 10**6),
                                "k": st.integers(1, 3),
                                "final": st.booleans(),
                                "rate": st.sampled_from([0.2, 0.5, 0.8])})


def run_mlp_drop(case):
  """Identity layers: a unit survives iff every layer keeps it."""
  w, k, rate = 48, case["k"], case["rate"]
  x = jnp.ones([40, w])
  key = jax.random.PRNGKey(case["seed"])
  t = hk.transform(lambda r: hk.nets.MLP(
      [w] * k, activation=lambda v: v, activate_final=case["final"])(
          x, rate, r))
  p = t.init(key, key)
  p = {m: {"w": jnp.eye(w), "b": jnp.zeros(w)} for m in p}
  out = np.asarray(t.apply(p, None, key))
  d = k if case["final"] else k - 1
  keep = (1 - rate) ** d
  full = (1 / (1 - rate)) ** d
  check(np.all(np.isclose(out, 0) | np.isclose(out, full, rtol=1e-4)),
        f"MLP dropout: values other than 0 and {full}")
  frac, sd = np.mean(out != 0), np.sqrt(keep * (1 - keep) / out.size)
  check(abs(frac - keep) <= 7 * sd + 1e-9,
        f"MLP dropout: {frac} of the units survive {d} dropouts, expected "
        f"{keep}")
  return ["nt"] if d >= 2 else []


# ------------------------------------------------------------------ Sequential


def seq_strat():
  return st.fixed_dictionaries({
      "layers": st.lists(st.sampled_from(["linear", "relu", "double", "add"]),
                         max_size=5),
      "first": st.booleans(), "kw": st.booleans(), "gen": st.booleans(),
      "shared": st.booleans(), "seed": st.integers(0, 99)})


def run_seq(case):
  x, xn = nn.cast(nn.rnd(case["seed"], (2, 3)), "float32")
  calls = []
  def f(x):
    shared = hk.Linear(3, name="shared")
    ls = []
    if case["first"]:
      def first(v, k=1.0, *, s=0.0):
        calls.append((k, s))
        return v * k + s
      ls.append(first)
    for l in case["layers"]:
      ls.append({"linear": shared if case["shared"] else
                 hk.Linear(3, name="lin") if l == "linear" else None,
                 "relu": jax.nn.relu, "double": lambda v: v * 2,
                 "add": lambda v: v + 1}[l])
    m = hk.Sequential((l for l in ls) if case["gen"] else ls)
    if case["first"] and case["kw"]:
      return m(x, 3.0, s=2.0)
    return m(x)
  t = hk.transform(f)
  p = t.init(jax.random.PRNGKey(0), x)
  j, n = nn.fill(p, case["seed"])
  out = t.apply(j, None, x)
  v, c = xn, 0
  if case["first"] and case["kw"]:
    v = v * 3 + 2
  for l in case["layers"]:
    if l == "linear":
      name = ("shared" if case["shared"] else
              "lin" if c == 0 else f"lin_{c}")
      c += 1
      v = v @ n[name]["w"] + n[name]["b"]
    else:
      v = {"relu": nn.relu, "double": lambda u: u * 2,
           "add": lambda u: u + 1}[l](v)
  close(out, v, "Sequential", **nn.tol("float32", 5))
  return ["nt"] if len(case["layers"]) >= 3 else []


# --------------------------------------------------------------------- Reshape


def reshape_strat():
  return st.fixed_dictionaries({
      "shape": nn.bigger(dims(1, 6, 4)), "preserve": st.integers(0, 4),
      "split": st.lists(st.integers(0, 3), max_size=3),
      "wild": st.one_of(st.none(), st.integers(0, 3)),
      "list": st.booleans(), "empty": st.sampled_from([False] * 7 + [True]),
      "bad": st.sampled_from([False] * 7 + [True]),
      "flatten": st.booleans()})


def run_reshape(case):
  shape, k = list(case["shape"]), case["preserve"]
  if case["empty"] and len(shape) > 1:
    shape[0] = 0
  x = np.arange(int(np.prod(shape)), dtype=np.float32).reshape(shape)
  run = lambda f, v=x: hk.transform(f).apply({}, None, v)
  def build(*a, **kw):
    return run(lambda v: (hk.Flatten if case["flatten"] else hk.Reshape)(
        *a, **kw)(v))
  if k == 0:
    raises(lambda: build(*([] if case["flatten"] else [(-1,)]),
                         preserve_dims=0), ValueError, "preserve_dims=0")
    return ["rejected"]
  lead, rest = tuple(shape[:k]), shape[k:]
  if case["flatten"]:
    got = build(preserve_dims=k)
    want = x if len(shape) <= k else x.reshape(
        lead + (int(np.prod(rest)),))
    close(got, want, "Flatten", rtol=0, atol=0)
    return ["nt"] if len(rest) > 1 else []
  # An output shape of the same size: the trailing sizes regrouped.
  flat, cur = [], []
  cuts = set(case["split"])
  for i, d in enumerate(rest):
    cur.append(d)
    if i in cuts:
      flat.append(int(np.prod(cur)))
      cur = []
  if cur or not flat:
    flat.append(int(np.prod(cur)))
  tgt = list(flat)
  if case["wild"] is not None:
    tgt[case["wild"] % len(tgt)] = -1
  if case["bad"]:
    raises(lambda: build([-1, -1], preserve_dims=k), ValueError,
           "two wildcards")
    return ["rejected"]
  arg = tgt if case["list"] else tuple(tgt)
  got = build(arg, preserve_dims=k)
  want = x if len(shape) <= k else x.reshape(lead + tuple(flat))
  close(got, want, "Reshape", rtol=0, atol=0)
  if not case["empty"] and len(shape) > k and not (
      case["wild"] is not None):
    raises(lambda: build(tuple(flat[:-1]) + (flat[-1] + 1,), preserve_dims=k),
           (TypeError, ValueError), "Reshape to another size")
  return ["nt"] if len(rest) > 1 else []


# ------------------------------------------------------ BatchApply/expand_apply


def batch_strat():
  return st.fixed_dictionaries({
      "lead": nn.bigger(dims(1, 4, 4)), "tail": nn.bigger(dims(0, 2, 3)), "tail2": dims(0, 2, 3),
      "small": st.sampled_from(["none", "scalar", "first", "kw", "python"]),
      "tree": st.sampled_from(["one", "two", "dict", "kwargs"]),
      "mode": st.sampled_from(["batch", "batch", "expand0", "expand-1",
                               "module"]),
      "empty": st.sampled_from(["no"] * 6 + ["lead", "tail"]),
      "default": st.booleans()})


def run_batch(case):
  lead, n = tuple(case["lead"]), len(case["lead"])
  if case["empty"] == "lead":
    lead = (0,) + lead[1:]
  if case["empty"] == "tail":
    case = dict(case, tail=list(case["tail"]) + [0])
  a = nn.rnd(1, lead + tuple(case["tail"])).astype(np.float32)
  b = nn.rnd(2, lead + tuple(case["tail2"])).astype(np.float32)
  mode = case["mode"]
  if mode == "module":
    a = nn.rnd(1, lead + (3,)).astype(np.float32)
    t = hk.transform(lambda v: hk.BatchApply(hk.Linear(2, name="l"),
                                             num_dims=n)(v))
    p = t.init(jax.random.PRNGKey(0), a)
    j, q = nn.fill(p, 3)
    close(t.apply(j, None, a), a.astype(np.float64) @ q["l"]["w"]
          + q["l"]["b"], "BatchApply(Linear)", **nn.tol("float32"))
    return ["nt", mode]
  seen = []
  if mode == "batch":
    m = int(np.prod(lead))
    small = np.float32(2.5)
    # Fewer dimensions than are merged: passed on unchanged.
    few = np.ones((), np.float32) if n == 1 else np.full((n,) * 1, 3.,
                                                         np.float32)
    def f(*args, **kw):
      seen.append((args, kw))
      return {"s": jax.tree_util.tree_map(lambda l: l * 2, big(args, kw)),
              "n": jnp.arange(m)}
    def big(args, kw):
      if case["tree"] == "kwargs":
        return kw["u"]
      return args[-1]
    args = {"one": [a], "two": [b, a], "dict": [{"p": a, "q": b}],
            "kwargs": []}[case["tree"]]
    kw = {"u": a} if case["tree"] == "kwargs" else {}
    fewpos = None
    if case["small"] == "first":
      args = [few] + args
      fewpos = 0
    elif case["small"] == "scalar":
      args = [small] + args
      fewpos = 0
    elif case["small"] == "python":
      args = [7] + args
      fewpos = 0
    elif case["small"] == "kw":
      kw["few"] = few
    use = (hk.BatchApply(f) if n == 2 and case["default"]
           else hk.BatchApply(f, num_dims=n))
    out = use(*args, **kw)
    src = {"one": a, "two": a, "dict": {"p": a, "q": b}, "kwargs": a}[
        case["tree"]]
    want = jax.tree_util.tree_map(lambda v: v * 2, src)
    jax.tree_util.tree_map(lambda g, w: close(g, w, "BatchApply", rtol=0,
                                              atol=0), out["s"], want)
    close(out["n"], np.arange(m).reshape(lead), "BatchApply split")
    sargs, skw = seen[-1]
    merged = jax.tree_util.tree_leaves(big(sargs, skw))
    for l, w in zip(merged, jax.tree_util.tree_leaves(src)):
      close(l, w.reshape((m,) + w.shape[n:]), "merged argument", rtol=0,
            atol=0)
    if fewpos is not None:
      close(sargs[fewpos], args[fewpos], "low-rank argument", rtol=0, atol=0)
    if "few" in kw:
      close(skw["few"], few, "low-rank keyword argument", rtol=0, atol=0)
    if n > 1:
      raises(lambda: hk.BatchApply(f, num_dims=n)(few), ValueError,
             "BatchApply with nothing to merge")
    return ["nt", "batch"] if n > 1 else ["batch"]
  axis = 0 if mode == "expand0" else -1
  def g(*args, **kw):
    seen.append((args, kw))
    return {"a": jax.tree_util.tree_map(lambda v: v * 3, args), "k": kw}
  out = hk.expand_apply(g, axis=axis)(a, {"b": b}, z=a)
  close(seen[-1][0][0], np.expand_dims(a, axis), "expanded argument", rtol=0,
        atol=0)
  close(seen[-1][0][1]["b"], np.expand_dims(b, axis), "expanded argument",
        rtol=0, atol=0)
  close(seen[-1][1]["z"], np.expand_dims(a, axis), "expanded keyword argument",
        rtol=0, atol=0)
  close(out["a"][0], a * 3, "expand_apply", rtol=0, atol=0)
  close(out["a"][1]["b"], b * 3, "expand_apply", rtol=0, atol=0)
  close(out["k"]["z"], a, "expand_apply keyword", rtol=0, atol=0)
  for bad in (1, -2, 2):
    raises(lambda bad=bad: hk.expand_apply(g, axis=bad), ValueError,
           "expand_apply axis")
  if case["default"] and axis == 0:
    close(hk.expand_apply(g)(a)["a"][0], a * 3, "expand_apply default axis",
          rtol=0, atol=0)
  return ["nt", mode]


PROP = Prop("P13", [
    Sub("linear", linear_strat, run_linear, 500, 6000,
        "a batched input and a bias"),
    Sub("bias", bias_strat, run_bias, 500, 8000,
        "explicit bias_dims or a multiplier"),
    Sub("mlp", mlp_strat, run_mlp, 400, 5000, "at least two layers"),
    Sub("mlp_dropout", mlp_drop_strat, run_mlp_drop, 64, 800,
        "at least two dropouts in a row"),
    Sub("sequential", seq_strat, run_seq, 250, 2500, "at least three layers"),
    Sub("reshape", reshape_strat, run_reshape, 1000, 10000,
        "at least two dimensions to reshape"),
    Sub("batch_apply", batch_strat, run_batch, 600, 6000,
        "at least two dimensions merged, or an expanded axis, or a module"),
])
