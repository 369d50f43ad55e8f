"""P19: moving averages and spectral normalisation, singly and over trees."""
from core import Prop, Sub, Violation, check, eq, raises, close, same_bits
import nnlib as nn
from hypothesis import strategies as st
import re
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

seeds = st.integers(0, 10**6)

# -------------------------------------------------------------------------- EMA


class Ema:

  def __init__(self, decay, debias, warmup):
    self.decay, self.debias = decay, debias
    self.counter, self.hidden, self.average = -warmup, 0.0, None
    self.warmup = warmup

  def step(self, v, update=True):
    c = self.counter + 1
    d = 0.0 if self.warmup and c <= 0 else self.decay
    h = self.hidden * d + v * (1 - d)
    a = h / (1 - d ** c) if self.debias else h
    if update:
      self.counter, self.hidden, self.average = c, h, a
    return a


def ema_strat():
  return st.fixed_dictionaries({
      "decay": st.sampled_from([0.0, 0.25, 0.5, 0.9, 0.99]),
      "mode": st.sampled_from(["debias", "debias", "plain", "warm", "warm"]),
      "warmup": st.integers(1, 5),
      "shape": nn.bigger(st.lists(st.integers(1, 3), max_size=3)),
      "dtype": st.sampled_from(["float32"] * 4 + ["bfloat16", "float16"]),
      "inits": st.sampled_from(["call", "call", "initialize", "deprecated",
                                "call_noupdate"]),
      # each apply: list of (update?) calls; None reads the average
      "steps": st.lists(st.lists(st.sampled_from([True, True, True, False,
                                                  None]),
                                 min_size=1, max_size=3),
                        min_size=2, max_size=6),
      "jit": st.sampled_from([False, False, True]), "seed": seeds})


def run_ema(case):
  shape, dt, seed = tuple(case["shape"]), case["dtype"], case["seed"]
  warm = case["warmup"] if case["mode"] == "warm" else 0
  debias = case["mode"] == "debias"
  how = case["inits"]

  def f(values, ups, initialize):
    m = hk.ExponentialMovingAverage(case["decay"], zero_debias=debias,
                                    warmup_length=warm, name="ema")
    out = []
    if initialize == "initialize":
      m.initialize(shape, dt)
    elif initialize == "deprecated":
      m.initialize(jnp.ones(shape, dt))
    for v, u in zip(values, ups):
      if u is None:
        out.append(m.average)
      elif u:
        out.append(m(v))
      else:
        out.append(m(v, update_stats=False))
    return out

  t = hk.transform_with_state(f)
  v0, v0n = nn.cast(nn.rnd(seed, shape) + 1, dt)
  tol = nn.tol(dt, 3)
  m = Ema(case["decay"], debias, warm)
  if how in ("initialize", "deprecated"):
    params, state = t.init(None, [], [], how)
    m.average = np.zeros(shape)
    nn.want_shapes(state, {"ema": {"hidden": (shape, dt),
                                   "average": (shape, dt)}}, "initialize")
    # Calling it once more creates the counter.
    _, state = t.init(None, [v0], [True], how)
  else:
    params, state = t.init(None, [v0], [how == "call"], None)
    if how == "call":
      m.average = Ema(case["decay"], debias, warm).step(v0n)
  eq(dict(params), {}, "parameters")
  want = {"counter": ((), "int32"), "hidden": (shape, dt)}
  if how != "call_noupdate":
    want["average"] = (shape, dt)
  nn.want_shapes(state, {"ema": want}, "EMA state")
  eq(int(state["ema"]["counter"]), -warm, "initial counter")
  close(state["ema"]["hidden"], np.zeros(shape), "initial hidden")
  if m.average is not None:
    close(state["ema"]["average"], m.average, "initial average", **tol)
  n_up = 0
  skipped = False
  for k, ups in enumerate(case["steps"]):
    vals, valn = [], []
    for i in range(len(ups)):
      a, b = nn.cast(nn.rnd(seed + 7 * k + i + 1, shape) + 1, dt)
      vals.append(a)
      valn.append(b)
    if m.average is None and ups[0] is None:
      raises(lambda: t.apply({}, state, None, vals, ups, None), ValueError,
             "average of an EMA that has none")
      continue
    if m.average is None and None in ups and True not in ups[:ups.index(None)]:
      continue
    fn = lambda s, v, ups=ups: t.apply({}, s, None, v, ups, None)
    outs, state = (jax.jit(fn) if case["jit"] else fn)(state, vals)
    for u, v, out in zip(ups, valn, outs):
      if u is None:
        ref = m.average
      else:
        ref = m.step(v, u)
        n_up += bool(u)
        skipped |= not u
      close(out, ref, f"step {k} update={u}", dtype=dt, **tol)
    eq(int(state["ema"]["counter"]), m.counter, f"step {k}: counter")
    close(state["ema"]["hidden"], np.broadcast_to(m.hidden, shape),
          f"step {k}: hidden", dtype=dt, **tol)
    if m.average is not None:
      close(state["ema"]["average"], m.average, f"step {k}: average", dtype=dt,
            **tol)
  raises(lambda: hk.transform_with_state(lambda: hk.ExponentialMovingAverage(
      0.5, zero_debias=False, warmup_length=-1)).init(None), ValueError,
         "negative warmup")
  raises(lambda: hk.transform_with_state(lambda: hk.ExponentialMovingAverage(
      0.5, warmup_length=1)).init(None), ValueError, "warmup and debiasing")
  out = [case["mode"]]
  if n_up >= 3 and skipped:
    out.append("nt")
  return out


# ------------------------------------------------------------- trees of params

MODS = ["linear", "a/linear", "a/~/b", "a/~m/c_1", "~", "conv2_d", "b"]
NAMES = ["w", "b", "w_x", "embeddings", "scale"]
REGEX = ["", "", ".*w$", "linear", ".*/b$", "a/.*", "w", "(?!a/).*", "[^/]*/w"]


def tree_strat(ranks):
  return st.fixed_dictionaries({
      "tree": st.dictionaries(
          st.sampled_from(MODS), st.dictionaries(
              st.sampled_from(NAMES),
              st.lists(st.integers(1, 4), min_size=ranks[0],
                       max_size=ranks[1]), min_size=1, max_size=3),
          min_size=1, max_size=3),
      "regex": st.sampled_from(REGEX),
      "mode": st.sampled_from(["debias", "plain", "warm"]),
      "n_steps": st.integers(1, 3),
      "decay": st.sampled_from([0.0, 0.5, 0.9]),
      "updates": st.lists(st.booleans(), min_size=1, max_size=4),
      "twice": st.booleans(), "kind": st.sampled_from(["dict", "flat"]),
      "seed": seeds})


def ignored(regex, m, n):
  return bool(regex) and re.match(regex, m + "/" + n) is not None


def tree_values(case, k):
  j, n = {}, {}
  i = 0
  for m in case["tree"]:
    j[m], n[m] = {}, {}
    for name, shape in case["tree"][m].items():
      i += 1
      j[m][name], n[m][name] = nn.cast(
          nn.rnd(case["seed"] + 31 * k + i, shape) + 0.2, "float32")
  if case["kind"] == "flat":
    j = hk.data_structures.to_immutable_dict(j)
  return j, n


def same_tree(got, want, what):
  eq(sorted(got), sorted(want), f"{what}: modules")
  for m in want:
    eq(sorted(got[m]), sorted(want[m]), f"{what}: {m}")
    for n in want[m]:
      close(got[m][n], want[m][n], f"{what}: {m}/{n}", rtol=1e-3, atol=1e-4)


def run_ema_tree(case):
  warm = 2 if case["mode"] == "warm" else 0
  debias = case["mode"] == "debias"
  calls = 2 if case["twice"] else 1

  def f(tree, update):
    m = hk.EMAParamsTree(case["decay"], zero_debias=debias, warmup_length=warm,
                         ignore_regex=case["regex"], name="ema")
    return [m(tree, update_stats=update) for _ in range(calls)]

  t = hk.transform_with_state(f)
  j0, n0 = tree_values(case, 0)
  params, state = t.init(None, j0, True)
  eq(dict(params), {}, "parameters")
  model = {(m, n): Ema(case["decay"], debias, warm)
           for m in n0 for n in n0[m] if not ignored(case["regex"], m, n)}
  names = {(m, n): "ema/" + (m + "/" + n).replace("/", "__").replace(
      "~", "_tilde_") for m, n in model}
  eq(sorted(state), sorted(names.values()), "one average per parameter")
  for k, up in enumerate(case["updates"]):
    j, v = tree_values(case, k + 1)
    outs, state = t.apply(params, state, None, j, up)
    for out in outs:
      ref = {m: {n: model[m, n].step(v[m][n], up) if (m, n) in model
                 else v[m][n] for n in v[m]} for m in v}
      same_tree(out, ref, f"step {k}")
      check(isinstance(out, type(hk.data_structures.to_immutable_dict({}))),
            "the result is not an immutable params structure")
  return (["nt"] if model and len(case["updates"]) > 1 else []) + (
      ["some-ignored"] if model and len(model) < sum(map(len, n0.values()))
      else [])


# ------------------------------------------------------------------ SpectralNorm


def l2n(x, eps):
  return x / np.sqrt((x * x).sum() + eps)


def sn_ref(w, u, steps, eps):
  shape = w.shape
  w = w.reshape(-1, shape[-1])
  for _ in range(steps):
    v = l2n(u @ w.T, eps)
    u = l2n(v @ w, eps)
  sigma = (v @ w @ u.T)[0, 0]
  return (w / sigma).reshape(shape), u, v, sigma


def sn_strat():
  return st.fixed_dictionaries({
      "shape": nn.bigger(st.lists(st.integers(1, 4), min_size=2, max_size=4)),
      "eps": st.sampled_from([1e-4, 1e-4, 1e-2, 1e-12]),
      "n_steps": st.integers(1, 4),
      "scale": st.sampled_from([1.0, 0.1, 10.0]),
      "steps": st.lists(st.sampled_from(["up", "up", "keep"]), min_size=1,
                        max_size=4),
      "strict": st.booleans(), "grad": st.booleans(), "seed": seeds})


def run_sn(case):
  shape, seed, eps = tuple(case["shape"]), case["seed"], case["eps"]

  def f(w, update):
    m = hk.SpectralNorm(eps=eps, n_steps=case["n_steps"], name="sn")
    out = m(w, update_stats=update, error_on_non_matrix=strict)
    return out, ((m.u0, m.sigma) if update else None)

  t = hk.transform_with_state(f)
  w0, w0n = nn.cast(nn.rnd(seed, shape) * case["scale"] +
                    0.3 * case["scale"], "float32")
  strict = True
  if len(shape) > 2:
    raises(lambda: t.init(jax.random.PRNGKey(1), w0, True), ValueError,
           "a strict call with a non-matrix")
    strict = False
  else:
    strict = case["strict"]
  for s in ([], [3]):
    raises(lambda: t.init(jax.random.PRNGKey(1), jnp.ones(s), True), ValueError,
           f"rank {len(s)}")
  key = jax.random.PRNGKey(seed)
  _, state = t.init(key, w0, True)
  c = shape[-1]
  nn.want_shapes(state, {"sn": {"u0": ((1, c), "float32"),
                                "sigma": ((), "float32")}}, "state")
  u = nn.f64(state["sn"]["u0"])
  k0 = jax.random.split(key)[1]
  close(u, np.asarray(jax.random.normal(k0, (1, c))), "initial u0", rtol=1e-5,
        atol=1e-6)
  sig0 = sn_ref(w0n, u, case["n_steps"], eps)[3]
  close(state["sn"]["sigma"], sig0, "initial sigma", rtol=1e-3, atol=1e-5)
  sigma = sig0
  # A start vector that is not nearly orthogonal to what matters.
  u = np.abs(u) + 0.2
  state = {"sn": {"u0": jnp.asarray(u, jnp.float32),
                  "sigma": state["sn"]["sigma"]}}
  for k, mode in enumerate(case["steps"]):
    up = mode == "up"
    w, wn = nn.cast(np.abs(nn.rnd(seed + k + 1, shape)) * case["scale"] +
                    0.1 * case["scale"], "float32")
    before = state
    (out, seen), state = t.apply({}, state, None, w, up)
    ref, u1, v1, s1 = sn_ref(wn, u, case["n_steps"], eps)
    close(out, ref, f"step {k}", rtol=2e-3, atol=1e-4)
    if up:
      u, sigma = u1, s1
      close(seen[0], u, f"step {k}: module.u0", rtol=2e-3, atol=1e-4)
      close(seen[1], sigma, f"step {k}: module.sigma", rtol=2e-3, atol=1e-4)
    else:
      for q in ("u0", "sigma"):
        same_bits(state["sn"][q], before["sn"][q], f"step {k}: {q} unchanged")
    close(state["sn"]["u0"], u, f"step {k}: u0", rtol=2e-3, atol=1e-4)
    close(state["sn"]["sigma"], sigma, f"step {k}: sigma", rtol=2e-3, atol=1e-4)
    if case["grad"] and k == 0:
      g = nn.rnd(seed + 99, shape)
      got = jax.grad(lambda w: jnp.sum(
          t.apply({}, before, None, w, up)[0][0] * g.astype(np.float32)))(w)
      m = wn.reshape(-1, c)
      gm = g.reshape(-1, c)
      want = gm / s1 - (gm * m).sum() / s1 ** 2 * (v1.T @ u1)
      close(got, want.reshape(shape), "gradient", rtol=1e-2,
            atol=1e-3 * (1 + np.abs(want).max()))
  return ["nt"] if case["steps"].count("up") > 1 and min(shape[-2:]) > 1 else []


def run_sn_tree(case):
  def f(tree, update):
    m = hk.SNParamsTree(eps=1e-4, n_steps=case["n_steps"],
                        ignore_regex=case["regex"], name="sn")
    return m(tree, update_stats=update)

  t = hk.transform_with_state(f)
  j0, n0 = tree_values(case, 0)
  j0 = jax.tree_util.tree_map(jnp.abs, j0)
  params, state = t.init(jax.random.PRNGKey(case["seed"]), j0, True)
  eq(dict(params), {}, "parameters")
  keys = [(m, n) for m in n0 for n in n0[m]
          if not ignored(case["regex"], m, n)]
  names = {(m, n): "sn/" + (m + "/" + n).replace("/", "__").replace(
      "~", "_tilde") for m, n in keys}
  eq(sorted(state), sorted(names.values()), "one estimate per parameter")
  us = {k: np.abs(nn.f64(state[names[k]]["u0"])) + 0.2 for k in keys}
  state = {names[k]: {"u0": jnp.asarray(us[k], jnp.float32),
                      "sigma": state[names[k]]["sigma"]} for k in keys}
  for k, up in enumerate(case["updates"]):
    j, v = tree_values(case, k + 1)
    j = jax.tree_util.tree_map(jnp.abs, j)
    v = jax.tree_util.tree_map(np.abs, v)
    out, state = t.apply(params, state, None, j, up)
    ref = {}
    for m in v:
      ref[m] = {}
      for n in v[m]:
        if (m, n) in us:
          ref[m][n], u1, _, _ = sn_ref(v[m][n], us[m, n], case["n_steps"], 1e-4)
          if up:
            us[m, n] = u1
        else:
          ref[m][n] = v[m][n]
    same_tree(out, ref, f"step {k}")
  return ["nt"] if keys and len(case["updates"]) > 1 else []


PROP = Prop("P19", [
    Sub("ema", ema_strat, run_ema, 1200, 16000,
        "three or more updating calls and one that must not update"),
    Sub("ema_tree", lambda: tree_strat((0, 3)), run_ema_tree, 600, 8000,
        "at least one averaged parameter over two or more applies"),
    Sub("spectral", sn_strat, run_sn, 700, 8000,
        "two or more updating calls on a matrix with both sides above one"),
    Sub("spectral_tree", lambda: tree_strat((2, 4)), run_sn_tree, 400, 5000,
        "at least one normalised parameter over two or more applies"),
])
