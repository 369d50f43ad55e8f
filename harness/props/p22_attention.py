"""P22: MultiHeadAttention."""
from core import Prop, Sub, Violation, check, eq, raises, close, same_bits
import nnlib as nn
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

seeds = st.integers(0, 10**6)


def strat():
  return st.fixed_dictionaries({
      "b": nn.dim(1, 3, 9), "t": nn.dim(1, 4, 9, 17, 70, 130),
      "s": nn.dim(1, 4, 9, 17, 70, 130), "dq": nn.dim(1, 4, 9, 33),
      "dk": nn.dim(1, 4, 9, 33), "dv": nn.dim(1, 4, 9, 33),
      "heads": nn.dim(1, 4, 8, 12), "key": nn.dim(1, 4, 16, 65),
      "query": st.booleans(), "value": st.sampled_from([None, 1, 2, 5]),
      "model": st.sampled_from([None, None, 1, 3, 6]),
      "mask": st.sampled_from([None, "b1", "bh", "11", "causal", "causal"]),
      "mdtype": st.sampled_from(["bool", "float32", "int32", "same"]),
      "dtype": st.sampled_from(["float32"] * 5 + ["bfloat16", "float16"]),
      "garbage": st.booleans(), "jit": st.sampled_from([False, False, True]),
      # Logits far beyond the range in which exp() is finite.
      "mag": st.sampled_from([1] * 7 + [30, 200]), "seed": seeds})


def run(case):
  b, t, s, h, k = (case[q] for q in ("b", "t", "s", "heads", "key"))
  dt, seed = case["dtype"], case["seed"]
  v = case["value"] or k
  kw = {}
  if case["query"]:
    kw["query_size"] = k
  if case["value"]:
    kw["value_size"] = v
  if case["model"]:
    kw["model_size"] = case["model"]
  model = case["model"] or h * k
  mag = case["mag"] if dt == "float32" else 1
  q, qn = nn.cast(nn.rnd(seed, (b, t, case["dq"])) * mag, dt)
  ky, kn = nn.cast(nn.rnd(seed + 1, (b, s, case["dk"])), dt)
  va, vn = nn.cast(nn.rnd(seed + 2, (b, s, case["dv"])), dt)
  mask = None
  if case["mask"]:
    r = np.random.RandomState(seed + 3)
    shp = {"b1": (b, 1, t, s), "bh": (b, h, t, s), "11": (t, s),
           "causal": (t, s)}[case["mask"]]
    mask = (np.tril(np.ones((t, s))) if case["mask"] == "causal"
            else r.rand(*shp) < 0.6)
    mask = np.array(mask, bool)
    mask[..., 0] = True   # every query may attend to something
    jm = jnp.asarray(mask, dt if case["mdtype"] == "same" else case["mdtype"])
  f = hk.transform(lambda q, k_, v_: hk.MultiHeadAttention(
      h, k, 1.0, name="mha", **kw)(q, k_, v_, *([] if mask is None else [jm])))
  p = jax.eval_shape(f.init, jax.random.PRNGKey(0), q, ky, va)
  want = {f"mha/{n}": {"w": ((d, h * w), dt), "b": ((h * w,), dt)}
          for n, d, w in (("query", case["dq"], k), ("key", case["dk"], k),
                          ("value", case["dv"], v))}
  want["mha/linear"] = {"w": ((h * v, model), dt), "b": ((model,), dt)}
  nn.want_shapes(p, want, "params")
  j, n = nn.fill(p, seed)
  apply = jax.jit(f.apply) if case["jit"] else f.apply
  out = apply(j, None, q, ky, va)
  lin = lambda x, m: x @ n["mha/" + m]["w"] + n["mha/" + m]["b"]
  qh = lin(qn, "query").reshape(b, t, h, k)
  kh = lin(kn, "key").reshape(b, s, h, k)
  vh = lin(vn, "value").reshape(b, s, h, v)
  logits = np.einsum("bthd,bshd->bhts", qh, kh) / np.sqrt(k)
  if mask is not None:
    logits = np.where(mask, logits, -np.inf)
  att = np.einsum("bhts,bshd->bthd", nn.softmax(logits), vh)
  ref = lin(att.reshape(b, t, h * v), "linear")
  tol = nn.tol(dt, (1 if mag == 1 else 10) if dt == "float32" else 4)
  close(out, ref, "attention", dtype=dt, **tol)
  labels = []
  if mask is not None and case["garbage"] and not case["jit"]:
    # A position that no query may attend to cannot influence the result.
    hidden = ~np.any(np.broadcast_to(mask, (b, h, t, s)), axis=(1, 2))
    if hidden.any():
      hm = jnp.asarray(hidden)[..., None]
      g = apply(j, None, q, jnp.where(hm, 40.0, ky).astype(dt),
                jnp.where(hm, -100.0, va).astype(dt))
      close(g, np.asarray(out.astype(jnp.float32)), "hidden positions changed",
            **nn.tol(dt))
      labels.append("hidden")
  if s > 1 and h > 1 and mask is not None:
    labels.append("nt")
  return labels


PROP = Prop("P22", [
    Sub("attention", strat, run, 800, 12000,
        "several heads and keys, and a mask"),
], ["every query may attend to at least one key; masks hold zeros and ones"])
