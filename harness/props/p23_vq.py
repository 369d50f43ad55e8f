"""P23: VectorQuantizer and VectorQuantizerEMA."""
from core import Prop, Sub, Violation, check, eq, raises, close
import nnlib as nn
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

seeds = st.integers(0, 10**6)
TOL = dict(rtol=1e-3, atol=1e-4)


def quantised(out, x, emb, beta, what, ema=False, lanes=None):
  """Checks every output against the inputs and codebook; returns one-hots.

  lanes: number of leading replicas over which perplexity is shared.
  """
  d, n = emb.shape[-2:]
  flat = x.reshape(-1, d)
  dist = ((flat[:, :, None] - emb[None]) ** 2).sum(1)
  close(out["distances"], dist, f"{what}: distances", rtol=1e-3,
        atol=1e-4 * (1 + np.max(flat ** 2) + np.max(emb ** 2)))
  idx = np.asarray(out["encoding_indices"])
  eq(idx.shape, x.shape[:-1], f"{what}: shape of the indices")
  fi = idx.reshape(-1)
  check(((0 <= fi) & (fi < n)).all(), f"{what}: index out of range")
  chosen = dist[np.arange(len(fi)), fi]
  check(np.all(chosen <= dist.min(1) + 1e-4 * (1 + dist.max(1))),
        f"{what}: a code other than the nearest was chosen")
  enc = np.eye(n)[fi]
  close(out["encodings"], enc, f"{what}: encodings")
  q = emb.T[idx]
  close(out["quantize"], q, f"{what}: quantize", **TOL)
  e = ((q - x) ** 2).mean()
  close(out["loss"], beta * e if ema else e + beta * e, f"{what}: loss", **TOL)
  return enc, q


def perplexity(p):
  return np.exp(-np.sum(p * np.log(p + 1e-10)))


# --------------------------------------------------------------------- learned


def vq_strat():
  return st.fixed_dictionaries({
      "lead": nn.bigger(st.lists(st.integers(1, 4), min_size=1, max_size=3)),
      "d": nn.dim(1, 4), "n": nn.dim(1, 6, 17, 64, 130, 300, 600),
      "beta": st.sampled_from([0.0, 0.25, 1.0]), "train": st.booleans(),
      "numpy": st.booleans(), "seed": seeds})


def run_vq(case):
  d, n, beta = case["d"], case["n"], case["beta"]

  def f(x):
    m = hk.nets.VectorQuantizer(d, n, beta, name="vq")
    out = m(x, is_training=case["train"])
    return out, m.quantize(out["encoding_indices"]), m.embeddings

  t = hk.transform(f)
  x, xn = nn.cast(nn.rnd(case["seed"], tuple(case["lead"]) + (d,)), "float32")
  p = t.init(jax.random.PRNGKey(case["seed"]), x)
  nn.want_shapes(p, {"vq": {"embeddings": ((d, n), "float32")}}, "params")
  j, pn = nn.fill(p, case["seed"], scale=1.0)
  emb = pn["vq"]["embeddings"]
  if case["numpy"]:
    j = jax.tree_util.tree_map(np.asarray, j)
  out, again, held = t.apply(j, None, x)
  enc, q = quantised(out, xn, emb, beta, "vq")
  close(out["perplexity"], perplexity(enc.mean(0)), "perplexity", **TOL)
  close(again, q, "quantize(indices)", **TOL)
  close(held, emb, "embeddings", **TOL)
  # Gradients: straight through to the inputs, codebook only through the loss.
  g = nn.rnd(case["seed"] + 5, xn.shape)
  def objective(p, x):
    o = t.apply(p, None, x)[0]
    return jnp.sum(o["quantize"] * g.astype(np.float32)) + 3.0 * o["loss"]
  jj, _ = nn.fill(p, case["seed"], scale=1.0)
  gp, gx = jax.grad(objective, argnums=(0, 1))(jj, x)
  close(gx, g + 3 * beta * 2 * (xn - q) / xn.size, "gradient at the inputs",
        **TOL)
  dq = (3 * 2 * (q - xn) / xn.size).reshape(-1, d)
  close(gp["vq"]["embeddings"], dq.T @ enc, "gradient at the codebook", **TOL)
  used = len(set(np.argmax(enc, 1)))
  return ["nt"] if used > 1 else []


# ----------------------------------------------------------------- moving average


def ema_strat():
  return st.fixed_dictionaries({
      "lead": nn.bigger(st.lists(st.integers(1, 4), min_size=1, max_size=3)),
      "d": nn.dim(1, 3), "n": nn.dim(1, 5, 17, 64, 130, 300),
      "beta": st.sampled_from([0.25, 1.0]),
      "decay": st.sampled_from([0.0, 0.5, 0.9, 0.99]),
      "eps": st.sampled_from([1e-5, 1e-2]),
      "steps": st.lists(st.sampled_from([True, True, True, False]), min_size=2,
                        max_size=4),
      "replicas": st.sampled_from([0, 0, 2, 3]), "seed": seeds})


def run_ema(case):
  d, n, beta, rep = case["d"], case["n"], case["beta"], case["replicas"]
  lead = tuple(case["lead"])

  def f(x, train):
    m = hk.nets.VectorQuantizerEMA(
        d, n, beta, case["decay"], epsilon=case["eps"], name="vq",
        cross_replica_axis="i" if rep else None)
    before = m.embeddings
    out = m(x, is_training=train)
    return out, before, m.embeddings, m.quantize(out["encoding_indices"])

  t = hk.transform_with_state(f)
  mp = (lambda g: jax.vmap(g, axis_name="i")) if rep else (lambda g: g)
  full = ((rep,) if rep else ()) + lead + (d,)
  x0, _ = nn.cast(nn.rnd(case["seed"], full), "float32")
  key = jax.random.PRNGKey(case["seed"])
  params, state = mp(lambda x: t.init(key, x, True))(x0)
  eq(dict(params), {}, "parameters")
  add = lambda s: ((rep,) if rep else ()) + s
  nn.want_shapes(state, {
      "vq": {"embeddings": (add((d, n)), "float32")},
      "vq/~/ema_cluster_size": {"hidden": (add((n,)), "float32"),
                                "average": (add((n,)), "float32"),
                                "counter": (add(()), "int32")},
      "vq/~/ema_dw": {"hidden": (add((d, n)), "float32"),
                      "average": (add((d, n)), "float32"),
                      "counter": (add(()), "int32")}}, "state")
  for m in ("ema_cluster_size", "ema_dw"):
    for k in ("hidden", "average", "counter"):
      close(state["vq/~/" + m][k], np.zeros(state["vq/~/" + m][k].shape),
            f"initial {m} {k}")
  emb = nn.f64(state["vq"]["embeddings"])
  emb = emb[0] if rep else emb
  hid = {"c": 0.0, "w": 0.0}
  count = 0
  used = 0
  for k, train in enumerate(case["steps"]):
    x, xn = nn.cast(nn.rnd(case["seed"] + k + 1, full), "float32")
    (out, before, after, requant), state = mp(
        lambda s, x, train=train: t.apply({}, s, None, x, train))(state, x)
    lanes = range(rep) if rep else [None]
    encs, qs = [], []
    for l in lanes:
      o = out if l is None else {a: v[l] for a, v in out.items()}
      xx = xn if l is None else xn[l]
      bf = before if l is None else before[l]
      close(bf, emb, f"step {k}: codebook before", rtol=2e-3, atol=2e-3)
      enc, q = quantised(o, xx, emb, beta, f"step {k} replica {l}", ema=True)
      encs.append(enc)
      qs.append(q)
    allp = np.concatenate(encs).mean(0)
    for l in lanes:
      pp = out["perplexity"] if l is None else out["perplexity"][l]
      close(pp, perplexity(allp), f"step {k}: perplexity", **TOL)
    if train:
      count += 1
      dec = case["decay"]
      flat = xn.reshape(len(list(lanes)), -1, d)
      cl = sum(e.sum(0) for e in encs)
      dw = sum(flat[i].T @ encs[i] for i in range(len(encs)))
      hid["c"] = hid["c"] * dec + cl * (1 - dec)
      hid["w"] = hid["w"] * dec + dw * (1 - dec)
      deb = 1 - dec ** count
      c, w = hid["c"] / deb, hid["w"] / deb
      tot = c.sum()
      c2 = (c + case["eps"]) / (tot + n * case["eps"]) * tot
      emb = w / c2[None]
      used = max(used, int((cl > 0).sum()))
    for l in lanes:
      s = state if l is None else jax.tree_util.tree_map(lambda v: v[l], state)
      eq(int(s["vq/~/ema_dw"]["counter"]), count, f"step {k}: counter")
      eq(int(s["vq/~/ema_cluster_size"]["counter"]), count, "counter")
      close(s["vq/~/ema_cluster_size"]["hidden"],
            np.broadcast_to(hid["c"], (n,)), f"step {k}: cluster sizes", **TOL)
      close(s["vq/~/ema_dw"]["hidden"], np.broadcast_to(hid["w"], (d, n)),
            f"step {k}: sums", **TOL)
      close(s["vq"]["embeddings"], emb, f"step {k}: codebook", rtol=2e-3,
            atol=2e-3)
      af = after if l is None else after[l]
      close(af, emb, f"step {k}: module.embeddings", rtol=2e-3, atol=2e-3)
    # Quantise later steps with exactly what the code holds.
    emb = nn.f64(state["vq"]["embeddings"])
    emb = emb[0] if rep else emb
    hid = {"c": nn.f64(state["vq/~/ema_cluster_size"]["hidden"]),
           "w": nn.f64(state["vq/~/ema_dw"]["hidden"])}
    if rep:
      hid = {a: v[0] for a, v in hid.items()}
  raises(lambda: hk.transform_with_state(lambda: hk.nets.VectorQuantizerEMA(
      d, n, beta, 1.5)).init(key), ValueError, "decay above one")
  raises(lambda: hk.transform_with_state(lambda: hk.nets.VectorQuantizerEMA(
      d, n, beta, -0.5)).init(key), ValueError, "negative decay")
  # Gradients go straight through and never reach the codebook.
  if not rep:
    g = nn.rnd(case["seed"] + 5, full)
    x, xn = nn.cast(nn.rnd(case["seed"] + 77, full), "float32")
    def objective(x, s):
      o = t.apply({}, s, None, x, True)[0][0]
      return jnp.sum(o["quantize"] * g.astype(np.float32)) + 3.0 * o["loss"]
    idx = np.asarray(t.apply({}, state, None, x, True)[0][0]["encoding_indices"])
    q = emb.T[idx]
    gx = jax.grad(objective)(x, state)
    close(gx, g + 3 * beta * 2 * (xn - q) / xn.size, "gradient at the inputs",
          **TOL)
  return ["nt"] if count >= 2 and used > 1 else []


PROP = Prop("P23", [
    Sub("learned", vq_strat, run_vq, 200, 5000,
        "more than one code is used"),
    Sub("moving_average", ema_strat, run_ema, 240, 5000,
        "two or more training steps and more than one code in use"),
], ["decay is below one; which of several (nearly) equally near codes is "
    "chosen is not decided"])
