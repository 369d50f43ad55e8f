"""P14: Embed, one_hot, dropout, multinomial."""
from core import Prop, Sub, Violation, check, eq, raises, close
import nnlib as nn
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

dims = lambda lo, hi, mx=4, mn=1: st.lists(st.integers(mn, mx), min_size=lo,
                                           max_size=hi)

# ----------------------------------------------------------------------- Embed


def embed_strat():
  return st.fixed_dictionaries({
      "vocab": st.one_of(st.integers(1, 7), st.sampled_from([60, 128, 200])),
      "dim": st.one_of(st.integers(1, 4), st.sampled_from([8, 33])),
      "ids": nn.bigger(dims(0, 3, 4)), "idt": st.sampled_from(["int32", "int8", "uint8",
                                                    "int16", "uint32"]),
      "how": st.sampled_from(["sizes", "matrix", "matrix+sizes", "init"]),
      "style": st.sampled_from(["ARRAY_INDEX", "ONE_HOT", "enum0", "enum1",
                                "one_hot", "Array_Index", None]),
      "over": st.sampled_from([None, "ARRAY_INDEX", "ONE_HOT", "one_hot",
                               "enum0", "enum1"]),
      "bad": st.sampled_from([None] * 12 + ["float", "style", "vocab", "dim",
                                            "nothing", "half"]),
      "jit": st.booleans(), "aslist": st.booleans(), "seed": st.integers(0, 99)})


def style(s):
  return {"enum0": hk.EmbedLookupStyle.ARRAY_INDEX,
          "enum1": hk.EmbedLookupStyle.ONE_HOT}.get(s, s)


def run_embed(case):
  v, d = case["vocab"], case["dim"]
  r = np.random.RandomState(case["seed"])
  # The last row is looked up too.
  top = min(v, np.iinfo(case["idt"]).max + 1)
  ids = np.asarray(r.randint(0, top, size=case["ids"])).astype(case["idt"])
  if ids.size and v <= top:
    ids.flat[r.randint(ids.size)] = v - 1
  mat = r.randn(v, d).astype(np.float32)
  kw = {}
  how = case["how"]
  if how in ("sizes", "init", "matrix+sizes"):
    kw.update(vocab_size=v, embed_dim=d)
  if how.startswith("matrix"):
    kw["embedding_matrix"] = mat.tolist() if case["aslist"] else mat
  if how == "init":
    kw["w_init"] = lambda s, dt: jnp.asarray(mat, dt).reshape(s)
  if case["style"] is not None:
    kw["lookup_style"] = style(case["style"])
  mods = []
  def f(ids):
    m = hk.Embed(name="e", **kw)
    mods.append(m)
    return m(ids) if case["over"] is None else m(
        ids, lookup_style=style(case["over"]))
  t = hk.transform(f)
  key = jax.random.PRNGKey(case["seed"])
  bad = case["bad"]
  if bad is not None:
    one = lambda **k: hk.transform(lambda: hk.Embed(**k)(ids)).init(key)
    if bad == "float":
      raises(lambda: t.init(key, ids.astype(np.float32)), ValueError,
             "float ids")
    elif bad == "style":
      raises(lambda: one(vocab_size=v, embed_dim=d, lookup_style="NOPE"),
             AttributeError, "unknown lookup style")
    elif bad == "vocab":
      raises(lambda: one(vocab_size=v + 1, embedding_matrix=mat), ValueError,
             "inconsistent vocab_size")
    elif bad == "dim":
      raises(lambda: one(embed_dim=d + 1, embedding_matrix=mat), ValueError,
             "inconsistent embed_dim")
    elif bad == "nothing":
      raises(lambda: one(), ValueError, "no sizes")
    else:
      raises(lambda: one(vocab_size=v), ValueError, "no embed_dim")
      raises(lambda: one(embed_dim=v), ValueError, "no vocab_size")
    return ["rejected"]
  p = t.init(key, ids)
  nn.want_shapes(p, {"e": {"embeddings": ((v, d), "float32")}}, "Embed params")
  if how != "sizes":
    close(p["e"]["embeddings"], mat, "initial embeddings", rtol=0, atol=0)
  eq((int(mods[-1].vocab_size), int(mods[-1].embed_dim)), (v, d), "sizes")
  j, n = nn.fill(p, case["seed"])
  out = (jax.jit(t.apply) if case["jit"] else t.apply)(j, None, ids)
  close(out, n["e"]["embeddings"][ids.astype(int)], "Embed", rtol=1e-6,
        atol=1e-6, dtype="float32")
  return ["nt"] if ids.size > 1 and v > 1 else []


def onehot_strat():
  return st.fixed_dictionaries({
      "ids": nn.bigger(dims(0, 3, 4)), "n": nn.dim(1, 6),
      "dtype": st.sampled_from([None, "float32", "bfloat16", "int32", "bool"]),
      "seed": st.integers(0, 99)})


def run_onehot(case):
  ids = np.asarray(np.random.RandomState(case["seed"]).randint(
      -2, case["n"] + 2, size=case["ids"]), np.int32)
  dt = case["dtype"]
  if dt is None:
    out = hk.one_hot(ids, case["n"])
  else:
    out = hk.one_hot(ids, case["n"], dtype=getattr(jnp, dt) if dt != "bool"
                     else bool)
  want = (ids[..., None] == np.arange(case["n"])).astype(np.float64)
  eq(str(out.dtype), dt or "float32", "one_hot dtype")
  close(np.asarray(out.astype(jnp.float32)), want, "one_hot")
  return ["nt"] if ids.size > 1 else []


# --------------------------------------------------------------------- dropout


def drop_strat():
  return st.fixed_dictionaries({
      "rate": st.sampled_from([0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 0.999, -0.1,
                               1.0, 1.5, -1e-6]),
      "shape": st.sampled_from([[2000], [40, 50], [10, 10, 20], [1, 2000],
                                [2000, 1], [5, 4], [], [0, 3], [4, 8, 8, 8],
                                [2, 5, 5, 5, 8]]),
      "dtype": st.sampled_from(["float32", "float32", "bfloat16", "float16"]),
      "jit": st.booleans(), "seed": st.integers(0, 10**6)})


def run_drop(case):
  rate, shape = case["rate"], tuple(case["shape"])
  key = jax.random.PRNGKey(case["seed"])
  x, xn = nn.cast(np.sign(nn.rnd(case["seed"], shape)) *
                  (np.abs(nn.rnd(case["seed"] + 1, shape)) + 0.5),
                  case["dtype"])
  if not 0 <= rate < 1:
    raises(lambda: hk.dropout(key, rate, x), ValueError, f"rate {rate}")
    return ["rejected"]
  fn = lambda k, v: hk.dropout(k, rate, v)
  if case["jit"]:
    fn = jax.jit(fn)
  out = fn(key, x)
  eq((out.shape, str(out.dtype)), (shape, case["dtype"]), "dropout result")
  o = np.asarray(out.astype(jnp.float32)).astype(np.float64)
  kept = o != 0
  tl = nn.tol(case["dtype"])
  close(o, np.where(kept, xn / (1 - rate), 0), "dropout: kept values are "
        "scaled by 1/(1-rate)", **tl)
  if rate == 0:
    check(bool(np.all(kept)), "dropout at rate 0 dropped something")
    return []
  o2 = np.asarray(fn(key, x).astype(jnp.float32))
  check(np.array_equal(o2, o), "dropout with the same key differs")
  y, _ = nn.cast(np.full(shape, -3.0), case["dtype"])
  k2 = np.asarray(fn(key, y).astype(jnp.float32)) != 0
  check(np.array_equal(k2, kept), "which units drop depends on their values")
  if o.size >= 1000:
    keep = 1 - rate
    frac, sd = kept.mean(), np.sqrt(rate * keep / o.size)
    check(abs(frac - keep) <= 7 * sd + 2e-3 * (case["dtype"] != "float32"),
          f"dropout: {frac} of {o.size} units kept, expected {keep}")
    k3 = np.asarray(fn(jax.random.PRNGKey(case["seed"] + 1), x)
                    .astype(jnp.float32)) != 0
    same = np.mean(k3 == kept)
    exp = keep ** 2 + rate ** 2
    check(abs(same - exp) <= 7 * np.sqrt(exp * (1 - exp) / o.size) + 5e-3,
          f"dropout: masks of two keys agree on {same}, expected {exp}")
    if rate in (0.25, 0.5, 0.75):
      # Units drop independently of their neighbours along every axis.
      for ax in range(len(shape)):
        if shape[ax] > 1:
          a = np.take(kept, range(shape[ax] - 1), axis=ax)
          b = np.take(kept, range(1, shape[ax]), axis=ax)
          agree = np.mean(a == b)
          check(abs(agree - exp) <= 7.5 * np.sqrt(0.25 / a.size) + 5e-3,
                f"dropout: neighbours along axis {ax} agree on {agree}, "
                f"expected {exp}")
    return ["nt"]
  return []


# ----------------------------------------------------------------- multinomial


def multi_strat():
  return st.fixed_dictionaries({
      "batch": st.sampled_from([None, None, 1, 2, 3, 5]),
      "cats": nn.dim(1, 6, 17, 40), "n": st.sampled_from([1, 2, 3, 17, 2000]),
      "kind": st.sampled_from(["random", "peaked", "uniform", "masked"]),
      "shift": st.sampled_from([0.0, 5.0, -30.0]), "jit": st.booleans(),
      "bad": st.sampled_from([False] * 9 + [True]),
      "seed": st.integers(0, 10**6)})


def run_multi(case):
  b, c, n = case["batch"], case["cats"], case["n"]
  key = jax.random.PRNGKey(case["seed"])
  if case["bad"]:
    raises(lambda: hk.multinomial(key, jnp.zeros([]), n), ValueError,
           "scalar logits")
    raises(lambda: hk.multinomial(key, jnp.zeros([2, 2, 2]), n), ValueError,
           "rank-3 logits")
    return ["rejected"]
  r = np.random.RandomState(case["seed"])
  rows = b or 1
  logits = r.randn(rows, c)
  top = r.randint(0, c, size=rows)
  if case["kind"] == "peaked":
    logits = np.where(np.arange(c) == top[:, None], 60., 0.)
  elif case["kind"] == "uniform":
    logits = np.zeros((rows, c))
  elif case["kind"] == "masked" and c > 2:
    logits[:, 1::2] = -np.inf
  logits = logits + case["shift"]
  lj = jnp.asarray(logits if b is not None else logits[0], jnp.float32)
  fn = lambda k, l: hk.multinomial(k, l, n)
  if case["jit"]:
    fn = jax.jit(fn)
  out = np.asarray(fn(key, lj))
  eq(out.shape, ((b, n) if b is not None else (n,)), "shape of the samples")
  check(np.issubdtype(out.dtype, np.integer), f"samples are {out.dtype}")
  check(np.all((out >= 0) & (out < c)), "sample outside the categories")
  check(np.array_equal(out, np.asarray(fn(key, lj))),
        "multinomial with the same key differs")
  out = out.reshape(rows, n)
  p = nn.softmax(logits)
  for i in range(rows):
    if case["kind"] == "peaked":
      check(np.all(out[i] == top[i]), f"row {i}: sampled {set(out[i])}, all "
            f"the probability is on {top[i]}")
    if n >= 2000:
      for k in range(c):
        f = np.mean(out[i] == k)
        sd = np.sqrt(p[i, k] * (1 - p[i, k]) / n)
        check(abs(f - p[i, k]) <= 7 * sd + 2e-3,
              f"row {i}: category {k} drawn {f}, probability {p[i, k]}")
  if n >= 2000 and rows > 1 and case["kind"] == "uniform" and c > 1:
    agree = np.mean(out[0] == out[1])
    check(abs(agree - 1 / c) <= 7 * np.sqrt(.25 / n),
          f"rows agree on {agree} of the draws")
  return ["nt"] if c > 1 and n > 1 else []


# Draws so many samples that the generator's extreme values occur.


def rare_strat():
  return st.fixed_dictionaries({
      "cats": st.sampled_from([2, 3, 5, 40]), "batch": st.sampled_from([0, 2]),
      "zero": st.sampled_from(["first", "last", "ends", "even", "odd"]),
      "single": st.booleans(), "seed": st.integers(0, 10**6)})


def run_rare(case):
  c = case["cats"]
  r = np.random.RandomState(case["seed"])
  logits = r.randn(max(case["batch"], 1), c)
  i = np.arange(c)
  zero = {"first": i == 0, "last": i == c - 1, "ends": (i == 0) | (i == c - 1),
          "even": i % 2 == 0, "odd": i % 2 == 1}[case["zero"]]
  if zero.all():
    zero = i == 0
  logits[:, zero] = -np.inf
  n = 2**25 // c
  key = jax.random.PRNGKey(case["seed"])
  if case["single"]:
    # One sample for each of many rows.
    lg = jnp.broadcast_to(jnp.asarray(logits[0], jnp.float32), (n, c))
    out = np.asarray(hk.multinomial(key, lg, 1))
    eq(out.shape, (n, 1), "shape of the samples")
  else:
    lg = jnp.asarray(logits if case["batch"] else logits[0], jnp.float32)
    out = np.asarray(hk.multinomial(key, lg, n // max(case["batch"], 1)))
  got = np.bincount(out.ravel(), minlength=c)
  eq(len(got), c, "sample outside the categories")
  check(not got[zero].any(), f"categories of zero probability drawn: "
        f"{[(int(k), int(got[k])) for k in i if zero[k] and got[k]]} of "
        f"{out.size}")
  return ["nt"]


PROP = Prop("P14", [
    Sub("embed", embed_strat, run_embed, 800, 12000,
        "at least two ids and two tokens"),
    Sub("one_hot", onehot_strat, run_onehot, 500, 3000, "at least two ids"),
    Sub("dropout", drop_strat, run_drop, 1000, 12000,
        "at least 1000 units and a rate in (0, 1)"),
    Sub("multinomial", multi_strat, run_multi, 700, 12000,
        "at least two categories and samples"),
    Sub("multinomial_rare", rare_strat, run_rare, 20, 120, "every case"),
], assumptions=["statistical assertions use 7-sigma bounds on at least 1000 "
                "draws"])
