"""P08: hk.cond/switch/scan/fori_loop/while_loop equal plain Python."""
from core import Prop, Sub, Violation, check, eq, raises, close, data
import proglib as pl
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

CF = ["scan", "scan", "fori", "while", "cond", "oldcond", "switch"]
OPS = ["p", "g", "s", "r", "c", "c", "n"] + CF


def strat():
  return st.fixed_dictionaries({
      "prog": pl.programs(st, ops=OPS, depth=2, max_classes=2, max_stmts=3,
                          max_main=3, method_names=("go",), keyed=True),
      "seed": st.integers(0, 3), "x": st.integers(0, 100)})


def run(case):
  labels, mi, ma = pl.agree(case, applies=1, logs=False)
  if mi is not None and any(l.startswith("wrap_") for l in labels):
    labels.append("nt")
  return labels


# ------------------------------------------------ scan over trees of arrays


def scan_strat():
  return st.fixed_dictionaries({
      "n": st.sampled_from([0, 1, 2, 3, 4, 5] * 3 + [9, 17, 33]), "reverse": st.booleans(),
      "unroll": st.sampled_from([1, 1, 2, 3]),
      "length": st.sampled_from(["none", "given", "np", "np0d"]),
      "jit": st.booleans(),
      "xs": st.sampled_from(["array", "dict", "tuple", "none"]),
      "carry": st.sampled_from(["array", "dict"]),
      "y": st.sampled_from(["array", "dict", "none", "const"]),
      "state": st.booleans(), "rng": st.booleans(), "param": st.booleans(),
      "inner": st.booleans(), "seed": st.integers(0, 3)})


class Cell(hk.Module):
  """Uses a parameter, an rng key and a state counter."""

  def __init__(self, cfg, name=None):
    super().__init__(name=name)
    self.cfg = cfg

  def __call__(self, v):
    if self.cfg["param"]:
      v = v + hk.get_parameter("w", [2], jnp.int32,
                               init=lambda s, d: jnp.array([3, 5], d))
    if self.cfg["rng"]:
      k = hk.next_rng_key()
      v = v + (k % jnp.uint32(100)).astype(jnp.int32)
    if self.cfg["state"]:
      c = hk.get_state("c", [], jnp.int32, init=jnp.zeros)
      hk.set_state("c", c + 1)
      v = v + c
    return v % 9973


def run_scan(case):
  n = case["n"]
  if case["xs"] == "none" and case["length"] == "none":
    case = dict(case, length="given")
  a = np.arange(2 * n, dtype=np.int32).reshape(n, 2)
  xs = {"array": a, "dict": {"u": a, "v": a[:, 0] * 3}, "tuple": (a, a + 1),
        "none": None}[case["xs"]]

  def get_x(t):
    if xs is None:
      return None
    return jax.tree_util.tree_map(lambda v: v[t], xs)

  def xval(x):
    if x is None:
      return jnp.int32(1)
    return sum(jnp.sum(l) for l in jax.tree_util.tree_leaves(x))

  length = {"np": np.int64, "np0d": np.array}.get(case["length"], int)(n)
  init = np.array([1, 2], np.int32)
  init = {"array": init, "dict": {"h": init, "n": np.int32(0)}}[case["carry"]]

  def make(plain):
    def main():
      cell = Cell(case)
      def f(c, x):
        h = c if case["carry"] == "array" else c["h"]
        h = cell(h + xval(x).astype(jnp.int32))
        c2 = h if case["carry"] == "array" else {"h": h, "n": c["n"] + 1}
        y = {"array": h * 2, "dict": {"a": h[0], "b": h},
             "none": None, "const": (1.5, h[1])}[case["y"]]
        return c2, y
      if plain:
        c = jax.tree_util.tree_map(jnp.asarray, init)
        ys = [None] * n
        if n == 0 and hk.running_init():
          x0 = jax.tree_util.tree_map(
              lambda v: jnp.zeros(v.shape[1:], v.dtype), xs)
          f(c, x0)
        for t in (reversed(range(n)) if case["reverse"] else range(n)):
          c, ys[t] = f(c, get_x(t))
        ys = (None if case["y"] == "none" else
              jax.tree_util.tree_map(lambda *v: jnp.stack(v), *ys)
              if n else "empty")
        rest = ys
      else:
        kw = {}
        if case["length"] != "none":
          kw["length"] = length
        c, rest = hk.scan(f, init, xs, reverse=case["reverse"],
                          unroll=case["unroll"], **kw)
      # What comes after the loop sees the same key stream and state.
      after = cell(jnp.array([7, 7], jnp.int32))
      return c, rest, after
    return main

  recs = {}
  def rec(tag, main):
    def wrapped():
      out = main()
      if not any(isinstance(l, jax.core.Tracer)
                 for l in jax.tree_util.tree_leaves(out)):
        recs[tag] = out
      return out
    return wrapped

  seed = case["seed"] if case["rng"] else None
  f = hk.transform_with_state(rec("f", make(False)))
  g = hk.transform_with_state(rec("g", make(True)))
  pf, sf = f.init(seed)
  pg, sg = g.init(seed)
  eq(pl_tree(pf), pl_tree(pg), "params from init")
  eq(pl_tree(sf), pl_tree(sg), "state from init")
  same_out(recs["f"], recs["g"], n, case, "values seen during init")
  eq(int(length), n, "the length passed by the caller after init")
  if seed is not None:
    seed = jax.random.PRNGKey(seed + 5)
  ap = jax.jit(f.apply) if case["jit"] else f.apply
  if case["jit"]:
    pj, sj = jax.jit(f.init)(seed)
    eq(jax.tree_util.tree_structure((pj, sj)),
       jax.tree_util.tree_structure((pf, sf)), "jitted init")
  (of, sf2), (og, sg2) = ap(pf, sf, seed), g.apply(pg, sg, seed)
  same_out(of, og, n, case, "apply")
  eq(pl_tree(sf2), pl_tree(sg2), "state from apply")
  return ["nt"] if n >= 2 and (case["state"] or case["rng"]) else []


def pl_tree(t):
  return {m: {n: np.asarray(v).tolist() for n, v in b.items()}
          for m, b in t.items()}


def same_out(a, b, n, case, what):
  ca, ya, aa = a
  cb, yb, ab = b
  tl = jax.tree_util.tree_leaves
  eq([np.asarray(v).tolist() for v in tl(ca)],
     [np.asarray(v).tolist() for v in tl(cb)], f"{what}: carry")
  eq(np.asarray(aa).tolist(), np.asarray(ab).tolist(),
     f"{what}: computation after the loop")
  if n == 0:
    for l in tl(ya):
      eq(l.shape[0], 0, f"{what}: leading dimension of empty outputs")
    check((ya is None) == (case["y"] == "none"), f"{what}: output structure")
    return
  eq(jax.tree_util.tree_structure(ya), jax.tree_util.tree_structure(yb),
     f"{what}: output structure")
  eq([np.asarray(v).tolist() for v in tl(ya)],
     [np.asarray(v).tolist() for v in tl(yb)], f"{what}: stacked outputs")


# ------------------------------------------- bounds and carries of fori_loop


def fori_strat():
  return st.fixed_dictionaries({
      "lower": st.integers(-3, 4), "n": st.sampled_from([-2, -1, 0, 1, 2, 3, 7]),
      "lower_as": st.sampled_from(["int", "np", "np0d", "jnp", "traced"]),
      "upper_as": st.sampled_from(["int", "np", "np0d", "jnp", "traced"]),
      "dtype": st.sampled_from(["int32", "int32", "int16", "uint8"]),
      "carry": st.sampled_from(["array", "dict", "pyint"]),
      "jit": st.booleans(), "keyword": st.booleans(),
      "state": st.booleans(), "rng": st.booleans(), "param": st.booleans(),
      "seed": st.integers(0, 3)})


def run_fori(case):
  lo, n = case["lower"], case["n"]
  dt = np.dtype(case["dtype"])
  if dt == np.uint8:
    lo = abs(lo)
    n = max(n, -lo)
  if "int" in (case["lower_as"], case["upper_as"]):
    dt = np.dtype("int32")  # What a Python int stands for.
  up = lo + n
  jit = case["jit"] or "traced" in (case["lower_as"], case["upper_as"])
  mk = {"int": int, "np": dt.type, "np0d": lambda v: np.array(v, dt),
        "jnp": lambda v: jnp.asarray(v, dt),
        "traced": lambda v: np.array(v, dt)}
  lower, upper = mk[case["lower_as"]](lo), mk[case["upper_as"]](up)
  v0 = {"array": lambda: np.array([1, 2], np.int32),
        "dict": lambda: {"h": np.array([1, 2], np.int32), "n": np.int32(0)},
        "pyint": lambda: 3}[case["carry"]]()

  def make(plain):
    def main(tl, tu, v):
      cell = Cell(case)
      l = tl if case["lower_as"] == "traced" else lower
      u = tu if case["upper_as"] == "traced" else upper

      def body(i, v):
        i = jnp.asarray(i, jnp.int32)
        h = v["h"] if isinstance(v, dict) else v
        h2 = cell(h * 2 + i)
        if case["carry"] == "pyint":
          return h2.sum()
        return {"h": h2, "n": v["n"] + 1} if isinstance(v, dict) else h2

      if plain:
        steps = list(range(lo, up))
        if hk.running_init():
          # The documented unwinding: the body runs (at least) once in init.
          steps = [lo] + steps[1:]
        for i in steps:
          v = body(i, v)
      elif case["keyword"]:
        v = hk.fori_loop(lower=l, upper=u, body_fun=body, init_val=v)
      else:
        v = hk.fori_loop(l, u, body, v)
      return v, cell(jnp.array([7, 7], jnp.int32))
    return main

  key = jax.random.PRNGKey(case["seed"]) if case["rng"] else None
  f = hk.transform_with_state(make(False))
  g = hk.transform_with_state(make(True))
  w = (lambda fn: jax.jit(fn)) if jit else (lambda fn: fn)
  args = (lower, upper, v0)
  pf, sf = w(f.init)(key, *args)
  pg, sg = g.init(key, *args)
  eq(pl_tree(pf), pl_tree(pg), "params from init")
  eq(pl_tree(sf), pl_tree(sg), "state from init")
  eq((int(lower), int(upper)), (lo, up), "the caller's bounds after init")
  (of, sf2), (og, sg2) = w(f.apply)(pf, sf, key, *args), g.apply(
      pg, sg, key, *args)
  tl = jax.tree_util.tree_leaves
  eq([np.asarray(v).tolist() for v in tl(of)],
     [np.asarray(v).tolist() for v in tl(og)], "value and following call")
  eq(pl_tree(sf2), pl_tree(sg2), "state from apply")
  eq((int(lower), int(upper)), (lo, up), "the caller's bounds after apply")
  return ["nt"] if n >= 2 else []


# ------------------------------------------------------------- refusals


def bad_strat():
  return st.fixed_dictionaries({
      "what": st.sampled_from(["while_init", "while_state", "while_rng",
                               "outside", "new_param_in_scan", "cond_fn"]),
      "k": st.integers(0, 3)})


def run_bad(case):
  k = case["k"]
  if case["what"] == "while_init":
    f = hk.transform(lambda: hk.while_loop(lambda v: v < k, lambda v: v + 1,
                                           0))
    raises(lambda: f.init(None), ValueError, "while_loop during init")
    eq(int(f.apply({}, None)), k, "while_loop result")
  elif case["what"] == "while_state":
    def fn():
      def c(v):
        hk.set_state("c", v)
        return v < k
      return hk.while_loop(c, lambda v: v + 1, jnp.int32(0))
    f = hk.transform_with_state(fn)
    raises(lambda: f.apply({}, {"~": {"c": jnp.int32(0)}}, None), ValueError,
           "set_state in the condition of while_loop")
  elif case["what"] == "while_rng":
    def fn():
      def c(v):
        return jax.random.uniform(hk.next_rng_key(), []) + v < k
      return hk.while_loop(c, lambda v: v + 1., jnp.float32(0))
    f = hk.transform(fn)
    raises(lambda: f.apply({}, 1), ValueError,
           "next_rng_key in the condition of while_loop")
  elif case["what"] == "outside":
    for nm, call in {
        "cond": lambda: hk.cond(True, lambda x: x, lambda x: x, 1),
        "switch": lambda: hk.switch(0, [lambda x: x], 1),
        "scan": lambda: hk.scan(lambda c, x: (c, x), 0, jnp.arange(3)),
        "fori": lambda: hk.fori_loop(0, 2, lambda i, x: x, 1),
        "while": lambda: hk.while_loop(lambda v: v < 1, lambda v: v + 1, 0),
        "jit": lambda: hk.jit(lambda x: x)(1),
        "remat": lambda: hk.remat(lambda x: x)(1),
        "grad": lambda: hk.grad(lambda x: x)(1.),
    }.items():
      raises(call, ValueError, f"hk.{nm} outside a transform")
  elif case["what"] == "new_param_in_scan":
    # A parameter that only a later step asks for cannot be created.
    n = [0]
    def fn():
      def body(c, x):
        n[0] += 1
        if n[0] > 1:
          c = c + hk.get_parameter("late", [], init=jnp.ones)
        return c, x
      return hk.scan(body, jnp.float32(0), jnp.arange(3))
    f = hk.transform(fn)
    raises(lambda: f.init(None), (AssertionError, ValueError),
           "parameter created by a later scan step")
  else:
    # The same function object in several places gets its own operands.
    def fn(x):
      g = lambda v: v * hk.get_parameter("w", [], init=jnp.ones) + 1
      if hk.running_init():
        g(x)
      a = hk.cond(x > 0, g, g, x)
      b = hk.switch(jnp.int32(k), [g, g, lambda v: g(v) * 3], x)
      return a, b
    f = hk.transform(fn)
    p = f.init(None, 2.)
    a, b = f.apply({"~": {"w": jnp.float32(5)}}, None, 2.)
    eq(float(a), 11., "cond with identical branches")
    eq(float(b), 33. if k >= 2 else 11., "switch with a repeated branch")
  return ["nt"]


# ------------------------------------------------- conditions of while_loop


def while_strat():
  return st.fixed_dictionaries({
      "reads": st.sampled_from(["val", "state", "param", "modstate", "both"]),
      "illegal": st.sampled_from(["no", "no", "no", "set", "set_same", "set_mod",
                                  "new", "key", "keys", "maybe", "reserve_key"]),
      "param": st.booleans(), "other_state": st.booleans(),
      "key_given": st.booleans(), "taken": st.integers(0, 2),
      "reserved": st.integers(0, 1), "body": st.sampled_from(
          ["state", "key", "both", "plain"]),
      "in_module": st.booleans(), "jit": st.booleans(),
      "bound": st.integers(0, 4), "seed": st.integers(0, 99)})


def run_while(case):
  need_key = case["illegal"] in ("key", "keys", "maybe", "reserve_key")
  keyed = case["key_given"] or need_key or case["body"] in ("key", "both")
  bound = case["bound"]

  class Counter(hk.Module):

    def value(self):
      return hk.get_state("n", [], jnp.int32, init=jnp.zeros)

    def bump(self):
      hk.set_state("n", self.value() + 1)

  def main(real):
    c = Counter()
    if case["param"] or case["reads"] in ("param", "both"):
      w = hk.get_parameter("w", [], jnp.int32,
                           init=lambda s, d: jnp.asarray(bound, d))
    if case["other_state"]:
      hk.get_state("other", [2], init=jnp.ones)
    hk.get_state("c", [], jnp.int32, init=jnp.zeros)
    c.value()
    if hk.running_init():
      return 0
    for _ in range(case["taken"] if keyed else 0):
      hk.next_rng_key()
    if case["reserved"] and keyed:
      hk.reserve_rng_keys(1)

    def cond(v):
      val, _ = v
      ill = case["illegal"] if real else "no"
      if ill == "set":
        hk.set_state("c", hk.get_state("c") + 1)
      elif ill == "set_same":
        hk.set_state("c", hk.get_state("c") * 1)
      elif ill == "set_mod":
        c.bump()
      elif ill == "new":
        hk.set_state("fresh", jnp.zeros([]))
      elif ill == "key":
        hk.next_rng_key()
      elif ill == "keys":
        hk.next_rng_keys(2)
      elif ill == "maybe":
        hk.maybe_next_rng_key()
      elif ill == "reserve_key":
        hk.reserve_rng_keys(2)
        hk.next_rng_key()
      out = val < 6
      if case["reads"] == "val":
        out &= val < bound
      if case["reads"] in ("state", "both"):
        out &= hk.get_state("c") < bound
      if case["reads"] in ("param", "both"):
        out &= val < hk.get_parameter("w", [], jnp.int32, init=jnp.zeros)
      if case["reads"] == "modstate":
        out &= c.value() < bound
      return out

    def body(v):
      val, acc = v
      if case["body"] in ("state", "both"):
        hk.set_state("c", hk.get_state("c") + 1)
        c.bump()
      if case["body"] in ("key", "both"):
        acc = (acc + (hk.next_rng_key() % jnp.uint32(97)).astype(jnp.int32)
               .sum()) % 9973
      return val + 1, acc * 3 % 9973

    v = jnp.int32(0), jnp.int32(case["seed"])
    if real:
      v = hk.while_loop(cond, body, v)
    else:
      while bool(cond(v)):
        v = body(v)
    after = hk.next_rng_key() if keyed else 0
    return v, after

  class Outer(hk.Module):

    def __call__(self, real):
      return main(real)

  fn = (lambda real: Outer()(real)) if case["in_module"] else main
  t = hk.transform_with_state(fn)
  p, s = t.init(jax.random.PRNGKey(0), True)
  key = jax.random.PRNGKey(case["seed"]) if keyed else None
  ap = lambda p, s, k: t.apply(p, s, k, True)
  if case["jit"]:
    ap = jax.jit(ap)
  if case["illegal"] != "no":
    raises(lambda: ap(p, s, key), ValueError,
           f"{case['illegal']} in the condition of while_loop")
    return ["refused", "nt"]
  got, gs = ap(p, s, key)
  want, ws = t.apply(p, s, key, False)
  eq([np.asarray(v).tolist() for v in jax.tree_util.tree_leaves(got)],
     [np.asarray(v).tolist() for v in jax.tree_util.tree_leaves(want)],
     "while_loop against Python")
  eq(pl_tree(gs), pl_tree(ws), "state after while_loop")
  return ["nt"] if int(got[0][0]) > 0 else []


PROP = Prop("P08", [
    Sub("programs", strat, run, 900, 12000,
        "a control-flow primitive ran in the function"),
    Sub("scan", scan_strat, run_scan, 200, 4000,
        "at least two steps, with state or rng in the body"),
    Sub("fori", fori_strat, run_fori, 200, 4000,
        "at least two iterations"),
    Sub("while", while_strat, run_while, 250, 4000,
        "the loop ran at least once, or was refused"),
    Sub("refusals", bad_strat, run_bad, 24, 48, "every case"),
])
