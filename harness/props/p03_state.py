"""P03: state threading against a dictionary model."""
import contextlib

from core import (Prop, Sub, Violation, check, eq, raises, same_bits, data,
                  same_keys)
import proglib as pl
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

OPS = ["g", "g", "s", "s", "g?", "p", "n", "c", "c", "m", "sc", "use",
       "try", "gb"]


def prog_strat():
  edit = st.tuples(st.sampled_from(["none", "none", "drop", "add", "bump",
                                    "void"]),
                   st.integers(0, 20))
  return st.fixed_dictionaries({
      "prog": pl.programs(st, ops=OPS, max_stmts=4),
      "seed": st.just(None), "x": st.integers(0, 100),
      "edits": st.lists(edit, min_size=1, max_size=4)})


def run_prog(case):
  """Several applies, the state edited in between (dropped/foreign entries)."""
  labels, mi, _ = pl.agree(case, applies=1)
  if mi is None:
    return labels
  prog, x = case["prog"], case["x"]
  run = pl.HkRun(prog)
  f = hk.transform_with_state(run.main)
  p = mi.final_params()
  s = mi.final_state(True)
  steps = 0
  for i, (kind, k) in enumerate(case["edits"]):
    s = {m: dict(b) for m, b in s.items()}
    entries = sorted((m, n) for m in s for n in s[m])
    if kind == "drop" and entries:
      m, n = entries[k % len(entries)]
      del s[m][n]
      if not s[m] and k % 2:
        del s[m]
      labels.append("dropped")
    elif kind == "void":
      # A module with no entries, used by the function or not.
      s.setdefault("foo" if k % 2 else "void/mod", {})
      labels.append("void")
    elif kind == "add":
      s.setdefault("elsewhere/mod", {})["z"] = k
      labels.append("foreign")
    elif kind == "bump" and entries:
      m, n = entries[k % len(entries)]
      s[m][n] = (s[m][n] + k + 1) % pl.M
    ma = pl.Model(prog, "apply", p, s, None)
    try:
      mk, mv = pl.model_outcome(lambda: ma.run(x + i))
    except pl.TooBig:
      return ["too-big"]
    hkk, hv = pl.outcome(lambda: f.apply(pl.to_jnp(p), pl.to_jnp(s), None,
                                         x + i))
    eq(hkk, mk, f"outcome of apply {i}")
    if mk is not None:
      labels.append("state-missing")
      break
    eq(int(hv[0]), mv, f"output of apply {i}")
    s = {m: {n: v[1] for n, v in b.items()} for m, b in ma.state.items()}
    eq(pl.to_ints(hv[1]), s, f"state returned by apply {i}")
    steps += 1
  has_state = bool(mi.final_state(True))
  # hk.transform refuses functions that use state, at init and at apply.
  g = hk.transform(pl.HkRun(prog).main)
  if has_state:
    raises(lambda: g.init(None, x), ValueError, "hk.transform init with state")
  if ma.final_state(False) and not mi.state == {}:
    m2 = pl.Model(prog, "apply", p, {}, None)
    k2, _ = pl.model_outcome(lambda: m2.run(x))
    if k2 is None and m2.final_state(False):
      raises(lambda: g.apply(pl.to_jnp(p), None, x), ValueError,
             "hk.transform apply with state")
  if has_state and steps >= 1 and "state_update" in labels:
    labels.append("nt")
  return labels


SHAPES = [[], [2], [3], [2, 3], [0]]
DT = ["float32", "int32", "bfloat16"]


def val_strat():
  op = st.one_of(
      st.tuples(st.just("get"), st.integers(0, 2), st.integers(0, 2),
                st.sampled_from(SHAPES), st.sampled_from(DT),
                st.integers(0, 99)),
      st.tuples(st.just("set"), st.integers(0, 2), st.integers(0, 2),
                st.sampled_from(SHAPES), st.sampled_from(DT),
                st.integers(0, 99)),
      st.tuples(st.just("set"), st.integers(0, 2), st.integers(0, 2),
                st.sampled_from(SHAPES), st.sampled_from(DT),
                st.integers(0, 99)),
      st.tuples(st.just("gget"), st.integers(0, 2),
                st.integers(0, 2), st.sampled_from(SHAPES), st.sampled_from(DT),
                st.integers(0, 99)),
      st.tuples(st.sampled_from(["get", "get", "set", "get", "bare"]),
                st.integers(0, 2), st.integers(0, 2),
                st.just([]), st.just("float32"), st.just(0)))
  return st.fixed_dictionaries({
      "init": st.lists(op, min_size=1, max_size=6),
      "applies": st.lists(st.lists(op, max_size=6), min_size=1, max_size=3)})


def arr(k, shape, dtype):
  return jnp.asarray(data(k, tuple(shape), kind="int")).astype(dtype)


class Box(hk.Module):

  def do(self, fn):
    return fn()


def hooked(v):
  return v * 2 + 1


def run_vals(case):
  """Arbitrary get/set histories on arrays; different ops at each call."""
  cur_ops = [None]
  reads = []
  inits = []

  def fn():
    boxes = [None, Box(name="a"), Box(name="a_b")]
    for op, mod, name, shape, dtype, k in cur_ops[0]:
      nm = f"s{name}"
      def act(op=op, nm=nm, shape=shape, dtype=dtype, k=k):
        if op == "set":
          hk.set_state(nm, arr(k, shape, dtype))
          return None
        if op == "bare":
          return hk.get_state(nm)
        def init(sh, dt):
          inits.append((tuple(sh), str(jnp.dtype(dt))))
          return arr(k, sh, dt)
        with (hk.experimental.custom_getter(
            lambda nxt, v, c: nxt(hooked(v)), params=False, state=True)
              if op == "gget" else contextlib.nullcontext()):
          return hk.get_state(nm, list(shape), jnp.dtype(dtype), init=init)
      v = act() if mod == 0 else boxes[mod].do(act)
      reads.append(v)
    return jnp.zeros([])

  f = hk.transform_with_state(fn)

  def model(ops, state):
    """state: {(mod,name): [initial, current]} -> (reads, inits, ok)."""
    rd, ini = [], []
    for op, mod, name, shape, dtype, k in ops:
      key = (["~", "a", "a_b"][mod], f"s{name}")
      if op == "set":
        v = arr(k, shape, dtype)
        if key in state:
          state[key][1] = v
        else:
          state[key] = [v, v]
        rd.append(None)
        continue
      if key not in state:
        if op == "bare":
          return rd, ini, False
        v = arr(k, shape, dtype)
        ini.append((tuple(shape), dtype))
        state[key] = [v, v]
      # A getter changes what is read, never what is stored.
      rd.append(hooked(state[key][1]) if op == "gget" else state[key][1])
    return rd, ini, True

  def compare(got_state, state, which, what):
    want = {}
    for (m, n), v in state.items():
      want.setdefault(m, {})[n] = v[which]
    same_keys(got_state, want, what)
    for m in want:
      for n in want[m]:
        same_bits(got_state[m][n], want[m][n], f"{what}[{m}/{n}]")

  labels = []
  state = {}
  cur_ops[0] = case["init"]
  rd, ini, ok = model(case["init"], state)
  if not ok:
    raises(lambda: f.init(None), ValueError, "bare get_state in init")
    return ["rejected"]
  p, s = f.init(None)
  for a, b in zip(reads, rd):
    if b is not None:
      same_bits(a, b, "value read in init")
  eq(inits, ini, "state initializer calls in init")
  compare(s, state, 0, "state from init")
  if any(v[0] is not v[1] for v in state.values()):
    labels.append("init-differs-from-current")
  state = {k: [v[0], v[0]] for k, v in state.items()}
  for i, ops in enumerate(case["applies"]):
    cur_ops[0] = ops
    reads.clear()
    inits.clear()
    rd, ini, ok = model(ops, state)
    if not ok:
      raises(lambda: f.apply(p, s, None), ValueError, "bare get_state")
      labels.append("bare-missing")
      break
    _, s = f.apply(p, s, None)
    for a, b in zip(reads, rd):
      if b is not None:
        same_bits(a, b, f"value read in apply {i}")
    eq(inits, ini, f"state initializer calls in apply {i}")
    compare(s, state, 1, f"state from apply {i}")
    state = {k: [v[1], v[1]] for k, v in state.items()}
  if len(case["applies"]) >= 2 and state:
    labels.append("nt")
  return labels


PROP = Prop("P03", [
    Sub("programs", prog_strat, run_prog, 5000, 60000,
        "state is created, updated and carried through at least one apply"),
    Sub("values", val_strat, run_vals, 1500, 20000,
        "at least two applies after init with some state"),
])
