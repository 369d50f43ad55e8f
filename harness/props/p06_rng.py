"""P06: the random key stream."""
from core import (Prop, Sub, Violation, check, eq, raises)
import proglib as pl
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk


def tup(k):
  k = np.asarray(k)
  check(k.shape == (2,) and k.dtype == np.uint32,
        f"key has shape {k.shape} dtype {k.dtype}")
  return tuple(int(v) for v in k)


def seq_strat():
  op = st.one_of(
      st.tuples(st.just("next"), st.just(0)),
      st.tuples(st.just("next"), st.just(0)),
      st.tuples(st.just("reserve"), st.sampled_from(
          list(range(7)) * 2 + [17, 70])),
      st.tuples(st.just("take"), st.sampled_from(
          list(range(8)) * 2 + [20, 65])),
      st.tuples(st.just("fork"), st.integers(0, 3)),
      st.tuples(st.just("replace"), st.integers(0, 3)),
      st.tuples(st.just("iter"), st.integers(0, 3)))
  return st.fixed_dictionaries({
      "seed": st.integers(0, 5), "how": st.sampled_from(["int", "key", "np"]),
      "ops": st.lists(op, min_size=1, max_size=14)})


def run_seq(case):
  seed = case["seed"]
  arg = {"int": seed, "key": jax.random.PRNGKey(seed),
         "np": np.asarray(jax.random.PRNGKey(seed))}[case["how"]]
  s = hk.PRNGSequence(arg)
  m = pl.KeyChain(pl.seed_key(seed))
  saved = []       # (internal_state, model copy)
  drawn = []
  lineage = []     # keys along the current history, must be distinct
  for op, n in case["ops"]:
    if op == "next":
      k, w = tup(next(s)), m.next()
      eq(k, w, "next key")
      drawn.append(k)
      lineage.append(k)
    elif op == "iter":
      for _ in range(n):
        k = tup(s.next())
        eq(k, m.next(), "next() method")
        drawn.append(k)
        lineage.append(k)
    elif op == "reserve":
      s.reserve(n)
      m.reserve(n)
    elif op == "take":
      ks = s.take(n)
      check(isinstance(ks, tuple), "take returns a tuple")
      m.reserve(max(n - len(m.sub), 0))
      want = [m.next() for _ in range(n)]
      eq([tup(k) for k in ks], want, f"take({n})")
      drawn += want
      lineage += want
    elif op == "fork":
      # Saving the internal state and restoring it elsewhere continues the
      # very same stream.
      saved.append((s.internal_state, m.copy(), list(lineage)))
      t = hk.PRNGSequence(s.internal_state)
      mm = m.copy()
      for _ in range(n):
        eq(tup(next(t)), mm.next(), "key from a copied sequence")
    elif op == "replace" and saved:
      stt, mc, ln = saved[n % len(saved)]
      s.replace_internal_state(stt)
      m = mc.copy()
      lineage = list(ln)
    check(len(set(lineage)) == len(lineage), "a key was handed out twice")
  return ["nt"] if len(drawn) >= 3 else []


OPS = ["r", "r", "rs", "mr", "res", "rng", "p", "n", "c", "c", "m", "try",
       "boom"]


def prog_strat():
  return st.fixed_dictionaries({
      "prog": pl.programs(st, ops=OPS, keyed=True),
      "seed": st.sampled_from([0, 1, 2, 3, 4, 5, None]), "x": st.integers(0, 9),
      "how": st.sampled_from(["int", "key", "np"])})


def run_prog(case):
  labels, mi, ma = pl.agree(case, applies=1)
  if mi is None:
    return labels + (["nt"] if case["seed"] is None and
                     "rejected:ValueError" in labels else [])
  prog, seed, x = case["prog"], case["seed"], case["x"]
  r = pl.HkRun(prog)
  f = hk.transform_with_state(r.main)
  if seed is not None:
    arg = {"int": seed, "key": jax.random.PRNGKey(seed),
           "np": np.asarray(jax.random.PRNGKey(seed))}[case["how"]]
  else:
    arg = None
  p, s = f.init(arg, x)
  eq(r.keys, mi.keys, "keys drawn during init")
  r.keys = []
  ma = pl.Model(prog, "apply", mi.final_params(), mi.final_state(True), seed)
  want = ma.run(x)
  out, _ = f.apply(p, s, arg, x)
  eq(int(out), want, "output of apply")
  eq(r.keys, ma.keys, "keys drawn during apply")
  has_rng_scope = "rng" in str(prog)
  if not has_rng_scope:
    check(len(set(r.keys)) == len(r.keys), "a key was handed out twice")
  if len(ma.keys) >= 3:
    labels.append("nt")
  return labels


OPT_OPS = ["r", "r", "r", "p", "n", "c", "c", "g", "s", "m", "sc"]


def opt_strat():
  return st.fixed_dictionaries({
      "prog": pl.programs(st, ops=OPT_OPS, keyed=True), "seed": st.integers(0, 4),
      "x": st.integers(0, 9), "kw": st.booleans()})


def run_opt(case):
  """optimize_rng_use: one split for all keys, nothing else changes."""
  prog, seed, x = case["prog"], case["seed"], case["x"]
  probe = pl.Model(prog, "init", {}, {}, seed)
  try:
    mk, _ = pl.model_outcome(lambda: probe.run(x))
  except pl.TooBig:
    return ["too-big"]
  if mk is not None:
    return ["rejected"]
  n = len(probe.keys)
  prog2 = dict(prog, main=[["res", n]] + prog["main"])
  mi = pl.Model(prog2, "init", {}, {}, seed)
  try:
    mi.run(x)
    p, s = mi.final_params(), mi.final_state(True)
    # Nothing is initialised in apply, so fewer keys may be needed there.
    probe_a = pl.Model(prog, "apply", p, s, seed + 1)
    probe_a.run(x)
    prog3 = dict(prog, main=[["res", len(probe_a.keys)]] + prog["main"])
    ma = pl.Model(prog3, "apply", p, s, seed + 1)
    want = ma.run(x)
  except pl.TooBig:
    return ["too-big"]
  r = pl.HkRun(prog)
  def main(v, flag=None):
    check((flag is not None) == case["kw"], "keyword argument lost")
    return r.main(v)
  kw = {"flag": jnp.int32(1)} if case["kw"] else {}
  f = hk.transform_with_state(hk.experimental.optimize_rng_use(main))
  hp, hs = f.init(seed, jnp.int32(x), **kw)
  eq(pl.to_ints(hp), p, "params from optimised init")
  eq(pl.to_ints(hs), s, "state from optimised init")
  keys = [k for k in r.keys if k is not None]
  eq(keys, mi.keys, "keys from optimised init")
  check(len(set(keys)) == len(keys), "a key was handed out twice")
  r.keys = []
  out, hs = f.apply(hp, hs, seed + 1, jnp.int32(x), **kw)
  eq(int(out), want, "output of optimised apply")
  eq(pl.to_ints(hs), ma.final_state(False), "state from optimised apply")
  eq([k for k in r.keys if k is not None], ma.keys,
     "keys from optimised apply")
  # The wrapper leaves nothing behind: an unwrapped function is unaffected.
  r2 = pl.HkRun(prog)
  f2 = hk.transform_with_state(r2.main)
  f2.init(seed, jnp.int32(x))
  eq(r2.keys, probe.keys, "keys of an ordinary function afterwards")
  return ["nt"] if n >= 2 else []


# ------------------------------------------- keys taken inside traced regions

FT = ["jit", "remat", "named", "vmap", "vag", "eshape", "rng"]
LOOPS = ["scan", "fori", "while", "cond", "switch"]


def region_strat():
  leaf = st.one_of(
      st.just(["next"]), st.just(["next"]), st.just(["mnext"]),
      st.tuples(st.just("take"), st.integers(0, 3)).map(list),
      st.tuples(st.just("res"), st.integers(1, 4)).map(list))
  ops = st.recursive(
      leaf, lambda ch: st.tuples(
          st.sampled_from(FT + FT + LOOPS), st.integers(1, 3),
          st.lists(ch, min_size=1, max_size=3)).map(list), max_leaves=6)
  return st.fixed_dictionaries({
      "seed": st.integers(0, 5), "init": st.booleans(), "jit": st.booleans(),
      # The first operation alone under the function's own key.
      "own": st.sampled_from([False, False, False, True]),
      "ops": st.lists(ops, min_size=2, max_size=5)})


def count(ops):
  """Number of keys that the operations hand out to the caller."""
  n = 0
  for op in ops:
    if op[0] in ("next", "mnext"):
      n += 1
    elif op[0] == "take":
      n += op[1]
    elif op[0] in ("scan", "fori", "while"):
      n += op[1] * count(op[2])
    elif op[0] not in ("res", "eshape"):
      n += count(op[2])
  return n


def stacked(ks):
  return jnp.stack(ks) if ks else jnp.zeros([0, 2], jnp.uint32)


def real_keys(ops):
  out = []
  for op in ops:
    kind = op[0]
    if kind == "next":
      out.append(hk.next_rng_key())
      continue
    if kind == "mnext":
      out.append(hk.maybe_next_rng_key())
      continue
    if kind == "take":
      out.extend(hk.next_rng_keys(op[1]))
      continue
    if kind == "res":
      hk.reserve_rng_keys(op[1])
      continue
    n, body = op[1], op[2]
    m = count(body)
    run = lambda body=body: stacked(real_keys(body))
    if kind == "jit":
      ks = hk.jit(run)()
    elif kind == "remat":
      ks = hk.remat(run)()
    elif kind == "named":
      ks = hk.experimental.named_call(run, name="region")()
    elif kind == "vmap":
      ks = hk.vmap(lambda i: run())(jnp.arange(n))
      ks = ks[n - 1]
    elif kind == "vag":
      (_, ks), _ = hk.value_and_grad(lambda x: (x * x, run()), has_aux=True)(1.)
    elif kind == "eshape":
      hk.eval_shape(run)
      continue
    elif kind == "rng":
      # n = 3: the very key the function was called with.
      with hk.with_rng(TOP_KEY[0] if n == 3 else jax.random.PRNGKey(100 + n)):
        ks = run()
    elif kind == "scan":
      _, ks = hk.scan(lambda c, _: (c, run()), 0, jnp.arange(n))
      ks = ks.reshape(n * m, 2)
    elif kind in ("fori", "while"):
      buf = jnp.zeros([n, m, 2], jnp.uint32)
      if kind == "fori":
        ks = hk.fori_loop(0, n, lambda i, b: b.at[i].set(run()), buf)
      elif hk.running_init():
        ks = jnp.stack([run() for _ in range(n)])
      else:
        _, ks = hk.while_loop(lambda c: c[0] < n,
                              lambda c: (c[0] + 1, c[1].at[c[0]].set(run())),
                              (0, buf))
      ks = ks.reshape(n * m, 2)
    elif kind == "cond":
      other = lambda _: jnp.zeros([m, 2], jnp.uint32)
      fns = [lambda _: run(), other][::1 if n == 1 else -1]
      ks = hk.cond(jnp.asarray(n == 1), fns[0], fns[1], 0)
    else:
      fns = [lambda _: jnp.zeros([m, 2], jnp.uint32)] * 4
      fns[n] = lambda _: run()
      ks = hk.switch(jnp.asarray(n), fns, 0)
    out.extend(list(ks))
  return out


TOP_KEY, TOP_SEED = [None], [None]


class Lost(Exception):
  """A construct dropped keys reserved ahead (all but the next one)."""


def model_keys(ops, chain, init, out, start=None):
  start = start if start is not None else chain

  def full(ch):
    if len(ch.sub) > 1:
      # Only the next key is certain to survive.
      raise Lost(ch.sub[0])
    ch.reserve(1 - len(ch.sub))

  for op in ops:
    kind = op[0]
    if kind in ("next", "mnext"):
      out.append(chain.next())
      continue
    if kind == "take":
      chain.reserve(max(op[1] - len(chain.sub), 0))
      for _ in range(op[1]):
        out.append(chain.next())
      continue
    if kind == "res":
      chain.reserve(op[1])
      continue
    n, body = op[1], op[2]
    if kind == "eshape":
      model_keys(body, chain.copy(), init, [])
    elif kind == "rng":
      seed = TOP_SEED[0] if n == 3 else 100 + n
      model_keys(body, pl.KeyChain(pl.seed_key(seed)), init, out)
    elif kind in LOOPS:
      reps = n
      if init and kind == "while":
        for _ in range(n):
          model_keys(body, chain, init, out)
        continue
      if init and kind in ("scan", "fori"):
        model_keys(body, chain, init, out)
        reps -= 1
        if not reps:
          continue
      full(chain)
      for _ in range(reps if kind in ("scan", "fori", "while") else 1):
        model_keys(body, chain, init, out)
        full(chain)
    else:
      model_keys(body, chain, init, out)


def run_region(case):
  ops = case["ops"]
  if case.get("own"):
    ops = [["rng", 3, ops[:1]]] + ops[1:]
  got = {}
  def fn():
    ks = stacked(real_keys(ops) + [hk.next_rng_key()])
    got["k"] = ks
    return ks
  f = hk.transform(fn)
  total = count(ops) + 1
  if total > 40:
    return ["too-big"]
  key = jax.random.PRNGKey(case["seed"])
  TOP_KEY[0], TOP_SEED[0] = key, case["seed"]
  if case["init"]:
    f.init(key)
    ks = got["k"]
  else:
    fa = jax.jit(f.apply) if case["jit"] else f.apply
    ks = fa({}, key)
  ks = [tup(k) for k in np.asarray(ks)]
  eq(len(ks), total, "number of keys")
  want = []
  chain = pl.KeyChain(pl.seed_key(case["seed"]))
  labels = []
  try:
    model_keys(ops, chain, case["init"], want)
    want.append(chain.next())
    eq(ks, want, "keys handed out")
  except Lost as e:
    labels.append("reservation-cut")
    eq(ks[:len(want)], want, "keys handed out before the construct")
    inner = any(o[0] in ("eshape", "rng") for o in flat(ops))
    if not inner and len(ks) > len(want):
      eq(ks[len(want)], e.args[0], "key handed out after the construct")
  if "rng" not in str(ops):
    check(len(set(ks)) == len(ks), f"a key was handed out twice: {ks}")
  if any(o[0] in FT + LOOPS for o in ops) and total >= 3:
    labels.append("nt")
  return labels


def flat(ops):
  for o in ops:
    yield o
    if len(o) == 3:
      yield from flat(o[2])


BAD = ["str", "float", "shape3", "shape22", "int32", "float32", "list",
       "shape1", "none-used"]


def bad_strat():
  return st.fixed_dictionaries({"bad": st.sampled_from(BAD),
                                "uses": st.booleans(),
                                "stateful": st.booleans(),
                                "seed": st.integers(0, 9)})


def run_bad(case):
  """Anything that is not a key is refused, at init and at apply."""
  seed = case["seed"]
  k = np.asarray(jax.random.PRNGKey(seed))
  bad = {"str": "key", "float": 1.5, "shape3": np.zeros(3, np.uint32),
         "shape22": np.zeros((2, 2), np.uint32),
         "int32": k.astype(np.int32), "float32": k.astype(np.float32),
         "list": [1, 2], "shape1": np.zeros(1, np.uint32),
         "none-used": None}[case["bad"]]
  uses = case["uses"] or bad is None
  def fn():
    if uses:
      return hk.next_rng_key()
    return jnp.zeros([])
  wrap = hk.transform_with_state if case["stateful"] else hk.transform
  f = wrap(fn)
  out = f.init(jax.random.PRNGKey(seed))
  args = out if case["stateful"] else (out,)
  raises(lambda: f.init(bad), ValueError, f"init with rng={case['bad']}")
  raises(lambda: f.apply(*args, bad), ValueError,
         f"apply with rng={case['bad']}")
  if bad is not None:
    raises(lambda: hk.PRNGSequence(bad), ValueError,
           f"PRNGSequence({case['bad']})")
    raises(lambda: hk.PRNGSequence((jax.random.PRNGKey(1), (bad,))),
           ValueError, "PRNGSequence with a bad subkey")
  # hk.next_rng_keys / maybe_next_rng_key / reserve_rng_keys with no rng.
  g = hk.transform(lambda: (hk.maybe_next_rng_key() is None,))
  eq(g.apply({}, None), (True,), "maybe_next_rng_key without an rng")
  h = hk.transform(lambda: hk.next_rng_keys(2))
  raises(lambda: h.apply({}, None), ValueError, "next_rng_keys without rng")
  h = hk.transform(lambda: hk.reserve_rng_keys(2))
  raises(lambda: h.apply({}, None), ValueError, "reserve_rng_keys without rng")
  return ["nt"]


PROP = Prop("P06", [
    Sub("sequence", seq_strat, run_seq, 3000, 40000,
        "at least three keys drawn"),
    Sub("programs", prog_strat, run_prog, 5000, 60000,
        "at least three keys drawn in one apply, or keys requested without an "
        "rng"),
    Sub("optimize", opt_strat, run_opt, 1200, 15000,
        "at least two keys drawn under the optimisation"),
    Sub("regions", region_strat, run_region, 300, 6000,
        "a construct in the program and at least three keys drawn"),
    Sub("invalid", bad_strat, run_bad, 150, 400, "every case"),
])
