"""P02: the parameter contract between init and apply."""
from core import (Prop, Sub, Violation, check, eq, raises, same_bits, data,
                  same_keys)
import proglib as pl
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

OPS = ["p", "p", "p", "n", "c", "c", "m", "sc", "use", "pd",
       "try", "pb"]


def prog_strat():
  return st.fixed_dictionaries({
      "prog": pl.programs(st, ops=OPS, max_stmts=4, keyed=True),
      "seed": st.sampled_from([None, 1]), "x": st.integers(0, 100),
      "drop": st.integers(0, 30), "extra": st.booleans(),
      "dropmod": st.booleans()})


def run_prog(case):
  labels, mi, _ = pl.agree(case, applies=1)
  if mi is None:
    return labels
  prog, x = case["prog"], case["x"]
  p = mi.final_params()
  run = pl.HkRun(prog)
  f = hk.transform(run.main)
  # hk.transform and hk.transform_with_state agree on stateless functions.
  key = None if case["seed"] is None else pl.jax.random.PRNGKey(case["seed"])
  eq(pl.to_ints(f.init(key, x)), p, "params from hk.transform init")
  if not mi.created:
    return labels
  q = pl.perturb(p, 3)
  if case["extra"]:
    # Parameters the function never asks for change nothing.
    q.setdefault("unrelated/module", {})["w"] = 5
    first = sorted(p)[0]
    q[first] = dict(q[first], unrelated=7)
    labels.append("extra")
    pd = any(s[0] == "pd" for s in flat(prog))
    if not pd:
      ma = pl.Model(prog, "apply", pl.perturb(p, 3), {}, None)
      want = ma.run(x)
      eq(int(f.apply(pl.to_jnp(q), None, x)), want,
         "apply with parameters that are never requested")
  # Remove one parameter: apply must refuse, never re-create it.
  fq = mi.created[case["drop"] % len(mi.created)]
  m, n = fq.rsplit("/", 1)
  if case["dropmod"]:
    q.pop(m)
  else:
    q[m] = {k: v for k, v in q[m].items() if k != n}
  refused = True
  if any(s[0] == "try" for s in flat(prog)):
    # The program may catch the refusal itself.
    try:
      want = pl.Model(prog, "apply", q, {}, None).run(x)
      refused = False
    except pl.ModelError:
      pass
  if refused:
    raises(lambda: f.apply(pl.to_jnp(q), None, x), ValueError,
           f"apply without parameter {fq}")
  else:
    eq(int(f.apply(pl.to_jnp(q), None, x)), want,
       f"apply without parameter {fq}, caught by the function")
  if len(mi.created) >= 2:
    labels.append("nt")
  return labels


def flat(prog):
  out = []
  def go(b):
    for s in b:
      out.append(s)
      for a in s:
        if isinstance(a, list) and (not a or isinstance(a[0], list)):
          go(a)
  go(prog["main"])
  for c in prog["classes"]:
    go(c["ctor"])
    for b in c["methods"].values():
      go(b)
  return out


DT = ["float32", "int32", "float16", "bfloat16", "uint8", "bool", "complex64"]
SHAPES = [[], [1], [3], [2, 3], [0], [2, 0], [1, 1, 2], [3, 1, 2, 2]]


def shape_strat():
  call = st.fixed_dictionaries({
      "mod": st.sampled_from(["~", "~", "m0", "m1"]),
      "name": st.sampled_from(["w", "b", "w_0", "offset"]),
      "shape": st.sampled_from(SHAPES), "dtype": st.sampled_from(DT),
      "astuple": st.booleans(), "k": st.integers(0, 200)})
  return st.fixed_dictionaries({
      "calls": st.lists(call, min_size=1, max_size=6),
      "cast": st.sampled_from(["same", "same", "float16", "int32"]),
      "bad": st.integers(-1, 5), "badshape": st.sampled_from(SHAPES)})


def arr(k, shape, dtype):
  a = data(k, tuple(shape), kind="int")
  a = np.asarray(a)
  if dtype == "uint8":
    a = np.abs(a)
  return jnp.asarray(a).astype(dtype)


class Holder(hk.Module):

  def get(self, call, init):
    return hk.get_parameter(
        call["name"],
        tuple(call["shape"]) if call["astuple"] else list(call["shape"]),
        jnp.dtype(call["dtype"]), init=init)


def run_shapes(case):
  calls = case["calls"]
  # A name is requested with one shape only: later calls take the first's.
  first = {}
  for c in calls:
    first.setdefault((c["mod"], c["name"]), c)
  calls = [dict(c, shape=first[(c["mod"], c["name"])]["shape"]) for c in calls]
  seen_inits = []
  got = []

  def fn():
    mods = {"m0": Holder(name="m0"), "m1": Holder(name="m1")}
    for i, c in enumerate(calls):
      def init(shape, dtype, i=i, c=c):
        seen_inits.append((i, tuple(shape), str(jnp.dtype(dtype)),
                           isinstance(shape, (list, tuple))))
        return arr(c["k"], shape, dtype)
      if c["mod"] == "~":
        v = hk.get_parameter(
            c["name"], tuple(c["shape"]) if c["astuple"] else list(c["shape"]),
            jnp.dtype(c["dtype"]), init=init)
      else:
        v = mods[c["mod"]].get(c, init)
      got.append(v)
    return tuple(got)

  f = hk.transform(fn)
  params = f.init(None)
  want, want_inits = {}, []
  for i, c in enumerate(calls):
    if c["name"] not in want.setdefault(c["mod"], {}):
      want[c["mod"]][c["name"]] = arr(c["k"], c["shape"], c["dtype"])
      want_inits.append((i, tuple(c["shape"]), c["dtype"], True))
  eq(seen_inits, want_inits, "initializer calls during init")
  same_keys(params, want, "params from init")
  for c, v in zip(calls, got):
    same_bits(v, want[c["mod"]][c["name"]], "value seen during init")
  for m in want:
    for n in want[m]:
      same_bits(params[m][n], want[m][n], f"params[{m}][{n}]")
  # apply: exactly the values passed in, initializers never run.
  newp = {m: {n: (jnp.asarray(v + 1) if str(v.dtype) != "bool" else ~v)
              for n, v in b.items()} for m, b in want.items()}
  if case["cast"] != "same":
    newp = {m: {n: v.astype(case["cast"]) if str(v.dtype) != "complex64"
                else v for n, v in b.items()} for m, b in newp.items()}
  got.clear()
  seen_inits.clear()
  out = f.apply(newp, None)
  eq(seen_inits, [], "initializer calls during apply")
  for c, v in zip(calls, out):
    same_bits(v, newp[c["mod"]][c["name"]],
              f"value of {c['mod']}/{c['name']} seen during apply")
  labels = []
  if len(calls) > len(first):
    labels.append("reuse")
  # A value of another shape is refused.
  if case["bad"] >= 0:
    m, n = sorted((m, n) for m in want for n in want[m])[
        case["bad"] % sum(map(len, want.values()))]
    if tuple(case["badshape"]) != tuple(want[m][n].shape):
      badp = {mm: dict(b) for mm, b in newp.items()}
      badp[m][n] = arr(1, case["badshape"], "float32")
      got.clear()
      raises(lambda: f.apply(badp, None), (AssertionError, ValueError),
             f"apply with {m}/{n} of shape {case['badshape']}")
      labels.append("bad-shape")
  if len(first) >= 2 or labels:
    labels.append("nt")
  return labels


# ------------------------- initialisers that themselves request parameters


def nested_strat():
  node = st.deferred(lambda: st.fixed_dictionaries({
      "name": st.sampled_from(["u", "v", "w"]), "k": st.integers(0, 20),
      "mod": st.sampled_from([0, 0, 1]),
      "inner": st.lists(node, max_size=2)}))
  return st.fixed_dictionaries({
      "reqs": st.lists(node, min_size=1, max_size=4),
      "seed": st.sampled_from([None, 3])})


def run_nested(case):
  """The value of a parameter is what its first request's initialiser gave."""
  budget = [0]
  def size(nodes):
    for nd in nodes:
      budget[0] += 1
      size(nd["inner"])
  size(case["reqs"])
  if budget[0] > 25:
    return ["too-big"]
  log = []

  def fn():
    mods = [None, Holder(name="m0")]
    def ask(nd):
      def init(shape, dtype):
        v = nd["k"]
        if case["seed"] is not None:
          v = v + int(hk.next_rng_key()[1]) % 97
        for sub in nd["inner"]:
          v = v + 3 * int(ask(sub))
        return jnp.full(shape, v, dtype)
      call = {"name": nd["name"], "shape": [], "dtype": "int32",
              "astuple": True}
      if nd["mod"]:
        v = mods[1].get(call, init)
      else:
        v = hk.get_parameter(nd["name"], [], jnp.int32, init=init)
      log.append((nd["mod"], nd["name"], int(v)))
      return v
    return sum(ask(nd) for nd in case["reqs"])

  store, want = {}, []
  chain = pl.KeyChain(pl.seed_key(3))
  same = [False]
  def model(nd, scope, pending):
    # A request outside a module's method lands in the scope of the caller.
    scope = "m0" if nd["mod"] else scope
    key = (scope, nd["name"])
    if key not in store:
      v = nd["k"] + (chain.next()[1] % 97 if case["seed"] is not None else 0)
      if key in pending:
        same[0] = True
      for sub in nd["inner"]:
        v += 3 * model(sub, scope, pending | {key})
      store[key] = v
    want.append((nd["mod"], nd["name"], store[key]))
    return store[key]
  total = sum(model(nd, "~", frozenset()) for nd in case["reqs"])

  f = hk.transform(fn)
  p = f.init(case["seed"])
  eq(log, want, "values returned by the requests in init")
  got = {(m, n): int(v) for m, b in p.items() for n, v in b.items()}
  eq(got, store, "params from init")
  newp = {m: {n: v + 1 for n, v in b.items()} for m, b in p.items()}
  log.clear()
  out = f.apply(newp, None)
  eq(log, [("m0" == nd_scope(nd), nd["name"],
            store[(nd_scope(nd), nd["name"])] + 1) for nd in case["reqs"]],
     "values returned by the requests in apply")
  del out, total
  labels = ["self-request"] if same[0] else []
  return labels + (["nt"] if budget[0] > len(case["reqs"]) else [])


def nd_scope(nd):
  return "m0" if nd["mod"] else "~"


def running_strat():
  return st.fixed_dictionaries({
      "k": st.integers(0, 9), "branch": st.booleans(), "deep": st.booleans(),
      "twice": st.booleans()})


class Deep(hk.Module):

  def __init__(self, rec, name=None):
    super().__init__(name=name)
    rec.append(hk.running_init())
    self.rec = rec

  def __call__(self, x):
    self.rec.append(hk.running_init())
    return x + hk.get_parameter("w", [], init=jnp.ones)


def run_running(case):
  rec = []
  def fn(x):
    rec.append(hk.running_init())
    if case["deep"]:
      d = Deep(rec)
      x = d(x)
    if hk.running_init() and case["branch"]:
      hk.get_parameter("only_init", [], init=jnp.zeros)
    rec.append(hk.running_init())
    return x
  f = hk.transform(fn)
  p = f.init(None, float(case["k"]))
  check(rec and all(r is True for r in rec), "running_init() in init")
  rec.clear()
  f.apply(p, None, float(case["k"]))
  check(rec and all(r is False for r in rec), "running_init() in apply")
  rec.clear()
  jax.eval_shape(f.apply, p, None, float(case["k"]))
  check(rec and all(r is False for r in rec), "running_init() in traced apply")
  if not p:
    # Even with no parameters at all apply must not look like init.
    rec.clear()
    f.apply({}, None, 1.)
    f.apply(None, None, 1.)
    check(rec and all(r is False for r in rec), "running_init() in apply({})")
  return ["nt"]


PROP = Prop("P02", [
    Sub("programs", prog_strat, run_prog, 5000, 60000,
        "at least two parameters, one of which is withheld from apply"),
    Sub("shapes", shape_strat, run_shapes, 1500, 20000,
        "at least two parameters, a reuse of one, or a badly shaped one"),
    Sub("nested", nested_strat, run_nested, 600, 8000,
        "an initialiser requests another parameter"),
    Sub("running_init", running_strat, run_running, 60, 60,
        "every case"),
])
