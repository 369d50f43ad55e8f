"""P11: filter / partition / map / merge / tree_size / tree_bytes."""
import copy

from core import Prop, Sub, Violation, check, eq, raises
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

ds = hk.data_structures
MODS = ["linear", "linear_1", "mlp", "mlp/~/linear_0", "mlp/~/linear_1", "~",
        "a/b", "a", "Z"]
NAMES = ["w", "b", "w_1", "scale", "offset", "~"]


def struct(vals, min_bundle=0):
  return st.lists(
      st.tuples(st.sampled_from(MODS),
                st.lists(st.tuples(st.sampled_from(NAMES), vals), max_size=4,
                         min_size=min_bundle, unique_by=lambda t: t[0]).map(
                             lambda l: [list(t) for t in l])),
      max_size=5, unique_by=lambda t: t[0]).map(lambda l: [list(t) for t in l])


PREDS = ["true", "false", "name_w", "mod", "value", "hash", "truthy", "npbool"]
SHAPES = ["dict", "immutable", "mixed", "unflattened"]


def pred(kind, k):
  def f(m, n, v):
    if kind == "true":
      return True
    if kind == "false":
      return False
    if kind == "name_w":
      return n == "w"
    if kind == "mod":
      return m.startswith("mlp")
    if kind == "value":
      return v % 2 == k % 2
    if kind == "truthy":
      return [v] if (v + k) % 3 else []
    if kind == "npbool":
      return np.bool_((v + k) % 2)
    return (sum(map(ord, m + n)) + v + k) % 3 == 0
  return f


def strat():
  return st.fixed_dictionaries({
      "s": st.lists(struct(st.integers(-5, 20)), min_size=1, max_size=4),
      "as": st.sampled_from(SHAPES), "pred": st.sampled_from(PREDS),
      "k": st.integers(0, 5)})


def as_dict(s):
  return {m: dict((n, v) for n, v in b) for m, b in s}


def present(d, kind):
  if kind == "immutable":
    return ds.to_immutable_dict(copy.deepcopy(d))
  if kind == "mixed":
    return {m: ds.to_immutable_dict(dict(b)) if i % 2 else dict(b)
            for i, (m, b) in enumerate(d.items())}
  if kind == "unflattened":
    return jax.tree_util.tree_map(lambda v: v,
                                  ds.to_immutable_dict(copy.deepcopy(d)))
  return copy.deepcopy(d)


def norm(d):
  """Entries only: an empty bundle holds no entry."""
  return {m: dict(b) for m, b in d.items() if b}


def result(t, want, what):
  eq({m: dict(b.items()) for m, b in t.items()}, norm(want), what)
  def put():
    t["zz"] = {}
  raises(put, TypeError, f"{what}: result is mutable")
  for m in t:
    def put2(m=m):
      t[m]["zz"] = 1
    raises(put2, TypeError, f"{what}: bundle {m} is mutable")


def run(case):
  dicts = [as_dict(s) for s in case["s"]]
  inputs = [present(d, case["as"]) for d in dicts]
  d, x = dicts[0], inputs[0]
  p = pred(case["pred"], case["k"])
  entries = sorted((m, n, v) for m, b in d.items() for n, v in b.items())
  yes = {m: {n: v for n, v in b.items() if p(m, n, v)} for m, b in d.items()}
  no = {m: {n: v for n, v in b.items() if not p(m, n, v)}
        for m, b in d.items()}

  def logged(f):
    log = []
    def g(m, n, v):
      log.append((m, n, v))
      return f(m, n, v)
    return g, log

  g, log = logged(p)
  filtered = ds.filter(g, x)
  result(filtered, yes, "filter")
  eq(sorted(log), entries, "entries offered to the filter predicate")
  g, log = logged(p)
  t, f = ds.partition(g, x)
  result(t, yes, "partition, matching")
  result(f, no, "partition, rest")
  eq(sorted(log), entries, "entries offered to the partition predicate")
  fn = lambda m, n, v: (v * 10 + len(m) * 3 + len(n) + case["k"])
  g, log = logged(fn)
  mapped = ds.map(g, x)
  result(mapped, {m: {n: fn(m, n, v) for n, v in b.items()}
                  for m, b in d.items()}, "map")
  eq(sorted(log), entries, "entries offered to the mapped function")
  # A pytree-valued function: the values come back as they are.
  tup = ds.map(lambda m, n, v: (v, [m, n]), x)
  result(tup, {m: {n: (v, [m, n]) for n, v in b.items()}
               for m, b in d.items()}, "map to tuples")
  nones = ds.map(lambda m, n, v: None, x)
  result(nones, {m: {n: None for n in b} for m, b in d.items()}, "map to None")
  result(ds.filter(lambda m, n, v: v is None, nones),
         {m: {n: None for n in b} for m, b in d.items()}, "filter None values")

  want = {}
  for e in dicts:
    for m, b in e.items():
      for n, v in b.items():
        want.setdefault(m, {})[n] = v
  merged = ds.merge(*inputs)
  result(merged, want, "merge")
  result(ds.merge(t, f), d, "merge of a partition")
  result(ds.merge(f, t), d, "merge of a partition, other order")
  result(ds.merge(x), d, "merge of one")
  result(ds.merge(), {}, "merge of none")
  for e, i in zip(dicts, inputs):
    eq({m: dict(b.items()) for m, b in i.items()}, e, "input after the calls")
  # New structures, not views.
  if case["as"] == "dict":
    for i in inputs:
      for m in list(i):
        i[m].clear()
        i[m]["q"] = 1
      i["new"] = {"w": 1}
    result(filtered, yes, "filter, after the input changed")
    result(t, yes, "partition, after the input changed")
    result(f, no, "partition rest, after the input changed")
    result(merged, want, "merge, after the input changed")
  overlap = (sum(len(b) for e in dicts for b in e.values())
             > sum(len(b) for b in want.values()))
  labels = [case["as"], "overlap" if overlap else "disjoint"]
  if norm(yes) and norm(no):
    labels.append("nt")
  return labels


class Leaf:
  """A value haiku knows nothing about."""

  def __init__(self, i):
    self.i = i

  def __bool__(self):
    return self.i % 2 == 0


VKINDS = ["none", "zero", "false", "str", "empty_str", "tuple", "empty_list",
          "np", "jnp", "obj", "odd_obj", "nan"]


def value(kind):
  return {"none": lambda: None, "zero": lambda: 0, "false": lambda: False,
          "str": lambda: "v", "empty_str": lambda: "", "tuple": lambda: (1, None),
          "empty_list": lambda: [], "np": lambda: np.zeros(2),
          "jnp": lambda: jnp.ones(()), "obj": lambda: Leaf(0),
          "odd_obj": lambda: Leaf(1), "nan": lambda: float("nan")}[kind]()


def values_strat():
  return st.fixed_dictionaries({
      "s": st.lists(struct(st.sampled_from(VKINDS)), min_size=1, max_size=4),
      "as": st.sampled_from(SHAPES[:3]), "pick": st.sampled_from(VKINDS),
      "k": st.integers(0, 5)})


def run_values(case):
  """Values of any kind are only handed on, whatever they are."""
  names, inputs, tables = [], [], []
  for s in case["s"]:
    d = {m: {n: value(k) for n, k in b} for m, b in s}
    names.append(as_dict(s))
    tables.append({(m, n): v for m, b in d.items() for n, v in b.items()})
    inputs.append(d if case["as"] == "dict" else ds.to_immutable_dict(d) if
                  case["as"] == "immutable" else
                  {m: ds.to_immutable_dict(b) if i % 2 else b
                   for i, (m, b) in enumerate(d.items())})

  def same(got, want, what):
    flat = {(m, n): v for m, b in got.items() for n, v in b.items()}
    eq(sorted(flat), sorted(want), f"{what}: entries")
    for k, v in flat.items():
      w = want[k]
      if isinstance(w, (tuple, list)):
        check(type(v) is type(w) and v == w, f"{what}: {k} is {v!r}, not {w!r}")
      else:
        check(v is w, f"{what}: {k} is {v!r}, not the {w!r} put in")

  d, x, table = names[0], inputs[0], tables[0]
  for name in ("pick", "rank"):
    if name == "pick":
      p = lambda m, n, v: d[m][n] == case["pick"]
    else:
      p = lambda m, n, v: (len(m) + len(n) + case["k"]) % 2
    yes = {k: v for k, v in table.items() if p(k[0], k[1], v)}
    no = {k: v for k, v in table.items() if not p(k[0], k[1], v)}
    same(ds.filter(p, x), yes, f"filter by {name}")
    t, f = ds.partition(p, x)
    same(t, yes, f"partition by {name}, matching")
    same(f, no, f"partition by {name}, rest")
    same(ds.merge(t, f), table, f"merge of the partition by {name}")
    parts = ds.partition_n(
        lambda m, n, v: (len(m) + len(n) + case["k"]) % 3, x, 3) if hasattr(
            ds, "partition_n") else ()
    for i, part in enumerate(parts):
      same(part, {k: v for k, v in table.items()
                  if (len(k[0]) + len(k[1]) + case["k"]) % 3 == i},
           f"part {i}")
  same(ds.map(lambda m, n, v: v, x), table, "map of the identity")
  want = {}
  for t in tables:
    want.update(t)
  same(ds.merge(*inputs), want, "merge")
  return ["nt"] if sum(map(len, tables)) > len(want) else []


DT = ["float32", "float16", "bfloat16", "int8", "int32", "uint8", "bool",
      "complex64"]


def size_strat():
  arr = st.tuples(st.lists(st.integers(0, 5), max_size=3),
                  st.sampled_from(DT), st.booleans()).map(list)
  return st.fixed_dictionaries({"s": struct(arr),
                                "as": st.sampled_from(SHAPES[:3]),
                                "wrap": st.sampled_from(["params", "tuple",
                                                         "leaf"])})


def run_size(case):
  width = {"float32": 4, "float16": 2, "bfloat16": 2, "int8": 1, "int32": 4,
           "uint8": 1, "bool": 1, "complex64": 8}
  def mk(a):
    shape, dt, as_np = a
    if as_np and dt != "bfloat16":
      return np.zeros(shape, dt)
    return jnp.zeros(shape, getattr(jnp, dt) if dt != "bool" else bool)
  arrs = [a for _, b in case["s"] for _, a in b]
  tree = {m: {n: mk(a) for n, a in b} for m, b in case["s"]}
  if case["as"] == "immutable":
    tree = ds.to_immutable_dict(tree)
  if case["wrap"] == "tuple":
    tree = (tree, [tree])
    arrs = arrs * 2
  if case["wrap"] == "leaf" and arrs:
    tree, arrs = mk(arrs[0]), arrs[:1]
  sizes = [int(np.prod(a[0], dtype=int)) for a in arrs]
  eq(int(ds.tree_size(tree)), sum(sizes), "tree_size")
  eq(int(ds.tree_bytes(tree)),
     sum(s * width[a[1]] for s, a in zip(sizes, arrs)), "tree_bytes")
  return ["nt"] if len({a[1] for a in arrs}) > 1 else []


PROP = Prop("P11", [
    Sub("structures", strat, run, 12000, 200000,
        "the predicate selects some but not all entries"),
    Sub("values", values_strat, run_values, 4000, 60000,
        "the merged structures share an entry"),
    Sub("sizes", size_strat, run_size, 1500, 15000,
        "arrays of at least two element types"),
])
