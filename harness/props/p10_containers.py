"""P10: parameter containers are faithful immutable mappings and pytrees."""
import copy
import pickle

from core import Prop, Sub, Violation, check, eq, raises
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

ds = hk.data_structures
KEYS = ["a", "b", "w", "b_1", "linear", "linear_1", "mlp/~/linear_0", "Z", "~",
        "_x", "items_", "aa", "10", "9"]


def leaf():
  return st.one_of(st.integers(-3, 3), st.sampled_from([None, "s", 2.5]),
                   st.tuples(st.just("t"), st.integers(0, 3),
                             st.integers(0, 3)).map(list),
                   st.tuples(st.just("f"), st.integers(0, 9)).map(list))


def tree(depth):
  if depth == 0:
    return leaf()
  sub = st.one_of(leaf(), tree(depth - 1)) if depth > 1 else leaf()
  few = st.lists(st.tuples(st.sampled_from(KEYS), sub), max_size=4,
                 unique_by=lambda kv: kv[0])
  # Every key, in any order.
  many = st.tuples(st.permutations(KEYS), st.lists(
      sub, min_size=len(KEYS), max_size=len(KEYS))).map(lambda t: list(zip(*t)))
  return st.tuples(st.sampled_from([False] * 15 + [True]), few, many).map(
      lambda t: ["d", [list(kv) for kv in t[1 + t[0]]]])


OPS = ["tree_map", "flatten", "pickle", "copy", "deepcopy", "mutable",
       "immutable", "wrapleaf", "compact", "dictwrap", "source",
       "void", "empty", "mapping"]


def strat():
  return st.fixed_dictionaries({
      "tree": tree(3), "ops": st.lists(st.sampled_from(OPS), max_size=5),
      "init": st.booleans(), "proto": st.integers(2, 5)})


def build(t, cls=dict):
  if isinstance(t, list) and t and t[0] == "d":
    return cls((k, build(v, cls)) for k, v in t[1])
  if isinstance(t, list) and t[0] == "t":
    return (t[1], t[2])
  if isinstance(t, list) and t[0] == "f":
    return float(t[1])
  return t


def n_nodes(m):
  return sum(1 + n_nodes(v) if isinstance(v, dict) else 1 for v in m.values())


def observe(m, model, what):
  """m must look exactly like the dict `model`, and be immutable."""
  eq(len(m), len(model), f"{what}: len")
  eq(bool(m), bool(model), f"{what}: truth")
  keys = list(m)
  eq(sorted(keys), sorted(model), f"{what}: iteration")
  eq(list(m.keys()), keys, f"{what}: keys() in iteration order")
  items = list(m.items())
  eq([k for k, _ in items], keys, f"{what}: items() in iteration order")
  values = list(m.values())
  eq(len(values), len(keys), f"{what}: values() length")
  for (k, v), v2 in zip(items, values):
    check(v is v2 or v == v2, f"{what}: values() and items() disagree on {k!r}")
    check(m[k] is v or m[k] == v, f"{what}[{k!r}] disagrees with items()")
    check(getattr(m, k) is v or getattr(m, k) == v, f"{what}: attribute {k!r}")
    check(m.get(k) is v or m.get(k) == v, f"{what}: get({k!r})")
    check(k in m, f"{what}: {k!r} not in the mapping")
    if isinstance(model[k], dict):
      check(not isinstance(v, dict), f"{what}[{k!r}] is a mutable dict")
      observe(v, model[k], f"{what}[{k!r}]")
    else:
      check(type(v) is type(model[k]) and v == model[k],
            f"{what}[{k!r}] = {v!r}, expected {model[k]!r}")
  for k in KEYS:
    if k not in model:
      check(k not in m, f"{what}: {k!r} in the mapping")
      eq(m.get(k, "dflt"), "dflt", f"{what}: get of absent {k!r}")
      raises(lambda k=k: m[k], KeyError, f"{what}[{k!r}]")
      if k != "items_":
        raises(lambda k=k: getattr(m, k), AttributeError,
               f"{what}: attribute {k!r}")
  def setitem(k):
    m[k] = 1
  def delitem(k):
    del m[k]
  for k in (keys[:1] + ["new"]):
    raises(lambda k=k: setitem(k), TypeError, f"{what}: assignment")
    raises(lambda k=k: delitem(k), TypeError, f"{what}: deletion")
  for meth in ("update", "pop", "popitem", "clear", "setdefault"):
    raises(lambda meth=meth: getattr(m, meth), AttributeError,
           f"{what}: mutator {meth}")


def changed(model):
  """A dict that differs from model in one leaf or key."""
  out = copy.deepcopy(model)
  node = out
  while True:
    subs = [k for k in node if isinstance(node[k], dict)]
    if not subs:
      break
    node = node[subs[0]]
  ks = sorted(node)
  if ks:
    node[ks[-1]] = "different"
  else:
    node["different"] = 0
  return out


def frozen(model):
  return ds.to_immutable_dict(copy.deepcopy(model))


def run(case):
  model = build(case["tree"])
  src = copy.deepcopy(model)
  if case["init"] and model:
    # The containers users hold are those init returns: same type.
    def f():
      for mod, b in model.items():
        if isinstance(b, dict):
          for n in b:
            hk.get_parameter("x", [], init=jnp.zeros)
    p = hk.transform(f).init(None)
    check(type(p) is type(frozen({})), "init does not return the immutable type")
  m = ds.to_immutable_dict(src)
  labels = set()
  for op in ["start"] + case["ops"]:
    if op == "tree_map":
      m = jax.tree_util.tree_map(lambda v: v, m)
    elif op == "flatten":
      leaves, treedef = jax.tree_util.tree_flatten(m)
      m = jax.tree_util.tree_unflatten(treedef, leaves)
    elif op == "pickle":
      m = pickle.loads(pickle.dumps(m, protocol=case["proto"]))
    elif op == "copy":
      m = copy.copy(m)
    elif op == "deepcopy":
      m = copy.deepcopy(m)
    elif op == "source":
      # Changing the dicts it was made from changes nothing.
      scramble(src)
    elif op == "mutable":
      d = ds.to_mutable_dict(m)
      is_dict(d, model, "to_mutable_dict")
      scramble(d)
      observe(m, model, "after changing its mutable copy")
      d = ds.to_mutable_dict(m)
      m = ds.to_immutable_dict(d)
      scramble(d)
    elif op == "immutable":
      m = ds.to_immutable_dict(m)
    elif op == "wrapleaf":
      # Leaves that are containers themselves must survive.
      m = jax.tree_util.tree_map(lambda v: {"u": v, "v": (v, v)}, m)
      model = wrap(model)
      m = ds.to_immutable_dict(ds.to_mutable_dict(m))
    elif op in LEAFWISE:
      # Functions that return other than one leaf per leaf.
      if op == "mapping" and has_tuple(model):
        op = "void"  # mappings inside tuples are left as they are
      to_m, to_model = LEAFWISE[op]
      m = jax.tree_util.tree_map(to_m, m)
      model = leafwise(model, to_model)
    elif op == "compact":
      flags = []
      m2 = jax.tree_util.tree_map(lambda v: flags.append(1) or v, m)
      eq(len(flags), len(jax.tree_util.tree_leaves(model)), "leaves mapped")
      m = m2
    elif op == "dictwrap":
      w = ds.to_immutable_dict({"outer": m, "n": 1})
      observe(w, {"outer": model, "n": 1}, "wrapped")
      m = w["outer"]
    labels.add(op)
    observe(m, model, f"after {op}")
    other = frozen(model)
    for o, kind in ((other, "immutable"), (model, "dict")):
      check(m == o, f"after {op}: not equal to the same {kind}")
      check(o == m, f"after {op}: same {kind} not equal to it")
      check(not m != o, f"after {op}: unequal to the same {kind}")
    bad = changed(model)
    check(not (m == bad) and m != bad and not (m == frozen(bad))
          and m != frozen(bad), f"after {op}: equal to a different mapping")
    check(not (m == None) and m != None and not (m == 3),  # noqa: E711
          f"after {op}: equal to None or an int")
    eq(hash(m), hash(other), f"after {op}: hash of equal mappings")
    leaves, treedef = jax.tree_util.tree_flatten(m)
    wl, _ = jax.tree_util.tree_flatten(model)
    eq(leaves, wl, f"after {op}: pytree leaves")
    ol, otd = jax.tree_util.tree_flatten(other)
    check(treedef == otd, f"after {op}: tree structures of equals differ")
    mapped = jax.tree_util.tree_map(lambda a, b: (a, b) and 7, m, other)
    observe(mapped, jax.tree_util.tree_map(lambda v: 7, model), "two-tree map")
    env = {type(m).__name__: dict}
    for s in (str(m), repr(m)):
      eq(eval(s, env), model, f"after {op}: text form")  # pylint: disable=eval-used
  nested = any(isinstance(v, dict) and v for v in model.values())
  return (["nt"] if nested and len(case["ops"]) >= 2 else []) + sorted(labels)


def wrap(model):
  return {k: wrap(v) if isinstance(v, dict) else
          jax.tree_util.tree_map(lambda l: {"u": l, "v": (l, l)}, v)
          for k, v in model.items()}


def some(v):
  return isinstance(v, (int, float))


# Per operation, what to map over the mapping and what it means for the model.
LEAFWISE = {
    "void": (lambda v: None if some(v) else v,) * 2,
    "empty": (lambda v: ((), [v]) if some(v) else (),) * 2,
    "mapping": (
        lambda v: ds.to_immutable_dict({"a": v, "w": {}} if some(v) else {}),
        lambda v: {"a": v, "w": {}} if some(v) else {}),
}


def has_tuple(model):
  return any(has_tuple(v) if isinstance(v, dict) else
             isinstance(v, (tuple, list)) for v in model.values())


def leafwise(model, fn):
  return {k: leafwise(v, fn) if isinstance(v, dict) else
          jax.tree_util.tree_map(fn, v) for k, v in model.items()}


def is_dict(d, model, what):
  check(type(d) is dict, f"{what}: {type(d)}")
  eq(sorted(d), sorted(model), f"{what}: keys")
  for k in model:
    if isinstance(model[k], dict):
      is_dict(d[k], model[k], f"{what}[{k!r}]")
    else:
      check(type(d[k]) is type(model[k]) and d[k] == model[k],
            f"{what}[{k!r}] = {d[k]!r}, expected {model[k]!r}")


def scramble(d):
  for k in list(d):
    if isinstance(d[k], dict):
      scramble(d[k])
      d[k]["added"] = 1
    else:
      d[k] = "scrambled"
  d["new"] = {}


# ------------------------------------------------ arrays through jit and grad


def arr_strat():
  return st.fixed_dictionaries({
      "tree": st.lists(st.tuples(
          st.sampled_from(KEYS),
          st.lists(st.tuples(st.sampled_from(KEYS), st.integers(0, 9)),
                   min_size=1, max_size=3, unique_by=lambda t: t[0])),
                       min_size=1, max_size=3, unique_by=lambda t: t[0]),
      "mode": st.sampled_from(["jit", "grad", "vmap", "scan", "device"])})


def run_arr(case):
  model = {k: {n: np.full((2,), v, np.float32) for n, v in b}
           for k, b in case["tree"]}
  m = ds.to_immutable_dict(
      {k: {n: jnp.asarray(v) for n, v in b.items()} for k, b in model.items()})
  mode = case["mode"]
  if mode == "jit":
    out = jax.jit(lambda t: jax.tree_util.tree_map(lambda v: v + 1, t))(m)
    want = {k: {n: v + 1 for n, v in b.items()} for k, b in model.items()}
  elif mode == "grad":
    out = jax.grad(lambda t: sum(jnp.sum(v ** 2)
                                 for b in t.values() for v in b.values()))(m)
    want = {k: {n: 2 * v for n, v in b.items()} for k, b in model.items()}
  elif mode == "vmap":
    out = jax.vmap(lambda t: jax.tree_util.tree_map(lambda v: v * 3, t))(m)
    want = {k: {n: v * 3 for n, v in b.items()} for k, b in model.items()}
  elif mode == "scan":
    out, _ = jax.lax.scan(
        lambda c, _: (jax.tree_util.tree_map(lambda v: v + 2, c), None), m,
        None, length=3)
    want = {k: {n: v + 6 for n, v in b.items()} for k, b in model.items()}
  else:
    out, want = jax.device_get(m), model
  check(type(out) is type(m), f"{mode} returned {type(out)}")
  eq(sorted(out), sorted(want), f"{mode}: modules")
  for k in want:
    eq(sorted(out[k]), sorted(want[k]), f"{mode}: names of {k}")
    for n in want[k]:
      check(np.array_equal(np.asarray(out[k][n]), want[k][n]),
            f"{mode}: {k}/{n} = {out[k][n]}, expected {want[k][n]}")
  return ["nt", mode] if sum(len(b) for b in want.values()) > 1 else [mode]


# ------------------------------------- the mapping of checkpoints of old Haiku

LEGACY_OPS = ["tree_map", "flatten", "pickle", "copy", "deepcopy", "immutable",
              "source", "again"]


def legacy_strat():
  return st.fixed_dictionaries({
      "tree": tree(2), "ops": st.lists(st.sampled_from(LEGACY_OPS), max_size=4),
      "proto": st.integers(2, 5),
      "apply": st.sampled_from((False, False, False, True))})


def old(model):
  from haiku._src import data_structures  # pylint: disable=g-import-not-at-top
  return data_structures.frozendict(
      {k: old(v) if isinstance(v, dict) else v for k, v in model.items()})


def run_legacy(case):
  model = build(case["tree"])
  m = old(model)
  labels = set()
  for op in ["start"] + case["ops"]:
    if op == "tree_map":
      m = jax.tree_util.tree_map(lambda v: v, m)
    elif op == "flatten":
      leaves, treedef = jax.tree_util.tree_flatten(m)
      m = jax.tree_util.tree_unflatten(treedef, leaves)
    elif op == "pickle":
      m = pickle.loads(pickle.dumps(m, protocol=case["proto"]))
    elif op == "copy":
      m = copy.copy(m)
    elif op == "deepcopy":
      m = copy.deepcopy(m)
    elif op == "immutable":
      # The conversions of today keep what it holds.
      new = ds.to_immutable_dict(m)
      check(new == model, "to_immutable_dict of an old mapping")
    elif op == "source":
      src = copy.deepcopy(model)
      m = old(src)
      scramble(src)
    elif op == "again":
      m = type(m)(m)
    labels.add(op)
    check(type(m) is type(old({})), f"after {op}: {type(m)}")
    observe(m, model, f"old mapping after {op}")
    eq(list(m), sorted(model), f"after {op}: order")
    same = old(model)
    check(m == same and m == model and not m != same and not m != model,
          f"after {op}: not equal to the same mapping")
    bad = changed(model)
    check(m != old(bad) and m != bad and not m == old(bad) and not m == bad
          and m != None and m != 3,  # noqa: E711
          f"after {op}: equal to a different mapping")
    eq(hash(m), hash(same), f"after {op}: hash of equal mappings")
    eq(jax.tree_util.tree_leaves(m), jax.tree_util.tree_leaves(model),
       f"after {op}: leaves")
    env = {type(m).__name__: dict}
    for s in (str(m), repr(m)):
      eq(eval(s, env), model, f"after {op}: text form")  # pylint: disable=eval-used
  if case["apply"]:
    # Old checkpoints can be given to apply as they are.
    def f():
      n = hk.Linear(2, name="b")
      return n(jnp.ones([1, 3])) + hk.get_state("c", [], init=jnp.zeros)
    t = hk.transform_with_state(f)
    params, state = t.init(jax.random.PRNGKey(7))
    want, _ = t.apply(params, state, None)
    got, new = t.apply(old(ds.to_mutable_dict(params)),
                       old(ds.to_mutable_dict(state)), None)
    check(np.array_equal(got, want), "apply on an old mapping")
    check(new == state, "state from an old mapping")
    labels.add("apply")
  nested = any(isinstance(v, dict) and v for v in model.values())
  return (["nt"] if nested and case["ops"] else []) + sorted(labels)


PROP = Prop("P10", [
    Sub("mappings", strat, run, 8000, 150000,
        "a nested non-empty mapping and at least two container operations"),
    Sub("arrays", arr_strat, run_arr, 500, 4000, "at least two leaves"),
    Sub("legacy", legacy_strat, run_legacy, 3000, 40000,
        "a nested non-empty mapping and a container operation"),
])
