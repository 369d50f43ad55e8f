"""P26: eval_summary, tabulate, to_dot, abstract_to_dot and module reprs."""
import ast
import collections
import decimal
import html
import html.parser
import inspect
import re

from core import Prop, Sub, Violation, HarnessError, check, eq, raises
from hypothesis import strategies as st
import numpy as np
import jax
from jax import lax
import jax.numpy as jnp
import haiku as hk

# ------------------------------------------------------------------- summaries

SHORT = {"float32": "f32", "bfloat16": "bf16", "float16": "f16", "int8": "s8",
         "int32": "s32", "uint8": "u8", "uint32": "u32", "bool": "bool"}
SIZE = {"float32": 4, "bfloat16": 2, "float16": 2, "int8": 1, "int32": 4,
        "uint8": 1, "uint32": 4, "bool": 1}
SHAPES = [[], [1], [2], [3, 2], [0], [4, 1, 2], [10], [1000, 50], [250],
          [999999], [1000000], [30, 1000, 1000], [2500, 100], [5, 5, 40]]
RETS = ["x", "x", "x", "none", "pair", "dict", "static", "raise"]
# State need not be made of arrays.
SCALARS = {"py_int": (7, "int32"), "py_float": (.5, "float32"),
           "py_bool": (True, "bool")}
METHODS = ["__call__", "__call__", "go"]


def tree_strat(depth):
  entry = st.tuples(st.sampled_from(["a", "b", "c", "w", "w2"]),
                    st.sampled_from(SHAPES),
                    st.sampled_from(sorted(SHORT))).map(list)
  entries = lambda mx: st.lists(entry, max_size=mx,
                                unique_by=lambda e: e[0])
  scalar = st.tuples(st.sampled_from(["a", "b", "n"]), st.just([]),
                     st.sampled_from(sorted(SCALARS))).map(list)
  states = st.lists(st.one_of(entry, entry, scalar), max_size=2,
                    unique_by=lambda e: e[0])
  kids = (st.lists(tree_strat(depth - 1), max_size=2) if depth else
          st.just([]))
  calls = st.lists(st.tuples(st.integers(0, 2), st.sampled_from(METHODS),
                             st.sampled_from(["pos", "kw"])).map(list),
                   max_size=3)
  return st.fixed_dictionaries({
      "cls": st.integers(0, 1), "params": entries(3), "state": states,
      "extra": entries(1), "kids": kids, "inner": st.booleans(),
      "calls": calls, "calls2": calls, "ret": st.sampled_from(RETS),
      "ret2": st.sampled_from(RETS)})


def sum_strat():
  return st.fixed_dictionaries({
      "tops": st.lists(tree_strat(2), min_size=1, max_size=3),
      "use": st.lists(st.tuples(st.integers(0, 2), st.sampled_from(METHODS),
                                st.sampled_from(["pos", "kw"])).map(list),
                      min_size=1, max_size=4),
      # Modules that also call another module that does not live below them.
      "borrow": st.lists(st.tuples(st.integers(0, 2),
                                   st.sampled_from(METHODS)).map(list),
                         min_size=3, max_size=3),
      "form": st.sampled_from(["fn", "transform", "with_state", "init",
                               "apply", "no_rng", "no_rng_apply"]),
      "x": st.sampled_from([[2], [3, 1], []]),
      "columns": st.one_of(st.none(), st.just("default"), st.lists(
          st.sampled_from(["module", "config", "owned_params", "input",
                           "output", "params_size", "params_bytes"]),
          min_size=1, max_size=4, unique=True)),
      "filters": st.one_of(st.none(), st.just("default"), st.lists(
          st.sampled_from(["has_output", "has_params"]), max_size=2,
          unique=True)),
      "bad": st.sampled_from(["", "", "", "column", "filter"])})


def make_vars(self, extra):
  for n, s, d in self.spec["extra" if extra else "params"]:
    hk.get_parameter(("o_" if extra else "") + n, s, jnp.dtype(d),
                     init=jnp.zeros)
  if not extra:
    for n, s, d in self.spec["state"]:
      if d in SCALARS:
        hk.set_state(n, SCALARS[d][0])
      else:
        hk.get_state(n, s, jnp.dtype(d), init=jnp.zeros)


class Boom(Exception):
  """Raised by a method and caught by its caller."""


def result(kind, x):
  if kind == "raise":
    raise Boom
  return {"x": x, "none": None, "pair": (x, x + 1), "dict": {"k": x},
          "static": 7}[kind]


class _Base(hk.Module):

  def __init__(self, idx, spec, name=None):
    super().__init__(name=name)
    self.idx = idx
    self.spec = spec
    self.kids = None
    self.borrow = None
    if not spec["inner"]:
      self.kids = [make(i, k, f"k{i}") for i, k in enumerate(spec["kids"])]

  def __call__(self, x, flag=None):
    make_vars(self, False)
    kids = self.kids
    if kids is None:
      kids = [make(i, k, f"k{i}") for i, k in enumerate(self.spec["kids"])]
    do_calls(kids, self.spec["calls"], x)
    if self.borrow is not None:
      guarded(getattr(self.borrow[0], self.borrow[1]), x, flag=True)
    return result(self.spec["ret"], x)

  def go(self, x, flag=None):
    make_vars(self, True)
    do_calls(self.kids or [], self.spec["calls2"], x)
    return result(self.spec["ret2"], x)


class Red(_Base):
  pass


class Blue(_Base):
  pass


CLS = [Red, Blue]


def make(i, spec, name):
  return CLS[spec["cls"]](i, spec, name=name)


def do_calls(kids, calls, x):
  for k, method, style in calls:
    if k < len(kids):
      f = getattr(kids[k], method)
      guarded(f, x, flag=True) if style == "pos" else guarded(f, x=x)


def guarded(f, *a, **k):
  try:
    f(*a, **k)
  except Boom:
    pass


class Expect:
  """What the calls should be recorded as, from the specification alone."""

  def __init__(self, case):
    self.rows = []
    self.params = {}
    self.state = {}
    self.case = case
    for _ in range(2):       # once to collect parameters, once to record
      tops = [self.build(s, f"m{i}", i, [], []) for i, s in
              enumerate(case["tops"])]
      for i, t in enumerate(tops):
        j, meth = borrowed(case, i)
        t["borrow"] = None if j is None else (tops[j], meth)
      self.rows = []
      for t in tops:
        self.collect_only = None
      for k, method, style in case["use"]:
        if k < len(tops):
          self.call(tops[k], method, style, [])

  def build(self, spec, full, i, stack, acc):
    m = {"spec": spec, "full": full, "idx": i, "kids": None,
         "borrow": None, "subs": set(), "cls": CLS[spec["cls"]].__name__}
    if not spec["inner"]:
      m["kids"] = [self.build(k, f"{full}/~/k{j}", j, stack, acc)
                   for j, k in enumerate(spec["kids"])]
    return m

  def call(self, m, method, style, stack):
    spec, full = m["spec"], m["full"]
    row = len(self.rows)
    self.rows.append(None)
    first = method == "__call__"
    for n, s, d in spec["params" if first else "extra"]:
      self.params[f"{full}/{'' if first else 'o_'}{n}"] = (tuple(s), d)
    if first:
      for n, s, d in spec["state"]:
        self.state[f"{full}/{n}"] = (tuple(s), SCALARS.get(d, (0, d))[1])
    kids = m["kids"]
    if kids is None:
      kids = ([self.build(k, f"{full}/k{j}", j, stack, None)
               for j, k in enumerate(spec["kids"])] if first else [])
    here = [(m, method)] + stack
    if m["kids"] is None:
      # Made just now, within all these calls.
      for k in kids:
        self.register(k, here, deep=True)
    for k, meth, sty in spec["calls" if first else "calls2"]:
      if k < len(kids):
        self.call(kids[k], meth, sty, here)
    if first and m["borrow"] is not None:
      self.call(m["borrow"][0], m["borrow"][1], "pos", here)
    if spec["ret" if first else "ret2"] == "raise":
      # Not a call that was completed: neither listed nor a use of m.
      del self.rows[row]
      return
    self.rows[row] = {"m": m, "method": method, "style": style, "stack": here,
                      "params": self.owned(m, "params"),
                      "state": self.owned(m, "state"),
                      "stack_params": [self.owned(s, "params")
                                       for s, _ in here],
                      "ret": spec["ret" if first else "ret2"]}
    self.register(m, stack)

  def register(self, m, stack, deep=False):
    """Methods of m were used within the calls on the stack."""
    for s, _ in stack:
      if s is not m:
        s["subs"].add(m["full"])
    for k in (m["kids"] or []) if deep else []:
      self.register(k, stack, True)

  def owned(self, m, which):
    """Entries of modules below m and of those used by m so far."""
    return {k: v for k, v in getattr(self, which).items()
            if k.startswith(m["full"] + "/")
            or k.rsplit("/", 1)[0] in m["subs"]}


def borrowed(case, i):
  j, meth = case["borrow"][i]
  return (j, meth) if j < i else (None, None)


def spec_of(v):
  if isinstance(v, hk.experimental.ArraySpec):
    return ("array", tuple(v.shape), str(np.dtype(v.dtype)))
  if isinstance(v, dict):
    return {k: spec_of(u) for k, u in v.items()}
  if isinstance(v, tuple):
    return tuple(spec_of(u) for u in v)
  return ("static", v)


class Table(html.parser.HTMLParser):

  def __init__(self):
    super().__init__()
    self.rows, self.cell, self.head = [], None, []

  def handle_starttag(self, tag, attrs):
    if tag == "tr":
      self.rows.append([])
    if tag in ("td", "th"):
      self.cell = ""

  def handle_endtag(self, tag):
    if tag in ("td", "th"):
      self.rows[-1].append(self.cell)
      self.cell = None

  def handle_data(self, data):
    if self.cell is not None:
      self.cell += data


def lines(s):
  return [l.strip() for l in s.strip().split("\n")]


def fmt(shape, dtype):
  return f"{SHORT[dtype]}[{','.join(map(str, shape))}]"


def human(n):
  k = 0
  while k < 4 and n >= 1000 ** (k + 1):
    k += 1
  q = decimal.Decimal(n) / decimal.Decimal(1000) ** k
  return f"{q:.2f} {['B', 'KB', 'MB', 'GB', 'TB'][k]}"


HEAD = {"module": "Module", "config": "Config", "owned_params": "Module params",
        "input": "Input", "output": "Output", "params_size": "Param count",
        "params_bytes": "Param bytes"}


def run_sum(case):
  e = Expect(case)
  x = jnp.zeros(case["x"], jnp.float32)
  arr = ("array", tuple(case["x"]), "float32")
  xs = fmt(case["x"], "float32")

  def f(x):
    tops = [make(i, s, f"m{i}") for i, s in enumerate(case["tops"])]
    for i, t in enumerate(tops):
      j, meth = borrowed(case, i)
      t.borrow = None if j is None else (tops[j], meth)
    do_calls(tops, case["use"], x)
    return x

  g = f
  if case["form"] != "fn":
    if case["form"] == "transform" and e.state:
      g = hk.transform_with_state(f)
    else:
      t = (hk.transform(f) if not e.state and case["form"] == "transform"
           else hk.transform_with_state(f))
      w = hk.without_apply_rng(hk.transform(f) if not e.state else t)
      g = {"transform": t, "with_state": t, "init": t.init,
           "apply": t.apply, "no_rng": w, "no_rng_apply": w.apply}[case["form"]]

  got = hk.experimental.eval_summary(g)(x)
  eq(len(got), len(e.rows), "number of recorded method calls")
  for i, (a, b) in enumerate(zip(got, e.rows)):
    what = f"call {i} ({b['m']['full']}.{b['method']})"
    full = b["m"]["full"]
    d = a.module_details
    eq((d.module.module_name, d.method_name, type(d.module).__name__),
       (full, b["method"], b["m"]["cls"]), what)
    eq((a.context.method_name, a.context.module is d.module),
       (b["method"], True), what + " context")
    for which in ("params", "state"):
      eq({k: (tuple(v.shape), str(np.dtype(v.dtype)))
          for k, v in getattr(d, which).items()}, b[which],
         f"{what} {which}")
    if b["style"] == "pos":
      eq((spec_of(tuple(a.args_spec)), spec_of(dict(a.kwargs_spec))),
         ((arr,), {"flag": ("static", True)}), what + " arguments")
    else:
      eq((tuple(a.args_spec), spec_of(dict(a.kwargs_spec))),
         ((), {"x": arr}), what + " arguments")
    eq(spec_of(a.output_spec),
       {"x": arr, "none": ("static", None), "pair": (arr, arr),
        "dict": {"k": arr}, "static": ("static", 7)}[b["ret"]],
       what + " output")
    eq([(c.module.module_name, c.method_name) for c in a.call_stack],
       [(m["full"], meth) for m, meth in b["stack"]], what + " call stack")
    for c, (m, _), own in zip(a.call_stack, b["stack"], b["stack_params"]):
      eq({k: (tuple(v.shape), str(np.dtype(v.dtype)))
          for k, v in c.params.items()}, own,
         f"{what} parameters of {m['full']} in the call stack")

  # ------------------------------------------------------------------- table
  kw = {"tabulate_kwargs": {"tablefmt": "html", "disable_numparse": True}}
  if case["bad"] == "column":
    raises(lambda: hk.experimental.tabulate(g, columns=("module", "nope")),
           ValueError, "unknown column", match="nope")
  if case["bad"] == "filter":
    raises(lambda: hk.experimental.tabulate(g, filters=("nope",)),
           ValueError, "unknown filter", match="nope")
  for k in ("columns", "filters"):
    if case[k] != "default":
      kw[k] = case[k]
  cols = case["columns"] if isinstance(case["columns"], list) else list(HEAD)
  flt = (case["filters"] if isinstance(case["filters"], list)
         else ["has_output", "has_params"])
  out = hk.experimental.tabulate(g, **kw)(x)
  rows = [b for b in e.rows
          if ("has_output" not in flt or b["ret"] != "none") and
          ("has_params" not in flt or b["params"])]
  if not rows:
    eq(out, "No modules matching filters.", "empty table")
  else:
    t = Table()
    t.feed(str(out))
    eq([c.strip() for c in t.rows[0]], [HEAD[c] for c in cols], "columns")
    eq(len(t.rows) - 1, len(rows), "number of rows")
    for r, b in zip(t.rows[1:], rows):
      full = b["m"]["full"]
      own = b["params"]
      mine = {k[len(full) + 1:]: v for k, v in own.items()
              if k.rsplit("/", 1)[0] == full}
      size = lambda s: int(np.prod(s, dtype=np.int64))
      want = {
          "module": [("└ " if i else "") +
                     f"{m['full']} ({m['cls']}" +
                     ("" if meth == "__call__" else f".{meth}") + ")"
                     for i, (m, meth) in enumerate(b["stack"])],
          "owned_params": [f"{n}: {fmt(*mine[n])}" for n in sorted(
              mine, key=lambda n: (-size(mine[n][0]), n))] or [""],
          "input": ([xs, "flag=True"] if b["style"] == "pos" else
                    [f"x={xs}"]),
          "output": [{"x": xs, "none": "None", "pair": f"({xs}, {xs})",
                      "dict": "{'k': " + xs + "}", "static": "7"}[b["ret"]]],
          "params_size": [f"{sum(size(s) for s, _ in own.values()):,}"],
          "params_bytes": [human(sum(size(s) * SIZE[d]
                                     for s, d in own.values()))]}
      for c, v in zip(cols, r):
        if c == "config":
          check(v.strip().startswith(b["m"]["cls"] + "("), f"config {v!r}")
          last = full.rsplit("/", 1)[-1]
          check(f"name='{last}'" in v, f"config of {full}: {v!r}")
        else:
          eq(lines(v), want[c], f"column {c} of {full}.{b['method']}")
  multi = len(e.rows) > 2 and any(len(b["stack"]) > 1 for b in e.rows)
  return (["nt"] if multi else []) + [case["form"]]


# --------------------------------------------------------------------- graphs

UN = {"sin": lax.sin, "neg": lax.neg, "exp": lax.exp, "tanh": lax.tanh,
      "floor": lax.floor}
BIN = {"add": lax.add, "mul": lax.mul, "max": lax.max, "sub": lax.sub}


@jax.custom_jvp
def cj(x):
  return lax.cos(x)


cj.defjvp(lambda p, t: (lax.cos(p[0]), t[0]))


@jax.custom_vjp
def cv(x):
  return lax.sign(x)


cv.defvjp(lambda x: (lax.sign(x), None), lambda r, g: (g,))

idx = st.integers(0, 7)


def step_strat():
  return st.one_of(
      st.tuples(st.just("un"), st.sampled_from(sorted(UN)), idx),
      st.tuples(st.just("bin"), st.sampled_from(sorted(BIN)), idx, idx),
      st.tuples(st.just("bin"), st.sampled_from(sorted(BIN)), idx, idx),
      st.tuples(st.just("topk"), idx),
      st.tuples(st.just("cap"), st.sampled_from(["np", "jax"]), idx),
      st.tuples(st.just("jvp"), idx), st.tuples(st.just("vjp"), idx),
      st.tuples(st.just("sub"), st.integers(0, 1), idx,
                st.sampled_from(["__call__", "go", "fail"])),
      st.tuples(st.just("sub"), st.integers(0, 1), idx,
                st.sampled_from(["__call__", "go"]))).map(list)


def mod_strat(depth):
  return st.fixed_dictionaries({
      "param": st.booleans(),
      "kids": st.lists(mod_strat(depth - 1), max_size=2) if depth
              else st.just([]),
      "steps": st.lists(step_strat(), max_size=4)})


def dot_strat():
  return st.fixed_dictionaries({
      "d": st.sampled_from([1, 2, 3]),
      "kids": st.lists(mod_strat(1), max_size=2),
      "steps": st.lists(step_strat(), min_size=1, max_size=6),
      "out": st.sampled_from(["one", "tuple", "dict", "nested"]),
      "outs": st.lists(st.integers(0, 12), min_size=2, max_size=2),
      "boom": st.booleans(),
      "scopes": st.booleans()})


class G(hk.Module):

  def __init__(self, spec, d, name):
    super().__init__(name=name)
    self.spec, self.d = spec, d
    self.kids = [G(k, d, f"g{i}") for i, k in enumerate(spec["kids"])]

  def body(self, x):
    env = [x]
    if self.spec["param"]:
      env.append(hk.get_parameter("w", [self.d], init=jnp.ones))
    return interp(self.spec["steps"], env, self.kids, self.d)[-1]

  body = hk.transparent(body)

  def __call__(self, x):
    return self.body(x)

  def go(self, x):
    return self.body(x)

  def fail(self, x):
    raise Carry(self.body(x))


class Carry(Exception):
  """Handled by the caller, which uses the value it carries."""


CAPS = {(k, d): (np.full([d], 1.5, np.float32) if k == "np" else
                 jnp.full([d], 2.5, jnp.float32))
        for k in ("np", "jax") for d in (1, 2, 3)}


def interp(steps, env, kids, d):
  env = list(env)
  at = lambda i: env[i % len(env)]
  for s in steps:
    if s[0] == "un":
      env.append(UN[s[1]](at(s[2])))
    elif s[0] == "bin":
      env.append(BIN[s[1]](at(s[2]), at(s[3])))
    elif s[0] == "topk":
      a, b = lax.top_k(at(s[1]), d)
      env.append(lax.mul(a, lax.convert_element_type(b, jnp.float32)))
    elif s[0] == "cap":
      env.append(lax.add(at(s[2]), CAPS[s[1], d]))
    elif s[0] == "jvp":
      env.append(cj(at(s[1])))
    elif s[0] == "vjp":
      env.append(cv(at(s[1])))
    elif s[0] == "sub" and s[1] < len(kids):
      try:
        env.append(getattr(kids[s[1]], s[3])(at(s[2])))
      except Carry as e:
        env.append(e.args[0])
  return env


class GraphModel:

  def __init__(self, case):
    self.case, self.d = case, case["d"]
    self.nodes = []
    self.root = ["apply_fn", []]
    self.f = f"f32[{self.d}]"
    self.i = f"s32[{self.d}]"

  def op(self, title, shapes, ins, path):
    self.nodes.append({"title": title, "shapes": shapes, "ins": ins,
                       "path": path, "outs": []})
    return ("node", len(self.nodes) - 1)

  def build(self, spec, full, cluster):
    me = [f"{full} (__init__)", []]
    kids = [self.build(k, f"{full}/~/g{i}", me)
            for i, k in enumerate(spec["kids"])]
    cluster[1].append(me)
    return {"spec": spec, "full": full, "kids": kids}

  def call(self, m, method, x, cluster, path):
    title = m["full"] + ("" if method == "__call__" else f" ({method})")
    me = [title, []]
    env = [x]
    if m["spec"]["param"]:
      env.append(("arg", f"args[0]: {m['full']}/w"))
    out = self.interp(m["spec"]["steps"], env, m["kids"], me, path + (title,))
    cluster[1].append(me)
    return out[-1]

  def interp(self, steps, env, kids, cluster, path):
    env = list(env)
    at = lambda i: env[i % len(env)]
    one = [self.f]
    for s in steps:
      if s[0] == "un":
        env.append(self.op(s[1], one, [at(s[2])], path))
      elif s[0] == "bin":
        env.append(self.op(s[1], one, [at(s[2]), at(s[3])], path))
      elif s[0] == "topk":
        n = self.op("top_k", [self.f, self.i], [at(s[1])], path)
        c = self.op("convert_element_type", one, [n], path)
        env.append(self.op("mul", one, [n, c], path))
      elif s[0] == "cap":
        text = ("1.5" if s[1] == "np" and self.d == 1 else self.f)
        env.append(self.op("add", one, [at(s[2]), ("cap", text)], path))
      elif s[0] == "jvp":
        env.append(self.op("cos", one, [at(s[1])], path))
      elif s[0] == "vjp":
        env.append(self.op("sign", one, [at(s[1])], path))
      elif s[0] == "sub" and s[1] < len(kids):
        env.append(self.call(kids[s[1]], s[3], at(s[2]), cluster, path))
    return env

  def canon(self):
    memo = {}

    def label(v):
      if v[0] != "node":
        return v
      if v not in memo:
        n = self.nodes[v[1]]
        memo[v] = hash((n["title"], tuple(n["shapes"]), n["path"],
                        tuple(sorted(n["outs"])),
                        tuple(sorted(map(repr, map(label, n["ins"]))))))
      return memo[v]

    return collections.Counter(label(("node", i))
                               for i in range(len(self.nodes)))


def parse_dot(text):
  root, stack, nodes, edges = ["", []], [], {}, []
  cur = [root]
  for line in text.split("\n"):
    s = line.strip()
    if s.startswith("subgraph cluster_"):
      cur.append(["", []])
    elif s.startswith("label = <<b>"):
      cur[-1][0] = html.unescape(s[len("label = <<b>"):-len("</b>>;")])
    elif s.startswith("}  // subgraph"):
      g = cur.pop()
      cur[-1][1].append(g)
    else:
      m = re.match(r"^(\d+) -> (\d+);$", s)
      if m:
        edges.append((m.group(1), m.group(2)))
        continue
      m = re.match(r'^(\d+) \[label=<(.*)>,? +(id|shape)=', s)
      if m:
        parts = [html.unescape(p) for p in m.group(2).split("<br/>")]
        rec = (parts, tuple(c[0] for c in cur[1:]))
        if m.group(1) in nodes and nodes[m.group(1)] != rec:
          raise Violation(f"two different nodes share id {m.group(1)}")
        nodes[m.group(1)] = rec
  check(len(cur) == 1, "unbalanced clusters")
  return root, nodes, edges


def canon_dot(text):
  root, nodes, edges = parse_dot(text)
  ins = collections.defaultdict(list)
  for a, b in edges:
    check(a in nodes, f"an edge starts at a node that is not in the graph")
    check(b in nodes, f"an edge ends at a node that is not in the graph")
    ins[b].append(a)
  bold = lambda p: p.startswith("<b>") and p.endswith("</b>")
  strip = lambda p: p[3:-4]
  memo = {}

  def label(i):
    if i in memo:
      return memo[i]
    parts, path = nodes[i]
    b = [strip(p) for p in parts if bold(p)]
    rest = [p for p in parts if not bold(p)]
    names = [p for p in b if p != "(reuse)"]
    if names and names[0].startswith("args["):
      memo[i] = ("arg", names[0])
    elif not rest:
      memo[i] = ("cap", names[0])
    else:
      outs = names[:-1]
      memo[i] = hash((names[-1], tuple(rest), path, tuple(sorted(outs)),
                      tuple(sorted(repr(label(a)) for a in ins[i]))))
    return memo[i]

  ops = collections.Counter()
  args = collections.Counter()
  reuse = collections.Counter()
  for i, (parts, _) in nodes.items():
    l = label(i)
    if isinstance(l, tuple):
      if l[0] == "arg":
        args[l[1]] += 1
        reuse[l[1]] += "<b>(reuse)</b>" in parts
    else:
      ops[l] += 1
  return root, ops, args, reuse, nodes, edges


def run_dot(case):
  d = case["d"]

  def net(x, y):
    kids = [G(k, d, f"g{i}") for i, k in enumerate(case["kids"])]
    env = interp(case["steps"], [x, y["q"]], kids, d)
    ops = env[2:]
    if not ops:
      return x
    a, b = (ops[i % len(ops)] for i in case["outs"])
    if case["out"] == "one":
      return a
    if case["out"] == "tuple":
      return (a, b)
    if case["out"] == "dict":
      return {"u": a, "v": b}
    return (x, {"u": [a]})

  f = hk.transform(net)
  x = jnp.arange(1., d + 1)
  y = {"q": jnp.arange(2., d + 2)}
  params = f.init(None, x, y)
  prev = hk.experimental.profiler_name_scopes(enabled=case["scopes"])
  try:
    if case["boom"]:
      def bad(*a):
        f.apply(*a)
        raise ZeroDivisionError("boom")
      for w in (hk.experimental.to_dot, hk.experimental.abstract_to_dot):
        raises(lambda: w(bad)(params, None, x, y), ZeroDivisionError,
               "an error in the function")
    text = hk.experimental.to_dot(f.apply)(params, None, x, y)
    shapes = jax.tree_util.tree_map(
        lambda v: jax.ShapeDtypeStruct(v.shape, v.dtype), (params, None, x, y))
    text2 = hk.experimental.abstract_to_dot(f.apply)(*shapes)
  finally:
    now = hk.experimental.profiler_name_scopes(enabled=prev)
  eq(bool(now), case["scopes"], "profiler scopes after to_dot")

  g = GraphModel(case)
  kids = [g.build(k, f"g{i}", g.root) for i, k in enumerate(case["kids"])]
  env = g.interp(case["steps"], [("arg", "args[2]"), ("arg", "args[3]: q")],
                 kids, g.root, ())
  ops = env[2:]
  mark = lambda v, name: v[0] == "node" and g.nodes[v[1]]["outs"].append(name)
  if ops:
    a, b = (ops[i % len(ops)] for i in case["outs"])
    if case["out"] == "one":
      mark(a, "output")
    elif case["out"] in ("tuple", "dict"):
      if a == b:
        return ["same-output"]
      n = (("output[0]", "output[1]") if case["out"] == "tuple" else
           ("output: u", "output: v"))
      mark(a, n[0])
      mark(b, n[1])
    else:
      mark(a, "output[1]: u/0")
  want = g.canon()
  uses = collections.Counter()
  for n in g.nodes:
    for v in n["ins"]:
      if v[0] == "arg":
        uses[v[1]] += 1
  for what, t in (("to_dot", text), ("abstract_to_dot", text2)):
    root, got, args, reuse, nodes, edges = canon_dot(t)
    eq(root, g.root, f"{what}: clusters")
    eq(len(edges), sum(len(n["ins"]) for n in g.nodes), f"{what}: edges")
    if got != want:
      raise Violation(
          f"{what}: operations {sorted(nodes.values())}, expected "
          f"{[(n['title'], n['path'], n['ins'], n['outs']) for n in g.nodes]}")
    eq(dict(args), dict(uses), f"{what}: argument nodes")
    starts = collections.Counter(e[0] for e in edges)
    for i, (parts, _) in nodes.items():
      if any(p.startswith("<b>args[") for p in parts):
        eq(starts[i], 1, f"{what}: uses of one node of an argument")
    eq({k: v - reuse[k] for k, v in args.items()}, {k: 1 for k in args},
       f"{what}: argument nodes not marked as reuse")
  deep = any(len(n["path"]) > 0 for n in g.nodes)
  return (["nt"] if deep and len(g.nodes) > 2 else [])


# ----------------------------------------------------------------------- reprs

VALUES = [None, 0, 1, -3, 2.5, True, False, "", "x", "name with 'quotes'",
          [1, 2, 3], [], {"a": 1, "b": [2, 3]}, "SAME", [[1, 2], [3, 4]],
          "y" * 70, list(range(40)), {"k" * 30: "v" * 50},
          "words and more words " * 6, ["z" * 30, "w" * 30]]


def repr_strat():
  v = st.sampled_from(VALUES)
  arg = st.fixed_dictionaries({
      "has": st.booleans(), "default": v, "value": v,
      "pass": st.sampled_from(["pos", "kw", "skip"])})
  return st.fixed_dictionaries({
      "args": st.lists(arg, max_size=4), "kwonly": st.lists(arg, max_size=2),
      # Whether the constructor takes *rest, and what is given for it.
      "rest": st.one_of(st.none(), st.none(), st.lists(v, max_size=3)),
      "cls": st.sampled_from(["Foo", "A" * 40, "net_x", "B1"]),
      "name": st.sampled_from([None, "foo", "some_long_name" * 3])})


def run_repr(case):
  args = sorted(case["args"], key=lambda a: a["has"])   # defaults come last
  sig, names = ["self"], []
  for i, a in enumerate(args):
    names.append(f"arg{i}")
    sig.append(f"arg{i}" + (f"={a['default']!r}" if a["has"] else ""))
  rest = case["rest"]
  if rest is None:
    sig.append("name=None")
  if rest is not None:
    sig.append("*rest")
  elif case["kwonly"]:
    sig.append("*")
  for i, a in enumerate(case["kwonly"]):
    sig.append(f"kw{i}={a['default']!r}")
  if rest is not None:
    sig.append("name=None")
  src = (f"class {case['cls']}(hk.Module):\n"
         f"  def __init__({', '.join(sig)}):\n"
         "    super().__init__(name=name)\n")
  env = {"hk": hk}
  exec(src, env)  # pylint: disable=exec-used
  cls = env[case["cls"]]
  signature = inspect.signature(cls.__init__)
  pos, kw, positional = [], {}, True
  for n, a in zip(names, args):
    how = "pos" if rest else a["pass"]
    if how == "skip" and not a["has"]:
      how = "kw"
    if how == "pos" and positional:
      pos.append(a["value"])
    elif how == "skip":
      positional = False
    else:
      positional = False
      kw[n] = a["value"]
  pos += rest or []
  if case["name"]:
    kw["name"] = case["name"]
  for i, a in enumerate(case["kwonly"]):
    if a["pass"] != "skip":
      kw[f"kw{i}"] = a["value"]
  out = []
  hk.transform(lambda: out.append(repr(cls(*pos, **kw)))).init(None)
  text = out[0]

  def bind(a, k):
    b = signature.bind(None, *a, **k)
    b.apply_defaults()
    return dict(b.arguments)

  want = bind(pos, kw)
  try:
    node = ast.parse(text.strip(), mode="eval").body
    check(isinstance(node, ast.Call) and node.func.id == case["cls"],
          f"repr {text!r} is not a call of {case['cls']}")
    got_args = [ast.literal_eval(a) for a in node.args]
    got_kw = {k.arg: ast.literal_eval(k.value) for k in node.keywords}
  except (SyntaxError, ValueError) as err:
    raise Violation(f"repr {text!r} does not read back: {err}") from err
  eq(bind(got_args, got_kw), want, f"arguments read back from {text!r}")
  defaults = {n: p.default for n, p in signature.parameters.items()
              if p.default is not inspect.Parameter.empty}
  shown = set(got_kw)
  if rest:
    # All arguments before them are given by position.
    eq(sorted(shown), sorted(
        n for n, v in want.items()
        if n == "name" and case["name"] or
        n.startswith("kw") and not v == defaults[n]),
       f"arguments shown by name in {text!r}")
    shown.update(names)
  else:
    eq(sorted(shown), sorted(
      n for n, v in want.items()
      if n not in ("self", "rest") and
      not (n in defaults and v == defaults[n])),
       f"arguments shown in {text!r}")
  return (["nt"] if len(want) > 2 and shown else []) + (
      ["wrapped"] if "\n" in text else [])


# ---------------------------------------------------------------------- scopes


def _scope_node(depth):
  if not depth:
    return st.just(["op"])
  sub = st.lists(_scope_node(depth - 1), max_size=3)
  name = st.sampled_from(["a", "b", "lin_x", "c9"])
  return st.one_of(
      st.just(["op"]), st.just(["param"]), st.just(["key"]),
      st.tuples(st.just("call"), name, sub).map(list),
      st.tuples(st.just("call"), name, sub).map(list),
      st.tuples(st.just("go"), name, sub).map(list),
      st.tuples(st.just("named"), name, sub).map(list),
      st.tuples(st.just("named"), st.none(), sub).map(list),
      st.tuples(st.just("scope"), name, sub).map(list))


def scope_strat():
  return st.fixed_dictionaries({
      "body": st.lists(_scope_node(3), min_size=1, max_size=4),
      "on": st.sampled_from([True, True, True, False]),
      "before": st.booleans(), "init": st.booleans()})


class _Scoped(hk.Module):

  def __init__(self, body, name):
    super().__init__(name=name)
    self.body = body

  def __call__(self, x):
    return self.body(x)

  def go(self, x):
    return self.body(x)


def run_scope(case):
  """Operations are labelled with the modules and named calls they run in."""
  want = {}
  on = case["on"]

  def run(body, x, path):
    for node in body:
      k = node[0]
      if k == "op":
        n = len(ops) + 1
        ops.append(n)
        want[float(n)] = "/".join(path)
        x = x + float(n)
      elif k == "param":
        x = x * hk.get_parameter(f"p{len(ops)}", [], init=jnp.ones)
      elif k == "key":
        hk.next_rng_key()
      elif k == "scope":
        with hk.experimental.name_scope(unique(node[1])):
          x = run(node[2], x, path)
      elif k == "named":
        def named_body(x, node=node):
          return run(node[2], x, path + [node[1] or "named_body"])
        kw = {"name": node[1]} if node[1] else {}
        x = hk.experimental.named_call(named_body, **kw)(x)
      else:
        name = unique(node[1])
        sub = path + [name] if k == "call" and on else path
        m = _Scoped(lambda x, node=node, sub=sub: run(node[2], x, sub), name)
        x = m(x) if k == "call" else m.go(x)
    return x

  ops, names = [], []

  def unique(name):
    names.append(name)
    return f"{name}_n{len(names)}z"

  def f(x):
    ops.clear()
    names.clear()
    want.clear()
    return run(case["body"], x, [])

  before = hk.experimental.profiler_name_scopes(case["before"])
  try:
    eq(hk.experimental.profiler_name_scopes(enabled=on), case["before"],
       "the previous setting")
    t = hk.transform(f)
    key, x = jax.random.PRNGKey(0), jnp.ones([])
    if case["init"]:
      jaxpr = jax.make_jaxpr(t.init)(key, x).jaxpr
    else:
      params = t.init(key, x)
      jaxpr = jax.make_jaxpr(t.apply)(params, key, x).jaxpr
  finally:
    hk.experimental.profiler_name_scopes(before)
  got = {}
  for e in jaxpr.eqns:
    if str(e.primitive) == "add" and hasattr(e.invars[1], "val"):
      got[float(e.invars[1].val)] = str(e.source_info.name_stack)
  eq(got, want, "labels of operations")
  return ["nt"] if on and any(v.count("/") for v in want.values()) else []


PROP = Prop("P26", [
    Sub("summaries", sum_strat, run_sum, 3000, 30000,
        "more than two recorded calls, at least one of them nested"),
    Sub("graphs", dot_strat, run_dot, 4000, 40000,
        "more than two operations, at least one inside a module"),
    Sub("reprs", repr_strat, run_repr, 6000, 60000,
        "a constructor with at least two arguments, one of them not default"),
    Sub("scopes", scope_strat, run_scope, 800, 10000,
        "profiler scopes on, an operation below several labels"),
])
