"""P04: module naming, parameter placement and sharing."""
from core import Prop, Sub, check, eq, raises
import proglib as pl
from hypothesis import strategies as st

OPS = ["p", "p", "n", "n", "n", "c", "c", "c", "m", "sc", "use", "g"]


CLASSES = ("Foo", "MyMod", "ABCNet", "Conv2DBlock", "HTTPServer2", "lower", "A",
           "X1", "VGG16Net", "AB", "ABc", "net2D", "Foo1", "foo_2", "snake_case",
           "aBcDEfG", "R2D2", "X2Y")


def strat():
  return st.fixed_dictionaries({
      "prog": pl.programs(
          st, ops=OPS, class_names=CLASSES,
          names=(None, None, None, "foo", "foo_1", "bar", "Foo", "foo_0",
                 "x1_2", "_q", "foo_02")),
      "seed": st.just(1), "x": st.integers(0, 100)})


def run(case):
  labels, mi, _ = pl.agree(case, applies=1)
  if mi is None:
    return labels
  if len(mi.instances) >= 2 and len(mi.created) >= 2:
    labels.append("nt")
  return labels


# ------------------------------------------------- refused names and recovery
#
# Programs that also do what must be refused (invalid or clashing names, missing
# super constructors, misused name scopes) or raise errors of their own, catch
# the error and go on: everything named afterwards follows the scheme as if the
# attempt had stopped where the error was raised.

TEXT = list("ab_0Z19") + ["/", " ", "-", ".", "~", "\n", "\t", "\u00e9", ""]
GOOD = ("foo", "bar", "foo_1", "foo_0", "foo_2", "_x", "Q", "a1", "foo_02")


def name_text():
  return st.one_of(
      st.sampled_from(GOOD), st.sampled_from(GOOD),
      st.sampled_from(GOOD).flatmap(lambda g: st.tuples(
          st.integers(0, len(g)), st.sampled_from(TEXT)).map(
              lambda t: g[:t[0]] + t[1] + g[t[0]:])),
      st.lists(st.sampled_from(TEXT), max_size=4).map("".join))


def refusal_ops(depth):
  leaf = st.one_of(
      st.tuples(st.just("mod"), st.sampled_from(MAKERS), name_text()),
      st.tuples(st.just("par"), st.sampled_from("pqr")),
      st.tuples(st.just("sta"), st.sampled_from("pqr")),
      st.tuples(st.just("nosuper"), st.sampled_from(("none", "p", "m", "s"))),
      st.tuples(st.just("badscope"),
                st.sampled_from(("", "/a", "a/", "a//b", "a/-", "/"))),
      st.tuples(st.just("reuse"), st.sampled_from(("foo", "s", "s/t"))),
      st.tuples(st.just("reenter"), st.sampled_from(("foo", "s", "s/t"))),
      st.tuples(st.just("badtype"), st.sampled_from(("int", "fn", "list"))))
  if not depth:
    return st.lists(leaf, max_size=3)
  inner = refusal_ops(depth - 1)
  node = st.one_of(
      leaf, leaf,
      st.tuples(st.sampled_from(("call", "meth", "ctor")), st.sampled_from(GOOD),
                inner, st.booleans()),
      st.tuples(st.just("scope"), st.sampled_from(("foo", "s", "s/t", "foo_1")),
                inner, st.booleans()))
  return st.lists(node, max_size=5 if depth > 1 else 4)


MAKERS = ("plain", "sub", "data", "fn", "lift", "scope")


def refusal_strat():
  return st.fixed_dictionaries({
      "ops": refusal_ops(2), "escape": st.booleans(),
      "outside": st.sampled_from(("new", "call", "params", "state", "scope",
                                  "none"))})


class Boom(Exception):
  """Raised by generated programs."""


class Level:
  """The names taken in one run of a scope."""

  def __init__(self, prefix, bundle):
    self.prefix, self.bundle, self.next, self.used = prefix, bundle, {}, set()

  def take(self, name):
    """The full name of a module called `name` here; None if it is refused."""
    if not (name.isascii() and name.isidentifier()):
      return None
    base, _, digits = name.rpartition("_")
    if base and digits.isdigit():
      n = int(digits)
      self.next[base] = max(self.next.get(base, 0), n + 1)
      own = f"{base}_{n}"
    elif digits.isdigit() and name.startswith("_"):
      # "_1": the number of a module with an empty name.
      n = int(digits)
      self.next[""] = max(self.next.get("", 0), n + 1)
      own = f"_{n}"
    else:
      n = self.next.get(name, 0)
      self.next[name] = n + 1
      own = f"{name}_{n}" if n else name
    if own in self.used:
      return None
    self.used.add(own)
    return self.prefix + own


def hk_classes():
  import dataclasses  # pylint: disable=g-import-not-at-top
  import haiku as hk  # pylint: disable=g-import-not-at-top

  class Plain(hk.Module):
    pass

  class Runner(hk.Module):
    """Runs given ops in its constructor or a method."""

    def __init__(self, name, in_ctor=None):
      super().__init__(name=name)
      if in_ctor is not None:
        in_ctor(self)

    def __call__(self, fn):
      return fn(self)

    def meth(self, fn):
      return fn(self)

  class Derived(Runner):

    def __init__(self, name):
      super().__init__(name)
      self.more = 1

  @dataclasses.dataclass
  class Data(hk.Module):
    k: int = 3
    name: str = None

  class NoSuper(hk.Module):

    def __init__(self, what):
      if what == "p":
        hk.get_parameter("w", [], init=hk.initializers.Constant(0.))
      elif what == "m":
        Plain()
      elif what == "s":
        hk.get_state("w", [], init=hk.initializers.Constant(0.))

  def fn():
    return 0
  wrapped = hk.to_module(fn)
  return hk, dict(
      Plain=Plain, Runner=Runner, NoSuper=NoSuper, wrapped=wrapped, fn=fn,
      plain=lambda n: Plain(name=n), sub=lambda n: Derived(n),
      data=lambda n: Data(name=n), fn_=lambda n: wrapped(name=n),
      lift=lambda n: hk.experimental.lift(lambda: {}, name=n))


def run_refusals(case):
  hk, cls = hk_classes()
  labels = set()
  entries = {"params": set(), "state": set()}
  init = hk.initializers.Constant(1.)

  def refuse(fn, types, what):
    labels.add("refused " + what.split(" ")[0])
    raises(fn, types, what)

  def go(ops, lv):
    for op in ops:
      kind = op[0]
      if kind == "mod":
        via, name = op[1], op[2]
        if not name.isascii() and name.isidentifier():
          continue
        make = cls["fn_"] if via == "fn" else cls.get(via)
        if via == "scope":
          if not name or "/" in name:
            continue
          make = hk.experimental.name_scope
        full = lv.take(name)
        if full is None:
          refuse(lambda: make(name), ValueError,
                 f"name {name!r} for a module made by {via}")
          continue
        m = make(name)
        if via != "scope":
          eq(m.module_name, full, f"module_name of {via} named {name!r}")
          eq(m.name, full.split("/")[-1], f"name of {via} named {name!r}")
        labels.add("made " + via)
      elif kind == "par":
        hk.get_parameter(op[1], [], init=init)
        entries["params"].add((lv.bundle, op[1]))
      elif kind == "sta":
        hk.get_state(op[1], [], init=init)
        entries["state"].add((lv.bundle, op[1]))
      elif kind == "nosuper":
        refuse(lambda: cls["NoSuper"](op[1]), ValueError,
               f"no super constructor ({op[1]})")
      elif kind == "badscope":
        name = op[1]
        if name and name[0] != "/":
          # The parts before the bad one are constructed first.
          lv.take(name.split("/")[0])
        refuse(lambda: hk.experimental.name_scope(name), ValueError,
               f"scope {name!r}")
      elif kind in ("reuse", "reenter"):
        full = scope_name(lv, op[1])
        scope = hk.experimental.name_scope(op[1])
        def enter(scope=scope):
          with scope:
            pass
        with scope:
          inner = Level(full + "/", full)
          if kind == "reenter":
            refuse(enter, ValueError, "re-entry of a name scope")
          go([["par", "p"], ["mod", "plain", "foo"]], inner)
        refuse(enter, ValueError, "second use of a name scope")
        labels.add(kind)
      elif kind == "badtype":
        bad = {"int": 3, "fn": cls["fn"], "list": ["foo"]}[op[1]]
        refuse(lambda: cls["wrapped"](bad), TypeError,
               f"type {op[1]} as a name for a to_module class")
      else:
        name, inner_ops, boom = op[1:]
        def body(m, full, prefix):
          if m is not None and hasattr(m, "module_name"):
            eq(m.module_name, full, f"module_name in {kind}")
          go(inner_ops, Level(prefix, full))
          if boom:
            labels.add("raised in " + kind)
            raise Boom
        try:
          if kind == "scope":
            full = scope_name(lv, name)
            if full is None:
              refuse(lambda: hk.experimental.name_scope(name), ValueError,
                     f"scope {name!r} clashing")
              continue
            with hk.experimental.name_scope(name):
              body(None, full, full + "/")
          else:
            full = lv.take(name)
            if full is None:
              refuse(lambda: cls["Runner"](name), ValueError,
                     f"name {name!r} clashing")
              continue
            if kind == "ctor":
              cls["Runner"](name, lambda m: body(m, full, full + "/~/"))
            else:
              m = cls["Runner"](name)
              if kind == "call":
                m(lambda m: body(m, full, full + "/"))
              else:
                m.meth(lambda m: body(m, full, full + "/~meth/"))
          check(not boom, "an error raised in the program disappeared")
        except Boom:
          check(boom, "stray error")

  def scope_name(lv, name):
    parts = name.split("/")
    full = lv.take(parts[0])
    if full is None:
      return None
    return "/".join([full] + parts[1:])

  escape = [case["escape"]]

  def f():
    for s in entries.values():
      s.clear()
    go(case["ops"], Level("", "~"))
    kept.append(cls["Runner"]("zz_end"))
    if escape[0]:
      raise Boom

  kept = []
  t = hk.transform_with_state(f)
  if case["escape"]:
    raises(lambda: t.init(None), Boom, "init of a raising program")
    labels.add("escaped")
    outside(hk, cls, kept, case["outside"], labels)
    escape[0] = False
  params, state = t.init(None)
  for which, tree in (("params", params), ("state", state)):
    have = {(m, n) for m in tree for n in tree[m]}
    eq(have, entries[which], f"{which} after init")
  eq(kept[-1].module_name, "zz_end", "a module created last")
  _, state = t.apply(params, state, None)
  have = {(m, n) for m in state for n in state[m]}
  eq(have, entries["state"], "state after apply")
  eq(kept[-1].module_name, "zz_end", "a module created last")
  outside(hk, cls, kept, case["outside"], labels)
  if any(l.startswith(("refused", "raised")) for l in labels) and any(
      entries.values()):
    labels.add("nt")
  return sorted(labels)


def outside(hk, cls, kept, what, labels):
  if what == "none":
    return
  do = {"new": lambda: cls["Plain"](),
        "call": lambda: kept[-1](lambda m: 0),
        "params": lambda: kept[-1].params_dict(),
        "state": lambda: kept[-1].state_dict(),
        "scope": lambda: hk.experimental.name_scope("s")}[what]
  raises(do, ValueError, f"{what} outside a transform")
  labels.add("outside " + what)


PROP = Prop("P04", [
    Sub("refusals", refusal_strat, run_refusals, 12000, 150000,
        "an attempt refused or an error caught, and an entry created"),
    Sub("names", strat, run, 8000, 100000,
        "at least two modules constructed and two parameters created"),
])
