"""Random programs over Haiku's core API, run by Haiku and by a plain model.

A program is JSON: class definitions plus a main body of statements.  `HkRun`
interprets it with real Haiku modules; `Model` interprets it with dictionaries,
a naming rule and a chain of split keys.  All values are integers modulo M, so
results are compared exactly.
"""
import collections
import contextlib
import dataclasses
import re
from typing import Any, Optional

from core import HarnessError
import numpy as np

import jax
import jax.numpy as jnp
import haiku as hk

M = 9973
FUEL = 260


class ModelError(Exception):
  """The model predicts that the program is rejected with this error type."""

  def __init__(self, kind, msg):
    super().__init__(msg)
    self.kind = kind


class TooBig(Exception):
  pass


def mixc(x, v, a, b):
  return (x * a + v * b + 1) % M


# ------------------------------------------------------------------ key chain

_SPLIT = {}


def split(key, n):
  """jax.random.split as tuples of ints (memoised)."""
  k = (key, n)
  if k not in _SPLIT:
    if len(_SPLIT) > 20000:
      _SPLIT.clear()
    out = np.asarray(jax.random.split(jnp.array(key, jnp.uint32), n))
    _SPLIT[k] = [tuple(int(v) for v in r) for r in out]
  return _SPLIT[k]


_KEY = {}


def seed_key(seed):
  if seed not in _KEY:
    _KEY[seed] = tuple(int(v) for v in np.asarray(jax.random.PRNGKey(seed)))
  return _KEY[seed]


TWICE = 2         # a hook that calls the next one two times
BAD = 999         # an initialiser that raises
KEYED = 1000      # initialiser numbers from here on draw a key


class KeyChain:

  def __init__(self, key):
    self.key = key
    self.sub = collections.deque()

  def reserve(self, n):
    if n > 0:
      new = split(self.key, n + 1)
      self.key = new[0]
      self.sub.extend(new[1:])

  def next(self):
    if not self.sub:
      self.reserve(1)
    return self.sub.popleft()

  def copy(self):
    c = KeyChain(self.key)
    c.sub = collections.deque(self.sub)
    return c


# ----------------------------------------------------------------------- model


class MInst:

  def __init__(self, cidx):
    self.cidx = cidx
    self.module_name = None
    self.slots = []
    self.subs = set()


def snake(s):
  """CamelCase -> camel_case, independent reading of the documented rule."""
  out = ""
  for i, c in enumerate(s):
    starts = c.isupper() and i and (
        s[i - 1].islower() or s[i - 1].isdigit()
        or s[i - 1].isupper() and i + 1 < len(s) and s[i + 1].islower())
    out += ("_" if starts else "") + c.lower()
  return out


class Model:

  def __init__(self, prog, mode, params, state, seed):
    self.prog = prog
    self.mode = mode
    self.params = {m: dict(b) for m, b in (params or {}).items()}
    self.state = {m: {n: [v, v] for n, v in b.items()}
                  for m, b in (state or {}).items()}
    self.rng = [KeyChain(seed_key(seed)) if seed is not None else None]
    self.stack = []              # (MInst or scope inst, method)
    self.ctx = [(collections.Counter(), set())]
    self.log = []
    self.quiet = 0
    self.in_vmap = 0
    self.fuel = FUEL
    self.getters = {"params": [], "state": []}
    self.creators = {"params": [], "state": []}
    self.icepts = []
    self.instances = []
    self.keys = []
    self.created = []            # fq param names in creation order
    self.used_features = collections.Counter()

  # -- naming
  def canonical(self, name):
    if not re.match(r"^[a-zA-Z_][a-zA-Z0-9_]*$", name):
      raise ModelError("ValueError", "invalid name")
    full = name
    if self.stack:
      inst, method = self.stack[-1]
      pre = {"__call__": "", "__init__": "~/"}.get(method, f"~{method}/")
      full = f"{inst.module_name}/{pre}{name}"
    counters, used = self.ctx[-1]
    m = re.match(r"^(.*)_(\d+)$", full)
    if m:
      base, n = m.group(1), int(m.group(2))
      counters[base] = max(counters[base], n + 1)
      out = f"{base}_{n}"
    else:
      n = counters[full]
      counters[full] += 1
      out = f"{full}_{n}" if n else full
    if out in used:
      raise ModelError("ValueError", "not unique")
    used.add(out)
    if "_" in out:
      self.used_features["suffix"] += 1
    return out

  def bundle(self):
    return self.stack[-1][0].module_name if self.stack else "~"

  @contextlib.contextmanager
  def enter(self, inst, method):
    self.stack.append((inst, method))
    self.ctx.append((collections.Counter(), set()))
    try:
      yield
    finally:
      self.stack.pop()
      self.ctx.pop()

  def notify(self, inst):
    for other, _ in self.stack:
      if other is not inst:
        other.subs.add(inst.module_name)

  # -- primitives
  def note(self, *a):
    if not self.quiet:
      self.log.append(list(a))

  def run_getters(self, which, value, ctx):
    def go(i, v):
      if i == len(self.getters[which]):
        return v
      k, short = self.getters[which][i]
      self.note("getter", k, *ctx)
      if short is True:
        return (v + k) % M
      if short == TWICE:
        first = go(i + 1, (v + k) % M)
        return (first * 3 + go(i + 1, v) * 5 + 1) % M
      return (go(i + 1, (v + k) % M) * 3 + 1) % M
    return go(0, value)

  def run_creators(self, which, k0, ctx):
    def go(i, initv):
      if i == len(self.creators[which]):
        if k0 >= KEYED and not self.in_vmap:
          self.used_features["keyed_init"] += 1
          return (self.next_key()[0] + initv - k0) % M
        if k0 == BAD:
          raise ModelError("Boom", "initialiser fails")
        return initv % M
      k, short = self.creators[which][i]
      self.note("creator", k, *ctx)
      if short is True:
        return k % M
      if short == TWICE:
        first = go(i + 1, initv + k)
        return (first * 5 + go(i + 1, initv) * 3 + 2) % M
      return (go(i + 1, initv + k) * 5 + 2) % M
    return go(0, k0)

  def getctx(self, name):
    b = self.bundle()
    return (f"{b}/{name}", b, name,
            self.stack[-1][0].module_name if self.stack else None)

  def param(self, name, k):
    b = self.bundle()
    if self.mode == "apply" and name not in self.params.get(b, {}):
      raise ModelError("ValueError", f"missing parameter {b}/{name}")
    if name not in self.params.get(b, {}):
      v = self.run_creators("params", k, self.getctx(name))
      self.params.setdefault(b, {})[name] = v
      self.created.append(f"{b}/{name}")
    else:
      self.used_features["param_reuse"] += 1
    return self.run_getters("params", self.params[b][name], self.getctx(name))

  def gstate(self, name, k):
    b = self.bundle()
    if name not in self.state.get(b, {}):
      if k is None:
        raise ModelError("ValueError", "state has no value")
      v = self.run_creators("state", k, self.getctx(name))
      self.state.setdefault(b, {})[name] = [v, v]
    v = self.state[b][name][1]
    return self.run_getters("state", v, self.getctx(name))

  def sstate(self, name, v):
    bun = self.state.setdefault(self.bundle(), {})
    if name in bun:
      bun[name][1] = v
      self.used_features["state_update"] += 1
    else:
      bun[name] = [v, v]

  def next_key(self):
    if self.rng[-1] is None:
      raise ModelError("ValueError", "no rng")
    k = self.rng[-1].next()
    self.keys.append(k)
    return k

  # -- modules
  def icept(self, inst, method, x, call):
    cname = self.prog["classes"][inst.cidx]["name"]
    if self.prog["classes"][inst.cidx]["flavor"] == "to_module":
      return call(x)

    def go(i, x):
      if i == len(self.icepts):
        return call(x)
      k, short = self.icepts[i]
      self.note("icept", k, cname, method,
                None if method == "__init__" else inst.module_name)
      if method == "__init__":
        return go(i + 1, x)
      if short is True:
        return call((x + k) % M)
      if short == TWICE:
        first = go(i + 1, (x + k) % M)
        return (first * 7 + go(i + 1, x) * 3 + 1) % M
      return (go(i + 1, (x + k) % M) * 7 + 1) % M
    return go(0, x)

  def new(self, cidx, name):
    c = self.prog["classes"][cidx]
    inst = MInst(cidx)

    def ctor(_):
      # During construction the caller's context names the module.
      top = self.stack.pop()
      ctx = self.ctx.pop()
      try:
        inst.module_name = self.canonical(
            name if name is not None else
            (c["name"] if c["flavor"] == "to_module" else snake(c["name"])))
      finally:
        self.stack.append(top)
        self.ctx.append(ctx)
      if c["flavor"] != "to_module":
        self.body(c["ctor"], 1, [], inst, "__init__")
      return 0

    with self.enter(inst, "__init__"):
      self.icept(inst, "__init__", 0, ctor)
      self.notify(inst)
    if not self.quiet:
      self.instances.append(inst)
    return inst

  def call(self, inst, method, x, arg=None):
    c = self.prog["classes"][inst.cidx]
    if method == "use":
      run = lambda x: self.call(arg[0], arg[1], x)
    elif method in c.get("transparent", ()) or method in STATIC:
      # Runs in the scope of the caller.
      return self.body(c["methods"][method], x, [], inst, method)
    elif c["flavor"] == "super" and method.rstrip("=~") not in PROPERTIES:
      # The override runs the first half of the body, super()'s method, which is
      # a method call of its own, the rest.
      first, rest = halves(c["methods"][method])

      def run(x):
        x = self.body(first, x, [], inst, method)
        with self.enter(inst, method):
          out = self.icept(inst, method, x, lambda x: self.body(
              rest, x, [], inst, method))
          self.notify(inst)
        return out
    else:
      run = lambda x: self.body(c["methods"][method], x, [], inst, method)
    shown = method.rstrip("=~")
    with self.enter(inst, shown):
      if shown in PROPERTIES:
        out = self.icept_property(inst, shown, x, run)
      else:
        out = self.icept(inst, method, x, run)
      self.notify(inst)
    return out

  def icept_property(self, inst, method, x, call):
    cname = self.prog["classes"][inst.cidx]["name"]
    for k, short in self.icepts:
      self.note("icept", k, cname, method, inst.module_name)
      if short is True:
        break
    return call(x)

  # -- statements
  def body(self, stmts, x, env, self_inst, method):
    for s in stmts:
      x = self.stmt(s, x, env, self_inst, method)
    return x

  def stmt(self, s, x, env, me, method):
    self.fuel -= 1
    if self.fuel < 0:
      raise TooBig()
    op = s[0]
    if op == "p":
      return mixc(x, self.param(s[1], s[2]), 3, 5)
    if op == "g":
      return mixc(x, self.gstate(s[1], s[2]), 5, 3)
    if op == "s":
      self.sstate(s[1], 11 if self.in_vmap else x)
      return x
    if op == "r":
      k = self.next_key()
      return mixc(mixc(x, k[0] % M, 7, 1), k[1] % M, 7, 1)
    if op == "rs":
      ks = [self.next_key() for _ in range(s[1])] if self._take(s[1]) else []
      for k in ks:
        x = mixc(mixc(x, k[0] % M, 7, 1), k[1] % M, 7, 1)
      return x
    if op == "mr":
      if self.rng[-1] is None:
        return mixc(x, 17, 3, 1)
      return self.stmt(["r"], x, env, me, method)
    if op == "res":
      if self.rng[-1] is None:
        raise ModelError("ValueError", "no rng")
      self.rng[-1].reserve(s[1])
      return x
    if op == "n":
      inst = self.new(s[1], s[2])
      (me.slots if method == "__init__" and me is not None else env).append(
          inst)
      return x
    if op == "c":
      inst, meth = resolve(self.prog, s, env, me, method)
      if inst is None:
        return x
      self.used_features["call"] += 1
      return self.call(inst, meth, x)
    if op == "use":
      a, b, meth = resolve_pair(self.prog, s, env, me)
      if a is None:
        return x
      self.used_features["use"] += 1
      return self.call(a, "use", x, (b, meth))
    if op == "m":
      meth = resolve_self(self.prog, s, me, method)
      if meth is None:
        return x
      self.used_features["self_call"] += 1
      return self.call(me, meth, x)
    if op == "sc":
      if not s[1] or s[1][0] == "/":
        raise ModelError("ValueError", "bad scope")
      with contextlib.ExitStack() as st:
        scope = None
        for part in s[1].split("/"):
          scope = MInst(None)
          scope.module_name = self.canonical(part)
          self.notify(scope)
          st.enter_context(self.enter(scope, "__call__"))
      self.used_features["scope"] += 1
      with self.enter(scope, "__call__"):
        return self.body(s[2], x, env, me, method if method != "__init__"
                         else "__scope__")
    if op == "rng":
      self.rng.append(KeyChain(seed_key(s[1])))
      try:
        return self.body(s[2], x, env, me, method)
      finally:
        self.rng.pop()
    if op in ("getter", "creator"):
      stacks = self.getters if op == "getter" else self.creators
      on = [w for w, f in (("params", s[2] & 1), ("state", s[2] & 2)) if f]
      for w in on:
        stacks[w].append((s[1], s[3]))
      try:
        return self.body(s[4], x, env, me, method)
      finally:
        for w in on:
          stacks[w].pop()
    if op == "icept":
      self.icepts.append((s[1], s[2]))
      try:
        return self.body(s[3], x, env, me, method)
      finally:
        self.icepts.pop()
    if op == "boom":
      raise ModelError("Boom", "injected")
    if op == "try":
      # Body may fail part-way; the exception is caught inside the function.
      try:
        return self.body(s[1], x, env, me, method)
      except ModelError:
        return mixc(x, 23, 3, 1)
    if op == "yield":
      return x
    if op == "pd":
      # Asking a module for its dictionary is itself a method call that makes it
      # a submodule of the callers, so methods only ask about themselves.
      avail = list(env) if me is None else [
          me] if method not in self.prog["classes"][me.cidx].get(
              "transparent", ()) and method not in STATIC else []
      if not avail:
        return x
      inst = avail[s[1] % len(avail)]
      self.used_features["pd"] += 1
      return digest(x, self.tree_dict(inst, s[2]))
    if op == "inner":
      return mixc(x, model_inner(self.prog["inners"][s[1]], s[2]), 3, 1)
    return self.wrapper(op, s, x, env, me, method)

  def _take(self, n):
    if self.rng[-1] is None:
      raise ModelError("ValueError", "no rng")
    self.rng[-1].reserve(max(n - len(self.rng[-1].sub), 0))
    return True

  # -- control flow and function transforms
  def wrapper(self, op, s, x, env, me, method):
    self.quiet += 1
    self.used_features["wrap_" + op] += 1
    run = lambda b, x: self.body(b, x, env, me, method)
    init = self.mode == "init"
    if self.in_vmap and op in ("cond", "oldcond", "switch", "while", "vmap"):
      raise TooBig()   # would batch the state: outside hk.vmap's domain
    try:
      if op in ("jit", "remat", "named"):
        return run(s[1], x)
      if op == "scan":
        n, rev, b = s[1], s[2], s[3]
        if n == 0:
          if init:
            # One abstract step creates parameters/state; result is discarded.
            run(b, (x + 0) % M)
          return mixc(x, 0, 3, 1)
        ys = [None] * n
        for t in (reversed(range(n)) if rev else range(n)):
          x = run(b, (x + t) % M)
          ys[t] = (x * 2) % M
        tot = 0
        for i, y in enumerate(ys):
          tot = (tot + (i + 1) * y) % M
        return mixc(x, tot, 3, 1)
      if op == "fori":
        lo, n, b = s[1], s[2], s[3]
        # During init the body always runs once, to create what it uses.
        for t in range(lo, lo + (max(n, 1) if init else n)):
          x = run(b, (x + t) % M)
        return x
      if op == "while":
        if init:
          return run(s[2], x)
        for _ in range(s[1]):
          x = run(s[2], x)
        return x
      if op in ("cond", "oldcond"):
        if init:
          for b in (s[2], s[3]):
            x = run(b, x)
          return x
        taken = bool(x % 2) != bool(s[1])
        if op == "oldcond":
          x = (x + 1) % M if taken else (x + 2) % M
        return run(s[2] if taken else s[3], x)
      if op == "switch":
        if init:
          for b in s[1]:
            x = run(b, x)
          return x
        return run(s[1][min(x % (len(s[1]) + 1), len(s[1]) - 1)], x)
      if op == "eshape":
        saved = (
            {m: dict(b) for m, b in self.params.items()},
            {m: {n: list(v) for n, v in b.items()}
             for m, b in self.state.items()},
            [r.copy() if r else None for r in self.rng], list(self.keys),
            list(self.created))
        run(s[1], x)
        (self.params, self.state, self.rng, self.keys, self.created) = saved
        return x
      if op == "vmap":
        self.in_vmap += 1
        outs = []
        try:
          p0 = None
          for i in range(s[1]):
            snap = (
                {m: dict(b) for m, b in self.params.items()},
                {m: {n: list(v) for n, v in b.items()}
                 for m, b in self.state.items()},
                [r.copy() if r else None for r in self.rng],
                list(self.keys), list(self.created))
            if i == s[1] - 1:
              outs.append(run(s[2], (x + i) % M))
            else:
              outs.append(run(s[2], (x + i) % M))
              (self.params, self.state, self.rng, self.keys,
               self.created) = snap
          del p0
        finally:
          self.in_vmap -= 1
        tot = 0
        for i, y in enumerate(outs):
          tot = (tot + (i + 1) * y) % M
        return tot
    finally:
      self.quiet -= 1
    raise HarnessError(f"unknown statement {s}")

  def tree_dict(self, inst, which):
    src = self.final_params() if which == "params" else self.final_state(False)
    me = inst.module_name
    return {f"{m}/{n}": v for m, b in src.items()
            if m == me or m.startswith(me + "/") or m in inst.subs
            for n, v in b.items()}

  # -- top level
  def run(self, x):
    x = self.body(self.prog["main"], x, self.env0(), None, None)
    return x

  def env0(self):
    self.env = []
    return self.env

  def final_state(self, initial):
    return {m: {n: v[0 if initial else 1] for n, v in b.items()}
            for m, b in self.state.items() if b}

  def final_params(self):
    return {m: dict(b) for m, b in self.params.items() if b}


def resolve(prog, s, env, me, method):
  avail = list(env) + (list(me.slots) if me is not None else [])
  if not avail:
    return None, None
  inst = avail[s[1] % len(avail)]
  names = list(prog["classes"][inst.cidx]["methods"])
  return inst, names[s[2] % len(names)]


def resolve_pair(prog, s, env, me):
  avail = list(env) + (list(me.slots) if me is not None else [])
  avail_use = [a for a in avail
               if prog["classes"][a.cidx]["flavor"] != "to_module"]
  if not avail_use or len(avail) < 2:
    return None, None, None
  b = avail[s[2] % len(avail)]
  names = list(prog["classes"][b.cidx]["methods"])
  k = s[3] if len(s) > 3 else 0
  return avail_use[s[1] % len(avail_use)], b, names[k % len(names)]


def resolve_self(prog, s, me, method):
  if me is None or method is None:
    return None
  c = prog["classes"][me.cidx]
  if c["flavor"] == "to_module":
    return None
  names = list(c["methods"])
  if method not in names:
    return None
  later = names[names.index(method) + 1:]
  later = [n for n in later]
  return later[s[1] % len(later)] if later else None


def digest(x, d):
  for k in sorted(d):
    x = mixc(x, d[k], 3, 1 + len(k) + sum(map(ord, k)) % 97)
  return mixc(x, len(d), 3, 1)


def model_inner(prog, seed):
  mi = Model(prog, "init", {}, {}, seed)
  mi.run(seed + 2)
  ma = Model(prog, "apply", mi.final_params(), mi.final_state(True), seed + 1)
  out = ma.run(seed + 3)
  tot = out
  for tree in (mi.final_params(), mi.final_state(True), ma.final_state(False)):
    for m in sorted(tree):
      for n in sorted(tree[m]):
        tot = (tot * 3 + tree[m][n] + len(m) + len(n)) % M
  return tot


def hk_inner(prog, seed, on_yield=None):
  run = HkRun(prog, on_yield)
  f = hk.transform_with_state(run.main)
  p, s0 = f.init(jax.random.PRNGKey(seed), seed + 2)
  out, s1 = f.apply(p, s0, jax.random.PRNGKey(seed + 1), seed + 3)
  tot = out
  for tree in (p, s0, s1):
    for m in sorted(tree):
      for n in sorted(tree[m]):
        tot = (tot * 3 + tree[m][n] + len(m) + len(n)) % M
  return tot


# ------------------------------------------------------------------------ haiku


class Boom(Exception):
  """Injected failure."""


class Interrupt(KeyboardInterrupt):
  """Injected failure that is no Exception."""


def build_classes(prog, run):
  """Real hk.Module classes for the program's class definitions."""
  out = []
  for cidx, c in enumerate(prog["classes"]):
    out.append(_build_class(prog, run, cidx, c))
  return out


# Methods of these names are properties ("rate=" is the setter of "rate", "rate~"
# its deleter) and static methods.
PROPERTIES = ("rate",)
STATIC = ("stat",)


def halves(stmts):
  h = (len(stmts) + 1) // 2
  return stmts[:h], stmts[h:]


def make_property(run, methods, name):
  """A property whose value and assignment run the program's bodies."""
  def fget(self):
    return run.body(methods[name], self.passed, [], self, name)

  def fset(self, x):
    self.passed = run.body(methods[name + "="], x, [], self, name + "=")

  def fdel(self):
    self.passed = run.body(methods[name + "~"], self.passed, [], self,
                           name + "~")

  return property(fget if name in methods else None,
                  fset if name + "=" in methods else None,
                  fdel if name + "~" in methods else None)


def _build_class(prog, run, cidx, c):
  if c["flavor"] == "to_module":
    def fn(x):
      return run.body(c["methods"]["__call__"], x, [], run.cur_tm[-1],
                      "__call__")
    fn.__name__ = c["name"]
    cls = hk.to_module(fn)
    return cls

  ns = {"_vm": True, "cidx": cidx}

  def make(mname):
    def method(self, x):
      return run.body(c["methods"][mname], x, [], self, mname)
    method.__name__ = mname
    if mname in c.get("transparent", ()):
      method = hk.transparent(method)
    return method

  for mname in c["methods"]:
    if mname in STATIC:
      ns[mname] = staticmethod(
          lambda self, x, b=c["methods"][mname], m=mname:
          run.body(b, x, [], self, m))
    elif mname.rstrip("=~") not in PROPERTIES:
      ns[mname] = make(mname)
  for mname in PROPERTIES:
    if any(mname + m in c["methods"] for m in ("", "=", "~")):
      ns[mname] = make_property(run, c["methods"], mname)

  def use(self, x, other, meth):
    del self
    return run.call(other, meth, x)
  ns["use"] = use

  if c["flavor"] == "dataclass":
    def post(self):
      hk.Module.__init__(self)
      self.slots = []
      run.body(c["ctor"], jnp.int32(1), [], self, "__init__")
    ns["__post_init__"] = post
    ns["__annotations__"] = {"k": int, "name": Optional[str]}
    ns["k"] = 3
    ns["name"] = None
    cls = type(hk.Module)(c["name"], (hk.Module,), ns)
    return dataclasses.dataclass(eq=False, repr=False)(cls)

  if c["flavor"] == "super":
    base_ns, sub_ns = dict(ns), {}

    def split(mname):
      first, rest = halves(c["methods"][mname])

      def below(self, x):
        return run.body(rest, x, [], self, mname)

      def above(self, x):
        x = run.body(first, x, [], self, mname)
        return getattr(super(sub, self), mname)(x)

      below.__name__ = above.__name__ = mname
      base_ns[mname], sub_ns[mname] = below, above

    for mname in c["methods"]:
      if (mname.rstrip("=~") not in PROPERTIES and mname not in STATIC
          and mname not in c.get("transparent", ())):
        split(mname)

    def binit(self, name=None):
      super(base, self).__init__(name=name)
      self.slots = []

    def sinit(self, name=None):
      super(sub, self).__init__(name=name)
      run.body(c["ctor"], jnp.int32(1), [], self, "__init__")
    base_ns["__init__"], sub_ns["__init__"] = binit, sinit
    base = type(hk.Module)(c["name"] + "Base", (hk.Module,), base_ns)
    sub = type(hk.Module)(c["name"], (base,), sub_ns)
    return sub

  if c["flavor"] == "inherit":
    base_ns = {k: v for k, v in ns.items()}

    def binit(self, name=None):
      super(base, self).__init__(name=name)
      self.slots = []
      run.body(c["ctor"], jnp.int32(1), [], self, "__init__")
    base_ns["__init__"] = binit
    base = type(hk.Module)(c["name"] + "Base", (hk.Module,), base_ns)
    return type(hk.Module)(c["name"], (base,), {})

  def init(self, name=None):
    hk.Module.__init__(self, name=name)
    self.slots = []
    run.body(c["ctor"], jnp.int32(1), [], self, "__init__")
  ns["__init__"] = init
  return type(hk.Module)(c["name"], (hk.Module,), ns)


def make_init(run, k):
  """A constant, or from KEYED on a function of the next key."""
  if k == BAD:
    def bad(shape, dtype):
      raise Boom("initialiser fails")
    return bad
  if k < KEYED or run.in_vmap:
    return lambda shape, dtype: jnp.full(shape, k % M, dtype)

  def init(shape, dtype):
    key = hk.next_rng_key()
    if not run.quiet:
      run.keys.append(tuple(int(v) for v in np.asarray(key))
                      if not isinstance(key, jax.core.Tracer) else None)
    return jnp.broadcast_to((key[0] % jnp.uint32(M)).astype(dtype), shape)
  return init


class HkRun:
  """Interprets the program with Haiku; one object per traced execution."""

  def __init__(self, prog, on_yield=None):
    self.prog = prog
    self.log = []
    self.quiet = 0
    self.in_vmap = 0
    self.cur_tm = []
    self.keys = []
    self.instances = []
    self.on_yield = on_yield
    self.classes = build_classes(prog, self)

  def note(self, *a):
    if not self.quiet:
      self.log.append(list(a))

  def main(self, x):
    env = []
    self.env = env
    return self.body(self.prog["main"], jnp.asarray(x, jnp.int32), env, None,
                     None)

  def body(self, stmts, x, env, me, method):
    for s in stmts:
      x = self.stmt(s, x, env, me, method)
    return x

  def new(self, cidx, name):
    cls = self.classes[cidx]
    inst = cls() if name is None else cls(name=name)
    if not hasattr(inst, "cidx"):
      inst.cidx = cidx
      inst.slots = []
    if not self.quiet:
      self.instances.append(inst)
    return inst

  def call(self, inst, method, x):
    c = self.prog["classes"][inst.cidx]
    if c["flavor"] == "to_module":
      self.cur_tm.append(inst)
      try:
        return inst(x)
      finally:
        self.cur_tm.pop()
    if method == "__call__":
      return inst(x)
    if method in STATIC:
      return getattr(inst, method)(inst, x)
    if method.rstrip("=~") not in PROPERTIES:
      return getattr(inst, method)(x)
    # Values go in and out of properties through the instance.
    if method.endswith("="):
      setattr(inst, method[:-1], x)
      out = inst.passed
    elif method.endswith("~"):
      inst.passed = x
      delattr(inst, method[:-1])
      out = inst.passed
    else:
      inst.passed = x
      out = getattr(inst, method)
    inst.__dict__.pop("passed", None)
    return out

  def usekey(self, k, x):
    if not self.quiet:
      self.keys.append(tuple(int(v) for v in np.asarray(k))
                       if not isinstance(k, jax.core.Tracer) else None)
    k = k % jnp.uint32(M)
    k = k.astype(jnp.int32)
    return mixc(mixc(x, k[0], 7, 1), k[1], 7, 1)

  def stmt(self, s, x, env, me, method):
    op = s[0]
    if op == "p":
      return mixc(x, hk.get_parameter(s[1], [], jnp.int32,
                                      init=make_init(self, s[2])), 3, 5)
    if op == "g":
      if s[2] is None:
        v = hk.get_state(s[1])
      else:
        v = hk.get_state(s[1], [], jnp.int32, init=make_init(self, s[2]))
      return mixc(x, v, 5, 3)
    if op == "s":
      hk.set_state(s[1], jnp.int32(11) if self.in_vmap else x)
      return x
    if op == "r":
      return self.usekey(hk.next_rng_key(), x)
    if op == "rs":
      for k in hk.next_rng_keys(s[1]):
        x = self.usekey(k, x)
      return x
    if op == "mr":
      k = hk.maybe_next_rng_key()
      return mixc(x, 17, 3, 1) if k is None else self.usekey(k, x)
    if op == "res":
      hk.reserve_rng_keys(s[1])
      return x
    if op == "n":
      inst = self.new(s[1], s[2])
      (me.slots if method == "__init__" and me is not None else env).append(
          inst)
      return x
    if op == "c":
      inst, meth = resolve(self.prog, s, env, me, method)
      return x if inst is None else self.call(inst, meth, x)
    if op == "use":
      a, b, meth = resolve_pair(self.prog, s, env, me)
      return x if a is None else a.use(x, b, meth)
    if op == "m":
      meth = resolve_self(self.prog, s, me, method)
      return x if meth is None else self.call(me, meth, x)
    if op == "sc":
      with hk.experimental.name_scope(s[1]):
        return self.body(s[2], x, env, me, method if method != "__init__"
                         else "__scope__")
    if op == "rng":
      with hk.with_rng(jax.random.PRNGKey(s[1])):
        return self.body(s[2], x, env, me, method)
    if op == "getter":
      k, flags, short = s[1], s[2], s[3]
      def getter(nxt, value, ctx):
        self.note("getter", k, ctx.full_name, ctx.module_name, ctx.name,
                  ctx.module.module_name if ctx.module is not None else None)
        if short is True:
          return (value + k) % M
        if short == TWICE:
          first = nxt((value + k) % M)
          return (first * 3 + nxt(value) * 5 + 1) % M
        return (nxt((value + k) % M) * 3 + 1) % M
      with hk.experimental.custom_getter(getter, params=bool(flags & 1),
                                         state=bool(flags & 2)):
        return self.body(s[4], x, env, me, method)
    if op == "creator":
      k, flags, short = s[1], s[2], s[3]
      def creator(nxt, shape, dtype, init, ctx):
        self.note("creator", k, ctx.full_name, ctx.module_name, ctx.name,
                  ctx.module.module_name if ctx.module is not None else None)
        if short is True:
          return jnp.full(shape, k % M, dtype)
        new_init = lambda s_, d_: init(s_, d_) + k
        if short == TWICE:
          first = nxt(shape, dtype, new_init)
          return (first * 5 + nxt(shape, dtype, init) * 3 + 2) % M
        return (nxt(shape, dtype, new_init) * 5 + 2) % M
      with hk.experimental.custom_creator(creator, params=bool(flags & 1),
                                          state=bool(flags & 2)):
        return self.body(s[4], x, env, me, method)
    if op == "icept":
      k, short = s[1], s[2]
      def icept(nxt, args, kwargs, ctx):
        tm = not getattr(type(ctx.module), "_vm", False)
        if tm:
          return nxt(*args, **kwargs)
        name = None
        if ctx.method_name != "__init__":
          name = ctx.module.module_name
        self.note("icept", k, type(ctx.module).__name__, ctx.method_name, name)
        if ctx.method_name == "__init__":
          return nxt(*args, **kwargs)
        if ctx.method_name in PROPERTIES:
          return (ctx.orig_method if short is True else nxt)(*args, **kwargs)
        plain = args
        args = ((args[0] + k) % M,) + tuple(args[1:])
        if short is True:
          return ctx.orig_method(*args, **kwargs)
        if short == TWICE:
          first = nxt(*args, **kwargs)
          return (first * 7 + nxt(*plain, **kwargs) * 3 + 1) % M
        return (nxt(*args, **kwargs) * 7 + 1) % M
      with hk.experimental.intercept_methods(icept):
        return self.body(s[3], x, env, me, method)
    if op == "boom":
      # Sometimes the kind of exception Ctrl-C raises.
      raise (Interrupt if s[1] == 2 else Boom)("injected")
    if op == "try":
      try:
        return self.body(s[1], x, env, me, method)
      except (Boom, Interrupt, ValueError):
        return mixc(x, 23, 3, 1)
    if op == "yield":
      if self.on_yield is not None:
        self.on_yield()
      return x
    if op == "pd":
      # Asking a module for its dictionary is itself a method call that makes it
      # a submodule of the callers, so methods only ask about themselves.
      avail = list(env) if me is None else [
          me] if method not in self.prog["classes"][me.cidx].get(
              "transparent", ()) and method not in STATIC else []
      if not avail:
        return x
      inst = avail[s[1] % len(avail)]
      return digest(x, inst.params_dict() if s[2] == "params"
                    else inst.state_dict())
    if op == "inner":
      return mixc(x, hk_inner(self.prog["inners"][s[1]], s[2],
                              self.on_yield), 3, 1)
    return self.wrapper(op, s, x, env, me, method)

  def wrapper(self, op, s, x, env, me, method):
    self.quiet += 1
    run = lambda b, x: self.body(b, x, env, me, method)
    try:
      if op == "jit":
        return hk.jit(lambda x: run(s[1], x))(x)
      if op == "remat":
        return hk.remat(lambda x: run(s[1], x))(x)
      if op == "named":
        return hk.experimental.named_call(lambda x: run(s[1], x), name="nc")(x)
      if op == "scan":
        n, rev, b = s[1], s[2], s[3]
        def f(c, t):
          c = run(b, (c + t) % M)
          return c, (c * 2) % M
        kw = {}
        if rev:
          kw["reverse"] = True
        if len(s) > 4 and s[4]:
          kw["unroll"] = s[4]
        if len(s) > 5 and s[5]:
          kw["length"] = n
        x, ys = hk.scan(f, x, jnp.arange(n, dtype=jnp.int32), **kw)
        tot = jnp.int32(0)
        if ys.shape != (n,):
          raise ValueError(f"scan output has shape {ys.shape}, length {n}")
        for i in range(n):
          tot = (tot + (i + 1) * ys[i]) % M
        return mixc(x, tot, 3, 1)
      if op == "fori":
        lo, n, b = s[1], s[2], s[3]
        return hk.fori_loop(lo, lo + n, lambda t, x: run(b, (x + t) % M), x)
      if op == "while":
        if hk.running_init():
          return run(s[2], x)
        _, x = hk.while_loop(lambda c: c[0] < s[1],
                             lambda c: (c[0] + 1, run(s[2], c[1])),
                             (jnp.int32(0), x))
        return x
      if op in ("cond", "oldcond"):
        if hk.running_init():
          for b in (s[2], s[3]):
            x = run(b, x)
          return x
        pred = (x % 2 == 1) != bool(s[1])
        if op == "oldcond":
          return hk.cond(pred, (x + 1) % M, lambda x: run(s[2], x),
                         (x + 2) % M, lambda x: run(s[3], x))
        return hk.cond(pred, lambda x: run(s[2], x), lambda x: run(s[3], x), x)
      if op == "switch":
        if hk.running_init():
          for b in s[1]:
            x = run(b, x)
          return x
        return hk.switch(x % (len(s[1]) + 1),
                         [lambda x, b=b: run(b, x) for b in s[1]], x)
      if op == "eshape":
        out = hk.eval_shape(lambda x: run(s[1], x), x)
        if tuple(out.shape) != () or out.dtype != jnp.int32:
          raise ValueError(f"eval_shape gave {out}")
        return x
      if op == "vmap":
        self.in_vmap += 1
        try:
          outs = hk.vmap(lambda x: run(s[2], x))(
              (x + jnp.arange(s[1], dtype=jnp.int32)) % M)
        finally:
          self.in_vmap -= 1
        tot = jnp.int32(0)
        if outs.shape != (s[1],):
          raise ValueError(f"vmap output has shape {outs.shape}")
        for i in range(s[1]):
          tot = (tot + (i + 1) * outs[i]) % M
        return tot
    finally:
      self.quiet -= 1
    raise HarnessError(f"unknown statement {s}")


# ------------------------------------------------------------------- generation


def programs(st, *, ops, names=(None, None, "foo", "foo_1", "bar", "Foo",
                                "foo_0", "x1_2"),
             max_classes=3, max_stmts=4, max_main=6, depth=2,
             flavors=("plain", "plain", "dataclass", "inherit", "super",
                      "to_module"),
             class_names=("Foo", "MyMod", "ABCNet", "Conv2DBlock"),
             method_names=("go", "fwd_2", "_priv", "rate", "rate=", "rate~",
                           "stat"), transparent=True, wrap_ops=(),
             ctor_ops=None, scopes=("sc", "a/b", "foo", "sc_1", "x/y/z/t"),
             boom_anywhere=False, wrap_res=False, keyed=False):
  """Strategy of programs.  `ops`: statement kinds with weights (repetition)."""
  pnames = ("w", "b", "w_1", "scale")
  snames = ("s", "t")

  @st.composite
  def body(draw, lo_cls, ncls, d, allowed, maxn, in_wrap=False, in_try=False,
           lo=0):
    out = []
    for _ in range(draw(st.integers(lo if d < depth else max(1, lo), maxn))):
      op = draw(st.sampled_from(allowed))
      if in_wrap and op in ("n", "sc", "try", "boom"):
        op = "p"
      if in_wrap and op == "res" and not wrap_res:
        op = "p"
      if op == "boom" and not (in_try or boom_anywhere):
        op = "try"
      if op in ("pb", "gb") and (in_wrap or not (in_try or boom_anywhere)):
        op = op[0]
      out.append(draw(stmt(op, lo_cls, ncls, d, allowed, maxn, in_wrap,
                           in_try)))
    return out

  @st.composite
  def stmt(draw, op, lo, ncls, d, allowed, maxn, in_wrap, in_try):
    k = draw(st.integers(0, 50 if keyed else 40))
    k = k if k <= 40 else k - 41 + KEYED
    nested = [o for o in allowed]
    sub = lambda w=in_wrap, t=in_try, mn=0, mx=2: draw(
        body(lo, ncls, d - 1, nested, mx, w, t, mn))
    if op == "n":
      if lo >= ncls:
        return ["p", draw(st.sampled_from(pnames)), k]
      return ["n", draw(st.integers(lo, ncls - 1)),
              draw(st.sampled_from(names)), 0]
    if op == "p":
      return ["p", draw(st.sampled_from(pnames)), k]
    if op == "g":
      return ["g", draw(st.sampled_from(snames)), k]
    if op in ("pb", "gb"):
      return [op[0], draw(st.sampled_from(pnames if op == "pb" else snames)),
              BAD]
    if op == "g?":
      return ["g", draw(st.sampled_from(snames)), None]
    if op == "s":
      return ["s", draw(st.sampled_from(snames))]
    if op == "boom":
      return [op, draw(st.integers(0, 2))]
    if op in ("r", "mr", "yield"):
      return [op]
    if op == "rs":
      return ["rs", draw(st.integers(0, 4))]
    if op == "res":
      return ["res", draw(st.integers(0, 4))]
    if op == "pd":
      return ["pd", draw(st.integers(0, 5)),
              draw(st.sampled_from(["params", "state"]))]
    if op == "use":
      return [op, draw(st.integers(0, 5)), draw(st.integers(0, 5)),
              draw(st.sampled_from([0, 0, 1, 2, 3]))]
    if op == "c":
      return [op, draw(st.integers(0, 5)), draw(st.integers(0, 5))]
    if op == "m":
      return ["m", draw(st.integers(0, 3))]
    if d <= 0:
      return ["p", draw(st.sampled_from(pnames)), k]
    if op == "sc":
      return ["sc", draw(st.sampled_from(scopes)), sub()]
    if op == "rng":
      return ["rng", draw(st.integers(0, 3)), sub()]
    if op in ("getter", "creator"):
      return [op, draw(st.integers(1, 9)),
              draw(st.sampled_from([1, 1, 2, 3, 3, 0])),
              draw(st.sampled_from([False, False, False, True, TWICE])),
              sub(mn=1, mx=3)]
    if op == "icept":
      return [op, draw(st.integers(1, 9)),
              draw(st.sampled_from([False, False, False, True, TWICE])),
              sub(mn=1, mx=3)]
    if op == "try":
      return ["try", sub(t=True, mn=1)]
    if op in ("jit", "remat", "named", "eshape"):
      return [op, sub(True)]
    if op == "scan":
      return ["scan", draw(st.integers(0, 4)), draw(st.booleans()), sub(True),
              draw(st.sampled_from([0, 0, 1, 2])), draw(st.booleans())]
    if op == "fori":
      return ["fori", draw(st.integers(0, 2)),
              draw(st.sampled_from([1, 2, 3, 4, 0, -1])),
              sub(True)]
    if op == "while":
      return ["while", draw(st.integers(0, 4)), sub(True)]
    if op in ("cond", "oldcond"):
      return [op, draw(st.booleans()), sub(True), sub(True)]
    if op == "switch":
      return ["switch", [sub(True)
                         for _ in range(draw(st.integers(1, 3)))]]
    if op == "vmap":
      return ["vmap", draw(st.integers(1, 3)), sub(True)]
    raise HarnessError(op)

  @st.composite
  def program(draw):
    ncls = draw(st.integers(1, max_classes))
    classes = []
    cn = draw(st.permutations(class_names))
    for i in range(ncls):
      flavor = draw(st.sampled_from(flavors))
      ms = {}
      callb = draw(body(i + 1, ncls, depth - 1, ops, max_stmts))
      ms["__call__"] = callb
      trans = []
      if flavor != "to_module":
        for mn in method_names:
          if draw(st.integers(0, 4)) < (2 if mn in ("go", "fwd_2") else 1):
            ms[mn] = draw(body(i + 1, ncls, depth - 1, ops, max_stmts))
            if (transparent and mn in ("go", "fwd_2", "_priv")
                and draw(st.integers(0, 4)) == 0):
              trans.append(mn)
      classes.append({
          "name": cn[i] if flavor != "to_module" else snake(cn[i]) + "_fn",
          "flavor": flavor,
          "ctor": (draw(body(i + 1, ncls, 0,
                             [o for o in (ctor_ops or ops)
                              if o in ("n", "p", "g", "s", "r", "c")] or ["p"],
                             2)) if flavor != "to_module" else []),
          "methods": ms, "transparent": trans})
    # Main creates and calls instances, so that programs are not empty.
    main = [["n", draw(st.integers(0, ncls - 1)),
             draw(st.sampled_from(names)), 0]
            for _ in range(draw(st.sampled_from([1, 1, 2, 3])))]
    main += draw(body(0, ncls, depth, ops, max_main))
    main += [["c", draw(st.integers(0, 3)), draw(st.integers(0, 3))]]
    return {"classes": classes, "main": main}

  return program()


# ----------------------------------------------------------- common comparisons

from core import Violation, check, eq  # noqa: E402


def to_ints(tree, drop_empty=False):
  out = {}
  for m, b in tree.items():
    if drop_empty and not len(b):
      continue
    out[str(m)] = {str(n): int(np.asarray(v)) for n, v in b.items()}
  return out


def to_jnp(tree):
  return {m: {n: jnp.int32(v) for n, v in b.items()} for m, b in tree.items()}


def outcome(fn):
  """(kind, value): kind None when fn returned."""
  try:
    return None, fn()
  except (Boom, Interrupt) as e:
    return "Boom", e
  except ValueError as e:
    return "ValueError", e


def model_outcome(fn):
  try:
    return None, fn()
  except ModelError as e:
    return e.kind, e


def perturb(tree, k):
  return {m: {n: (v * 3 + 7 * k + i) % M
              for i, (n, v) in enumerate(sorted(b.items()))}
          for m, b in tree.items()}


def agree(case, *, applies=2, jit=False, drop_empty=False, seeds=True,
          logs=True):
  """Runs the program under Haiku and the model and compares everything.

  Returns (labels, model of last apply) or (labels, None) when not comparable.
  """
  prog, seed, x = case["prog"], case["seed"], case["x"]
  labels = []
  mi = Model(prog, "init", {}, {}, seed)
  try:
    mk, mv = model_outcome(lambda: mi.run(x))
  except TooBig:
    return ["too-big"], None, None
  run = HkRun(prog)
  f = hk.transform_with_state(run.main)
  key = None if seed is None else jax.random.PRNGKey(seed)
  hkk, hv = outcome(lambda: f.init(key, jnp.int32(x)))
  if mk != hkk:
    raise Violation(f"init: outcome {hkk} ({hv if hkk else ''!s:.300}), "
                    f"expected {mk} ({mv if mk else ''!s:.300})")
  if mk is not None:
    return labels + ["rejected", "rejected:" + mk], None, None
  params, state = hv
  eq(to_ints(params, drop_empty), mi.final_params(), "params from init")
  eq(to_ints(state, drop_empty), mi.final_state(True), "state from init")
  if logs:
    eq(run.log, mi.log, "hook invocations during init")
  eq([i.module_name for i in run.instances],
     [i.module_name for i in mi.instances], "module names")
  for i in run.instances:
    eq(i.name, i.module_name.split("/")[-1], "module .name")
  p, s = mi.final_params(), mi.final_state(True)
  ma = mi
  for k in range(applies):
    p = perturb(p, k)
    sd = (None if seed is None else seed + k) if seeds else seed
    ma = Model(prog, "apply", p, s, sd)
    try:
      mk, mv = model_outcome(lambda: ma.run(x + k))
    except TooBig:
      return ["too-big"], None, None
    run.log, run.keys, run.instances = [], [], []
    key = None if sd is None else jax.random.PRNGKey(sd)
    fn = f.apply
    hkk, hv = outcome(
        lambda: fn(to_jnp(p), to_jnp(s), key, jnp.int32(x + k)))
    if mk != hkk:
      raise Violation(f"apply {k}: outcome {hkk} ({hv if hkk else ''!s:.300}),"
                      f" expected {mk} ({mv if mk else ''!s:.300})")
    if mk is not None:
      return labels + ["apply-rejected"], None, None
    out, s2 = hv
    eq(int(out), mv, f"output of apply {k}")
    eq(to_ints(s2, drop_empty), ma.final_state(False),
       f"state after apply {k}")
    if logs:
      eq(run.log, ma.log, f"hook invocations during apply {k}")
    if jit:
      out_j, s2_j = jax.jit(f.apply)(to_jnp(p), to_jnp(s), key,
                                     jnp.int32(x + k))
      eq(int(out_j), mv, f"output of jitted apply {k}")
      eq(to_ints(s2_j, drop_empty), ma.final_state(False),
         f"state after jitted apply {k}")
    s = ma.final_state(False)
  for feat, c in (mi.used_features + ma.used_features).items():
    if c:
      labels.append(feat)
  return labels, mi, ma
