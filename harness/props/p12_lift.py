"""P12: hk.experimental.lift and the adaptors around transforms."""
import contextlib

from core import Prop, Sub, Violation, check, eq, raises
import proglib as pl
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

LIFT_NAMES = [None, None, "lifted", "lifted_a", "lift", "inner", "in"]
SCOPES = [[], ["s"], ["s", "t"], ["t/u"], ["s_a"]]
OWN = ["lifted_x", "inner_", "other", "lift_b", "s_own"]


THEN = {   # Haiku's own wrappers, around a function that changes nothing
    "jit": lambda v: hk.jit(lambda v: v + 0)(v),
    "remat": lambda v: hk.remat(lambda v: v + 0)(v),
    "cond": lambda v: hk.cond(v > 0, lambda v: v, lambda v: v, v),
    "switch": lambda v: hk.switch(0, [lambda v: v, lambda v: v], v),
    "fori": lambda v: hk.fori_loop(0, 2, lambda i, v: v, v),
    "scan": lambda v: hk.scan(lambda c, _: (c, None), v, None, length=2)[0],
    "named": lambda v: hk.experimental.named_call(lambda v: v, name="named")(v),
}


def lift_strat():
  site = st.fixed_dictionaries({
      "scope": st.sampled_from(SCOPES), "name": st.sampled_from(LIFT_NAMES),
      "prog": st.integers(0, 1), "seed": st.integers(0, 3),
      "own": st.sampled_from([None] + OWN), "nest": st.booleans(),
      "mod": st.booleans(), "kw": st.booleans(),
      "then": st.sampled_from([None] * 4 + sorted(THEN))})
  return st.fixed_dictionaries({
      "progs": st.lists(pl.programs(st, ops=["p", "p", "n", "c", "c", "r"],
                                    max_classes=2, max_stmts=3, max_main=3),
                        min_size=2, max_size=2),
      "sites": st.lists(site, min_size=1, max_size=4),
      "x": st.integers(0, 50), "jit": st.sampled_from([False] * 9 + [True])})


class Host(hk.Module):
  """Calls its argument inside a method, so inside a module's scope."""

  def __call__(self, fn):
    return fn()


def own_param(name):
  return hk.to_module(lambda: hk.get_parameter("w", [], jnp.int32,
                                               init=jnp.ones))(name=name)()


def run_lift(case):
  x = case["x"]
  models = {}
  for s in case["sites"]:
    k = (s["prog"], s["seed"])
    mi = pl.Model(case["progs"][s["prog"]], "init", {}, {}, s["seed"])
    try:
      kind, _ = pl.model_outcome(lambda: mi.run(x))
    except pl.TooBig:
      return ["too-big"]
    if kind is not None:
      return ["rejected"]
    models[k] = mi.final_params()
  names, got, outs = [], [], []

  def outer():
    names.clear(), got.clear()
    res = []
    for s in case["sites"]:
      inner = hk.transform(pl.HkRun(case["progs"][s["prog"]]).main)
      if s["nest"]:
        base = inner
        def f(key, v, base=base):
          p = hk.experimental.lift(base.init, name="deep")(key, v)
          return base.apply(p, key, v)
        inner = hk.transform(lambda key, v, f=f: f(key, v))
      def site(s=s, inner=inner):
        if s["own"]:
          own_param(s["own"])
        key = jax.random.PRNGKey(s["seed"])
        m = (hk.experimental.lift(inner.init) if s["name"] is None else
             hk.experimental.lift(inner.init, name=s["name"]))
        names.append(m.module_name)
        v = jnp.int32(x)
        if s["nest"]:
          p = m(None, key, v)
          out = inner.apply(p, None, key, v)
        else:
          p = m(key, x=v) if s["kw"] else m(key, v)
          out = inner.apply(p, key, v)
        got.append({k: dict(b.items()) for k, b in p.items()})
        return THEN[s["then"]](out) if s["then"] else out
      with contextlib.ExitStack() as stack:
        for sc in s["scope"]:
          stack.enter_context(hk.experimental.name_scope(sc))
        res.append(Host()(site) if s["mod"] else site())
    return res

  def expected():
    per, merged = [], {}
    for s, n in zip(case["sites"], names):
      p = models[(s["prog"], s["seed"])]
      if s["nest"]:
        p = {"deep/" + m: b for m, b in p.items()}
      per.append(p)
      for m, b in p.items():
        merged[n + "/" + m] = b
    return per, merged

  f = hk.transform(outer)
  params = f.init(None)
  eq(len(set(names)), len(names), "names of the lifted modules")
  per, merged = expected()
  for g, w in zip(got, per):
    eq(pl.to_ints(g), w, "lifted params during init")
  flat = pl.to_ints(params)
  for m in merged:
    check(m in flat, f"{m} is not among the outer params {sorted(flat)}")
    eq(flat[m], merged[m], f"outer params of {m}")
  own = {m for m in flat if m not in merged}
  for m in own:
    eq(flat[m], {"w": 1}, f"outer params of {m}")
  eq(len(own), sum(s["own"] is not None for s in case["sites"]),
     f"parameters besides the lifted ones ({sorted(own)})")
  # Other values at apply: each lifted function sees exactly its own.
  new = pl.perturb(flat, 2)
  init_names = list(names)
  out = (jax.jit(f.apply) if case["jit"] else f.apply)(pl.to_jnp(new), None)
  eq(names, init_names, "names during apply")
  for i, (s, n) in enumerate(zip(case["sites"], names)):
    want_p = {m: new[n + "/" + m] for m in per[i]}
    if not case["jit"]:
      eq(pl.to_ints(got[i]), want_p, f"lifted params of {n} during apply")
    p = ({m[len("deep/"):]: b for m, b in want_p.items()} if s["nest"]
         else want_p)
    ma = pl.Model(case["progs"][s["prog"]], "apply", p, {}, s["seed"])
    eq(int(out[i]), ma.run(x), f"output of the lifted function {n}")
  labels = []
  if sum(bool(p) for p in per) >= 2 and any(
      s["scope"] or s["mod"] for s in case["sites"]):
    labels.append("nt")
  if any(s["nest"] for s in case["sites"]):
    labels.append("nested")
  return labels


# ------------------------------------------------------------------- adaptors


def adapt_strat():
  return st.fixed_dictionaries({
      "prog": st.one_of(
          pl.programs(st, ops=["p", "p", "n", "c", "c"], max_classes=2),
          pl.programs(st, ops=["p", "n", "c", "c", "r", "mr"], max_classes=2),
          pl.programs(st, ops=["p", "n", "c", "c", "g", "s", "r"],
                      max_classes=2)),
      "seed": st.sampled_from([None, 0, 1, 42]), "x": st.integers(0, 100),
      "kw": st.booleans(), "empty": st.sampled_from(["dict", "none"])})


def same_outcome(fn, kind, want, what):
  k, v = pl.outcome(fn)
  if k != kind:
    raise Violation(f"{what}: outcome {k} ({v if k else ''!s:.300}), "
                    f"expected {kind}")
  if kind is None and want is not None:
    eq(want[1](v), want[0], what)


def run_adapt(case):
  prog, seed, x = case["prog"], case["seed"], case["x"]
  labels = []
  a, kw = ((), {"x": jnp.int32(x)}) if case["kw"] else ((jnp.int32(x),), {})

  def main(x):
    return pl.HkRun(prog).main(x)

  def model(mode, p, s, sd):
    m = pl.Model(prog, mode, p, s, sd)
    k, v = pl.model_outcome(lambda: m.run(x))
    return m, k, v

  try:
    mi, ik, _ = model("init", {}, {}, seed)
  except pl.TooBig:
    return ["too-big"]
  key = None if seed is None else jax.random.PRNGKey(seed)
  fs = hk.transform_with_state(main)
  f = hk.transform(main)
  fw = hk.without_state(hk.transform_with_state(main))
  ints = pl.to_ints
  for t, name in ((f, "hk.transform"), (fw, "without_state")):
    stateful = ik is None and mi.final_state(True)
    same_outcome(lambda t=t: t.init(key, *a, **kw),
                 "ValueError" if stateful else ik,
                 None if ik or stateful else (mi.final_params(), ints),
                 f"{name} init")
  if ik is not None:
    return ["rejected"]
  p, s = pl.perturb(mi.final_params(), 1), mi.final_state(True)
  jp, js = pl.to_jnp(p), pl.to_jnp(s)
  if not p and case["empty"] == "none":
    jp = None
  ma, ak, av = model("apply", p, s, seed)
  stateful = bool(s) or (ak is None and bool(ma.final_state(False)))
  if stateful:
    labels.append("stateful")
  if not stateful:
    for t, name in ((f, "hk.transform"), (fw, "without_state")):
      same_outcome(lambda t=t: t.apply(jp, key, *a, **kw), ak,
                   (av, int), f"{name} apply")
  else:
    mn, nk, _ = model("apply", p, {}, seed)
    if nk is not None or mn.final_state(False):
      for t, name in ((f, "hk.transform"), (fw, "without_state")):
        raises(lambda t=t: t.apply(jp, key, *a, **kw), ValueError,
               f"{name} apply of a stateful function")
  # without_apply_rng: apply with no rng, on both kinds.
  mo, ok_, ov = model("apply", p, s, None)
  ws = hk.without_apply_rng(fs)
  eq(ints(ws.init(key, *a, **kw)[0]), mi.final_params(),
     "without_apply_rng init params")
  eq(ints(ws.init(key, *a, **kw)[1]), s, "without_apply_rng init state")
  for t, kind in ((fs, hk.TransformedWithState), (f, hk.Transformed)):
    check(type(hk.without_apply_rng(t)) is kind,
          f"without_apply_rng of a {kind.__name__} is a "
          f"{type(hk.without_apply_rng(t)).__name__}")
  js_ = None if (not s and case["empty"] == "none") else js
  same_outcome(lambda: ws.apply(jp, js_, *a, **kw), ok_,
               None if ok_ else ((ov, mo.final_state(False)),
                                 lambda r: (int(r[0]), ints(r[1]))),
               "without_apply_rng(transform_with_state) apply")
  if not stateful:
    for w, name in ((hk.without_apply_rng(f), "transform"),
                    (hk.without_apply_rng(fw), "without_state"),
                    (hk.without_state(hk.without_apply_rng(fs)),
                     "without_state after without_apply_rng")):
      eq(ints(w.init(key, *a, **kw)), mi.final_params(),
         f"without_apply_rng({name}) init")
      same_outcome(lambda w=w: w.apply(jp, *a, **kw), ok_,
                   None if ok_ else (ov, int),
                   f"without_apply_rng({name}) apply")
  # transform_and_run: init then apply with the same key.
  mt, tk, tv = model("apply", mi.final_params(), s, seed)
  same_outcome(lambda: hk.testing.transform_and_run(main, seed=seed)(*a, **kw),
               tk, None if tk else (tv, int), "transform_and_run")
  same_outcome(lambda: hk.testing.transform_and_run(seed=seed)(main)(*a, **kw),
               tk, None if tk else (tv, int), "transform_and_run as decorator")
  r = hk.testing.transform_and_run(main, seed=seed, run_apply=False)(*a, **kw)
  check(r is None, "transform_and_run(run_apply=False) returned something")
  if ak != ok_:
    labels.append("needs-rng")
  if p:
    labels.append("nt")
  return labels


# ----------------------------------------------------------------- bad inputs


def bad_strat():
  return st.fixed_dictionaries({
      "what": st.sampled_from(["params", "state", "adaptor", "apply_rng"]),
      "val": st.integers(0, 4)})


def run_bad(case):
  val = [5, [1], (1, 2), "xy", np.ones([2])][case["val"]]
  fs = hk.transform_with_state(lambda x: x)
  f = hk.transform(lambda x: x)
  w = case["what"]
  if w == "params":
    raises(lambda: fs.apply(val, {}, None, 1), TypeError, "non-mapping params")
    raises(lambda: f.apply(val, None, 1), TypeError, "non-mapping params")
  elif w == "state":
    raises(lambda: fs.apply({}, val, None, 1), TypeError, "non-mapping state")
  elif w == "adaptor":
    raises(lambda: hk.without_apply_rng(val), ValueError,
           "without_apply_rng of something else")
    raises(lambda: hk.without_apply_rng(lambda x: x), ValueError,
           "without_apply_rng of a function")
  else:
    raises(lambda: hk.transform(lambda x: x, apply_rng=False), ValueError,
           "transform(apply_rng=False)")
  return ["nt", w]


PROP = Prop("P12", [
    Sub("lift", lift_strat, run_lift, 1600, 30000,
        "two lifted functions with parameters, one inside a scope or module"),
    Sub("adaptors", adapt_strat, run_adapt, 3000, 40000,
        "the function has parameters"),
    Sub("invalid", bad_strat, run_bad, 60, 80, "every case"),
])
