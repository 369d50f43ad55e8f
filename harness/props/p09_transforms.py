"""P09: hk.jit/remat/vmap/grad/value_and_grad/eval_shape/named_call."""
from core import (Prop, Sub, Violation, check, eq, raises, close, data,
                  trees_close, same_keys)
import proglib as pl
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

CF = ["jit", "jit", "remat", "named", "eshape", "vmap", "vmap"]
OPS = ["p", "g", "s", "r", "rs", "res", "c", "c", "n"] + CF


def strat():
  return st.fixed_dictionaries({
      "prog": pl.programs(st, ops=OPS, depth=2, max_classes=2, max_stmts=3,
                          max_main=3, method_names=("go",), keyed=True, wrap_res=True),
      "seed": st.integers(0, 3), "x": st.integers(0, 100),
      "scopes": st.booleans()})


def run(case):
  """Includes profiler name scopes, which must not change any result."""
  prev = hk.experimental.profiler_name_scopes(enabled=case["scopes"])
  try:
    labels, mi, ma = pl.agree(case, applies=1, logs=False)
  finally:
    now = hk.experimental.profiler_name_scopes(enabled=prev)
  check(bool(now) == case["scopes"], "profiler_name_scopes setting")
  if mi is not None and any(l.startswith("wrap_") for l in labels):
    labels.append("nt")
  return labels


# ----------------------------------------------------------------- gradients


def grad_strat():
  return st.fixed_dictionaries({
      "fn": st.sampled_from(["grad", "value_and_grad"]),
      "argnums": st.sampled_from([0, 1, [0, 1], [1, 0], [1], -1, -2, [-1, 0]]),
      "as": st.sampled_from(["tuple", "list", "numpy"]),
      "has_aux": st.booleans(), "state": st.booleans(), "rng": st.booleans(),
      "param": st.booleans(), "kwarg": st.booleans(),
      "inner": st.sampled_from(["none", "jit", "remat"]),
      "seed": st.integers(0, 3), "a": st.integers(-5, 5),
      "b": st.integers(-5, 5)})


def run_grad(case):
  """d/dx of w*x^2*y + k*x + c*y, with w a parameter, c state, k a key."""
  argnums = case["argnums"]
  if case["as"] == "numpy":
    argnums = jax.tree_util.tree_map(np.int64, argnums)
  if isinstance(argnums, list) and case["as"] != "list":
    argnums = tuple(argnums)

  vals = {}

  def loss(x, y, scale=1.0):
    w, c, k = 1.0, 0.0, 0.0
    if case["param"]:
      w = hk.get_parameter("w", [], init=lambda s, d: jnp.full(s, 2., d))
    if case["state"]:
      c = hk.get_state("c", [], init=lambda s, d: jnp.full(s, 3., d))
      hk.set_state("c", c + jax.lax.stop_gradient(x))
    if case["rng"]:
      k = (hk.next_rng_key()[1] % jnp.uint32(7)).astype(jnp.float32)
    out = scale * (w * x * x * y + k * x + c * y)
    if case["has_aux"]:
      return out, {"c": c, "twice": 2 * out}
    return out

  def main(x, y):
    f = loss
    if case["inner"] == "jit":
      f = lambda *a, **kw: hk.jit(loss)(*a, **kw)
    elif case["inner"] == "remat":
      f = lambda *a, **kw: hk.remat(loss)(*a, **kw)
    kw = {"scale": jnp.float32(2.)} if case["kwarg"] else {}
    if case["fn"] == "grad":
      out = hk.grad(f, argnums=argnums, has_aux=case["has_aux"])(x, y, **kw)
    else:
      out = hk.value_and_grad(f, argnums=argnums, has_aux=case["has_aux"])(
          x, y, **kw)
    key = hk.next_rng_key() if case["rng"] else None
    vals["key"] = None if key is None else tuple(np.asarray(key).tolist())
    return out

  x, y = float(case["a"]), float(case["b"])
  f = hk.transform_with_state(main)
  seed = case["seed"] if case["rng"] else None
  p, s = f.init(seed, x, y)
  same_keys(p, {"~": {"w": 0}} if case["param"] else {}, "params")
  same_keys(s, {"~": {"c": 0}} if case["state"] else {}, "state")
  if case["param"]:
    close(p["~"]["w"], 2.0, "initial parameter")
    p = {"~": {"w": jnp.float32(5.)}}
  w = 5.0 if case["param"] else 1.0
  c, k = 0.0, 0.0
  if case["state"]:
    close(s["~"]["c"], 3.0, "initial state (not the updated one)")
    c = 3.0
    s = {"~": {"c": jnp.float32(c)}}
  for step in range(2):
    chain = pl.KeyChain(pl.seed_key(case["seed"]))
    if case["rng"]:
      k = float(chain.next()[1] % 7)
    sc = 2.0 if case["kwarg"] else 1.0
    val = sc * (w * x * x * y + k * x + c * y)
    gx, gy = sc * (2 * w * x * y + k), sc * (w * x * x + c)
    grads = {0: gx, 1: gy}
    if isinstance(argnums, (tuple, list)):
      wg = tuple(grads[i % 2] for i in argnums)
    else:
      wg = grads[argnums % 2]
    aux = {"c": c, "twice": 2 * val}
    if case["fn"] == "grad":
      want = (wg, aux) if case["has_aux"] else wg
    else:
      want = ((val, aux), wg) if case["has_aux"] else (val, wg)
    out, s2 = f.apply(p, s, seed, x, y)
    la, ta = jax.tree_util.tree_flatten(out)
    lb, tb = jax.tree_util.tree_flatten(want)
    eq(ta, tb, "structure of the result")
    for u, v in zip(la, lb):
      close(u, np.float64(v), f"result (step {step})")
    if case["state"]:
      c = c + x
      close(s2["~"]["c"], c, "state after differentiation")
      s = s2
    if case["rng"]:
      eq(vals["key"], chain.next(), "key drawn after differentiation")
  return ["nt"] if (case["state"] or case["rng"] or case["param"]) else []


# ----------------------------------------------------------------------- vmap


def vmap_strat():
  return st.fixed_dictionaries({
      "n": st.integers(1, 4),
      "in_axes": st.sampled_from(["0", "1", "(0,None)", "(1,0)", "dict",
                                  "[0,1]"]),
      "out_axes": st.sampled_from([0, 1, -1]),
      "param": st.booleans(), "rng": st.booleans(), "state": st.booleans(),
      "axis_name": st.booleans(), "seed": st.integers(0, 3),
      "data": st.integers(0, 50)})


def run_vmap(case):
  n = case["n"]
  a = data(case["data"], (n, 3), kind="int")
  b = data(case["data"] + 1, (n, 3), kind="int")

  def f(x, y):
    out = x * 2 + y
    if case["param"]:
      out = out * hk.get_parameter("w", [3], init=jnp.ones)
    if case["rng"]:
      out = out + (hk.next_rng_key()[0] % jnp.uint32(50)).astype(jnp.float32)
    if case["state"]:
      c = hk.get_state("c", [], init=jnp.zeros)
      hk.set_state("c", c + 1)
      out = out + c
    if case["axis_name"]:
      out = out + jax.lax.psum(jnp.ones([]), "i")
    return out

  name = "i" if case["axis_name"] else None
  ia = case["in_axes"]
  if ia == "0":
    in_axes, args = 0, (a, b)
  elif ia == "1":
    in_axes, args = 1, (a.T, b.T)
  elif ia == "(0,None)":
    in_axes, args = (0, None), (a, b[0])
  elif ia == "(1,0)":
    in_axes, args = (1, 0), (a.T, b)
  elif ia == "[0,1]":
    in_axes, args = [0, 1], (a, b.T)  # jax.vmap takes a list as a tuple.
  else:
    in_axes, args = ({"k": 0}, 1), ({"k": a}, b.T)

  def main(*args):
    fun = (lambda d, y: f(d["k"], y)) if ia == "dict" else f
    kw = {"axis_name": name} if name else {}
    out = hk.vmap(fun, in_axes=in_axes, out_axes=case["out_axes"], **kw)(*args)
    if case["rng"]:
      hk.next_rng_key()
    return out

  t = hk.transform_with_state(main)
  seed = case["seed"] if case["rng"] else None
  p, s = t.init(seed, *args)
  same_keys(p, {"~": {"w": 0}} if case["param"] else {}, "params")
  same_keys(s, {"~": {"c": 0}} if case["state"] else {}, "state")
  w = np.ones(3)
  if case["param"]:
    eq(p["~"]["w"].shape, (3,), "parameters are not mapped")
    w = np.array([2., 3., 4.])
    p = {"~": {"w": jnp.asarray(w, jnp.float32)}}
  if case["state"]:
    eq(s["~"]["c"].shape, (), "state is not mapped")
    s = {"~": {"c": jnp.float32(4)}}
  yy = np.broadcast_to(b[0], (n, 3)) if ia == "(0,None)" else b
  want = (a * 2 + yy) * w
  if case["rng"]:
    want = want + pl.KeyChain(pl.seed_key(seed)).next()[0] % 50
  if case["state"]:
    want = want + 4
  if case["axis_name"]:
    want = want + n
  if case["out_axes"] in (1, -1):
    want = want.T
  out, s2 = t.apply(p, s, seed, *args)
  close(out, want, "vmapped output")
  if case["state"]:
    close(s2["~"]["c"], 5.0, "state after vmap")
  return ["nt"] if n > 1 else []


# --------------------------------------------------- eval_shape and jit options


def misc_strat():
  return st.fixed_dictionaries({
      "what": st.sampled_from(["static", "donate", "kwargs", "eval_shape",
                               "pytree", "holomorphic", "outside"]),
      "k": st.integers(1, 4), "seed": st.integers(0, 3)})


def run_misc(case):
  k = case["k"]
  if case["what"] == "static":
    def main(x):
      f = hk.jit(lambda x, n: sum(
          hk.get_parameter(f"w{i}", [], init=jnp.ones) * x for i in range(n)),
          **[dict(static_argnums=1), dict(static_argnums=(1,)),
             dict(static_argnums=-1), dict(static_argnames="n")][case["seed"]])
      return f(x, n=k) if case["seed"] == 3 else f(x, k)
    f = hk.transform(main)
    p = f.init(None, 2.)
    eq(sorted(p["~"]), [f"w{i}" for i in range(k)], "params created under jit")
    p = {"~": {f"w{i}": jnp.float32(i + 1) for i in range(k)}}
    close(f.apply(p, None, 2.), k * (k + 1.), "jit with a static argument")
  elif case["what"] == "holomorphic":
    z = complex(k, case["seed"] - 1.5)
    def main(x):
      def g(v):
        w = hk.get_parameter("w", [], jnp.complex64, init=jnp.ones)
        hk.set_state("s", v)
        return w * v ** 3
      return (hk.grad(g, holomorphic=True)(x),
              hk.value_and_grad(g, holomorphic=True)(x))
    f = hk.transform_with_state(main)
    x = jnp.asarray(z, jnp.complex64)
    p, s = f.init(None, x)
    w = complex(2, -1)
    (d, (v, d2)), s = f.apply({"~": {"w": jnp.asarray(w, jnp.complex64)}}, s,
                              None, x)
    close(d, 3 * w * z ** 2, "holomorphic derivative")
    close(d2, 3 * w * z ** 2, "holomorphic derivative")
    close(v, w * z ** 3, "value")
    close(s["~"]["s"], z, "state")
  elif case["what"] == "outside":
    g = hk.experimental.named_call(lambda a, *, b: a * 2 + b, name="g")
    close(g(jnp.float32(k), b=3.), 2. * k + 3, "named_call outside a transform")
    close(jax.jit(lambda v: g(v, b=1.))(jnp.float32(k)), 2. * k + 1,
          "named_call outside a transform, jitted")
    close(hk.transform(lambda v: g(v, b=1.)).apply({}, None, jnp.float32(k)),
          2. * k + 1, "the same inside one")
    for w in (hk.jit, hk.remat, hk.grad, hk.value_and_grad):
      raises(lambda: w(lambda a: a * 2.)(1.), ValueError,
             f"hk.{w.__name__} outside a transform")
  elif case["what"] in ("kwargs", "donate", "pytree"):
    def main(x):
      def g(a, b):
        w = hk.get_parameter("w", [], init=jnp.ones)
        hk.set_state("s", b["u"])
        return {"out": a * w, "k": (b["u"], hk.next_rng_key())}
      wrap = hk.remat if case["what"] == "donate" else hk.jit
      r = wrap(g)(x, b={"u": x + 1})
      return r["out"], r["k"][0], hk.next_rng_key()
    f = hk.transform_with_state(main)
    p, s = f.init(case["seed"], float(k))
    close(s["~"]["s"], k + 1., "state set under the wrapper")
    (o, u, key), s2 = f.apply({"~": {"w": jnp.float32(3)}}, s, case["seed"],
                              float(k))
    close(o, 3. * k, "output")
    close(u, k + 1., "pytree output")
    c = pl.KeyChain(pl.seed_key(case["seed"]))
    c.next()
    eq(tuple(np.asarray(key).tolist()), c.next(), "key drawn afterwards")
  else:
    def main(x):
      def g(a, *, b=1.):
        w = hk.get_parameter("w", [k, 2], init=jnp.ones)
        c = hk.get_state("c", [], init=jnp.zeros)
        hk.set_state("c", c + 1)
        hk.next_rng_key()
        return {"y": jnp.dot(a, w) * b, "z": (a.astype(jnp.int32),)}
      if hk.running_init():
        g(x)
      out = hk.eval_shape(g, x, b=2.)
      eq((tuple(out["y"].shape), str(out["y"].dtype)), ((3, 2), "float32"),
         "eval_shape result")
      eq((tuple(out["z"][0].shape), str(out["z"][0].dtype)),
         ((3, k), "int32"), "eval_shape result")
      return jnp.zeros([]), hk.next_rng_key()
    f = hk.transform_with_state(main)
    p, s = f.init(case["seed"], jnp.ones([3, k]))
    (_, key), s2 = f.apply(p, s, case["seed"], jnp.ones([3, k]))
    close(s2["~"]["c"], 0., "state is unchanged by eval_shape")
    eq(tuple(np.asarray(key).tolist()),
       pl.KeyChain(pl.seed_key(case["seed"])).next(),
       "key stream is unchanged by eval_shape")
  return ["nt"]


class Boom(Exception):
  pass


def _pick(fn, i):
  """fn taken as one branch, the other being the identity."""
  return (fn, lambda v: v * 1.) if i else (lambda v: v * 1., fn)


REGIONS = {
    "jit": lambda fn, x: hk.jit(fn)(x),
    "remat": lambda fn, x: hk.remat(fn)(x),
    "named": lambda fn, x: hk.experimental.named_call(fn, name="r")(x),
    "eval_shape": lambda fn, x: hk.eval_shape(fn, x),
    "grad": lambda fn, x: hk.grad(fn)(x),
    "value_and_grad": lambda fn, x: hk.value_and_grad(fn)(x),
    "vmap": lambda fn, x: hk.vmap(fn)(jnp.stack([x, x])),
    "cond": lambda fn, x: hk.cond(x > 0, *_pick(fn, 1), x),
    "switch": lambda fn, x: hk.switch(jnp.int32(0), _pick(fn, 0), x),
    "scan": lambda fn, x: hk.scan(lambda c, _: (fn(c), c), x, None, length=2),
    "fori": lambda fn, x: hk.fori_loop(0, 3, lambda i, v: fn(v), x),
    "while": lambda fn, x: hk.while_loop(lambda v: v < 9, fn, x),
}


def aborted_strat():
  reg = st.sampled_from(sorted(REGIONS))
  return st.fixed_dictionaries({
      "outer": st.lists(st.sampled_from(["jit", "remat", "named"]),
                        max_size=2),
      "inner": st.lists(reg, min_size=1, max_size=3),
      "ops": st.lists(st.sampled_from(["s", "k", "g", "p", "i", "n"]),
                      min_size=1, max_size=5),
      "again": st.booleans(), "jit": st.booleans(), "key": st.integers(0, 9),
      "at": st.integers(0, 3)})


def run_aborted(case):
  """A wrapped part that raises leaves state, parameters and keys alone."""

  lin = []

  def ops(x):
    for o in case["ops"]:
      if o == "s":
        hk.set_state("c", hk.get_state("c") + 1)
      elif o == "k":
        hk.next_rng_key()
      elif o == "g":
        x = x + hk.get_state("c")
      elif o == "p":
        x = x * hk.get_parameter("w", [], init=jnp.ones)
      elif o == "n":
        hk.set_state("d", x)
      else:
        x = x + lin[0](jnp.ones([1]))[0] * 0
    return x

  def inner(levels, x):
    x = ops(x)
    if not levels:
      raise Boom()
    if case["at"] == len(levels):
      x = inner(levels[1:], x)
      raise AssertionError("not reached")
    out = REGIONS[levels[0]](lambda v: inner(levels[1:], v), x)
    raise AssertionError(f"not reached: {out}")

  def outer(levels, x):
    hk.set_state("c", hk.get_state("c") + 10)
    if levels:
      return REGIONS[levels[0]](lambda v: outer(levels[1:], v), x)
    for _ in range(1 + case["again"]):
      try:
        REGIONS[case["inner"][0]](lambda v: inner(case["inner"][1:], v), x)
        raise AssertionError("not reached")
      except Boom:
        pass
    return x + hk.get_state("c")

  def main(x):
    hk.get_state("c", [], init=jnp.zeros)
    hk.get_state("d", [], init=jnp.zeros)
    w = hk.get_parameter("w", [], init=jnp.ones)
    lin[:] = [hk.Linear(1)]
    if hk.running_init():
      lin[0](jnp.ones([1]))
      return x
    k1 = hk.next_rng_key()
    y = outer(case["outer"], x)
    return y, k1, hk.next_rng_key(), hk.get_state("c") + w

  f = hk.transform_with_state(main)
  p, s = f.init(case["key"], 1.)
  apply = jax.jit(f.apply) if case["jit"] else f.apply
  (y, k1, k2, c), s2 = apply(p, s, jax.random.PRNGKey(case["key"]),
                              jnp.float32(1))
  n = 10. * (1 + len(case["outer"]))
  close(y, 1 + n, "value after the aborted part")
  close(c, n + 1, "state read after the aborted part")
  close(s2["~"]["c"], n, "state returned")
  close(s2["~"]["d"], 0., "state only written in the aborted part")
  chain = pl.KeyChain(pl.seed_key(case["key"]))
  eq(tuple(np.asarray(k1).tolist()), chain.next(), "key before")
  eq(tuple(np.asarray(k2).tolist()), chain.next(), "key after")
  return ["nt"] if {"s", "k"} <= set(case["ops"]) else []


PROP = Prop("P09", [
    Sub("programs", strat, run, 1600, 14000,
        "a function transform ran in the program"),
    Sub("grad", grad_strat, run_grad, 350, 4000,
        "parameters, state or rng used under differentiation"),
    Sub("vmap", vmap_strat, run_vmap, 300, 4000, "more than one example"),
    Sub("aborted", aborted_strat, run_aborted, 250, 4000,
        "the aborted part writes state and draws keys"),
    Sub("misc", misc_strat, run_misc, 60, 80, "every case"),
])
