"""P07: custom creators, custom getters and method interceptors."""
from core import Prop, Sub, check, eq, raises, same_bits
import proglib as pl
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

OPS = ["p", "p", "g", "s", "n", "c", "c", "m", "getter", "getter", "getter",
       "creator", "creator", "creator", "icept", "icept", "icept", "sc", "use"]


def strat():
  return st.fixed_dictionaries({
      "prog": pl.programs(st, ops=OPS, depth=3, max_stmts=3, keyed=True),
      "seed": st.sampled_from([1, 2, 3, None]), "x": st.integers(0, 100)})


def run(case):
  labels, mi, ma = pl.agree(case, applies=2)
  if mi is None:
    return labels
  kinds = {e[0] for e in mi.log}
  labels += sorted("hook:" + k for k in kinds)
  if len(mi.log) >= 2:
    labels.append("nt")
  return labels


TRY = ["p", "p", "g", "n", "c", "c", "getter", "creator", "icept", "try",
       "try", "boom", "pb", "gb"]


def try_strat():
  return st.fixed_dictionaries({
      "prog": pl.programs(st, ops=TRY, depth=3, max_stmts=3),
      "seed": st.just(None), "x": st.integers(0, 100)})


def run_try(case):
  """Exceptions leave no hook behind."""
  labels, mi, ma = pl.agree(case, applies=1)
  if mi is not None and mi.log:
    labels.append("nt")
  # Whatever happened above, a plain function now sees no hook at all.
  f = hk.transform_with_state(
      lambda: hk.get_parameter("w", [], jnp.int32, jnp.ones) * 10 +
      hk.get_state("s", [], jnp.int32, jnp.ones))
  p, s = f.init(None)
  eq(pl.to_ints(p), {"~": {"w": 1}}, "hook-free params")
  out, _ = f.apply(p, s, None)
  eq(int(out), 11, "hook-free output")
  return labels


def ctx_strat():
  return st.fixed_dictionaries({
      "shape": st.sampled_from([[], [2], [2, 3], [0]]),
      "dtype": st.sampled_from(["float32", "int32", "bfloat16"]),
      "which": st.sampled_from(["params", "state"]),
      "name": st.sampled_from(["w", "b_1"]),
      "mod": st.sampled_from([None, "foo", "foo_3"]),
      "cast": st.sampled_from(["float16", "bfloat16", "float32"]),
      "newshape": st.booleans(), "swap": st.booleans()})


class Mod(hk.Module):

  def __call__(self, fn):
    return fn()


def run_ctx(case):
  """What a hook is told, and what it may change."""
  seen = []
  shape, dtype = tuple(case["shape"]), jnp.dtype(case["dtype"])
  mods = []

  def get():
    fn = (hk.get_parameter if case["which"] == "params" else hk.get_state)
    return fn(case["name"], shape, dtype, init=jnp.ones)

  def creator(nxt, shape, dtype, init, ctx):
    seen.append(("creator", tuple(shape), jnp.dtype(dtype), ctx))
    if case["swap"]:
      init = jnp.zeros
    return nxt(shape, jnp.dtype(case["cast"]), init)

  def getter(nxt, value, ctx):
    seen.append(("getter", value.shape, value.dtype, ctx))
    return nxt(value.astype(dtype) * 2)

  def main():
    on = dict(params=case["which"] == "params", state=case["which"] == "state")
    with hk.experimental.custom_creator(creator, **on), \
         hk.experimental.custom_getter(getter, **on):
      if case["mod"] is None:
        return get()
      m = Mod(name=case["mod"])
      mods.append(m)
      return m(get)

  f = hk.transform_with_state(main)
  p, s = f.init(None)
  bundle = "~" if case["mod"] is None else mods[0].module_name
  store = p if case["which"] == "params" else s
  other = s if case["which"] == "params" else p
  check(not other, "the other collection stays empty")
  # What is stored is what the creator returned, never the getter's value.
  same_bits(store[bundle][case["name"]],
            (jnp.zeros if case["swap"] else jnp.ones)(shape, case["cast"]),
            "stored value")
  eq([e[0] for e in seen], ["creator", "getter"], "hooks run at init")
  eq(seen[0][1:3], (shape, dtype), "shape/dtype given to the creator")
  eq((tuple(seen[1][1]), jnp.dtype(seen[1][2])),
     (shape, jnp.dtype(case["cast"])), "value given to the getter")
  for e in seen:
    c = e[3]
    eq(c.full_name, f"{bundle}/{case['name']}", "context.full_name")
    eq(c.module_name, bundle, "context.module_name")
    eq(c.name, case["name"], "context.name")
    eq(tuple(c.original_shape), shape, "context.original_shape")
    eq(jnp.dtype(c.original_dtype), dtype, "context.original_dtype")
    check(c.module is (None if case["mod"] is None else mods[0]),
          "context.module")
  seen.clear()
  out, _ = f.apply(p, s, None)
  eq([e[0] for e in seen], ["getter"], "hooks run at apply")
  same_bits(out, store[bundle][case["name"]].astype(dtype) * 2,
            "value seen by the caller")
  return ["nt"]


PROP = Prop("P07", [
    Sub("programs", strat, run, 6000, 60000,
        "at least two hook invocations during init"),
    Sub("exceptions", try_strat, run_try, 3500, 30000,
        "a hook ran in a function in which exceptions are raised and caught"),
    Sub("context", ctx_strat, run_ctx, 300, 1500, "every case"),
])
