"""P05: params_dict / state_dict of a module."""
from core import Prop, Sub, check, eq, raises
import proglib as pl
from hypothesis import strategies as st
import numpy as np
import jax.numpy as jnp
import haiku as hk

OPS = ["p", "p", "g", "s", "n", "n", "c", "c", "c", "m", "sc", "use", "use",
       "pd", "pd", "try", "pb", "gb"]


def strat():
  return st.fixed_dictionaries({
      "prog": pl.programs(
          st, ops=OPS,
          names=(None, None, "foo", "foo_1", "fo", "foobar", "foo_bar", "bar"),
          class_names=("Foo", "FooBar", "Fo", "Bar")),
      "seed": st.just(1), "x": st.integers(0, 100)})


def run(case):
  labels, mi, ma = pl.agree(case, applies=1)
  if mi is None:
    return labels
  prog, x = case["prog"], case["x"]
  run_ = pl.HkRun(prog)
  got = []

  def main(x):
    run_.instances = []
    out = run_.main(x)
    got.clear()
    for i in run_.instances:
      got.append((i.module_name, i.params_dict(), i.state_dict()))
    return out

  f = hk.transform_with_state(main)
  p, s = f.init(1, x)
  interesting = 0

  def compare(m, what):
    nonlocal interesting
    eq(len(got), len(m.instances), f"{what}: number of modules")
    for (name, pd, sd), inst in zip(got, m.instances):
      wp, ws = m.tree_dict(inst, "params"), m.tree_dict(inst, "state")
      eq({k: int(v) for k, v in pd.items()}, wp, f"{what}: {name}.params_dict")
      eq({k: int(v) for k, v in sd.items()}, ws, f"{what}: {name}.state_dict")
      total = sum(map(len, m.final_params().values()))
      if 0 < len(wp) < total:
        interesting += 1

  compare(mi, "init")
  ma = pl.Model(prog, "apply", mi.final_params(), mi.final_state(True), 1)
  try:
    ma.run(x)
  except pl.TooBig:
    return ["too-big"]
  f.apply(p, s, 1, x)
  compare(ma, "apply")
  if interesting >= 2:
    labels.append("nt")
  return labels


PROP = Prop("P05", [
    Sub("dicts", strat, run, 6000, 60000,
        "at least two modules own some but not all of the parameters"),
])
