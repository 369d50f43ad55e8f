"""P18: BatchNorm, LayerNorm, InstanceNorm, GroupNorm."""
import os
os.environ["XLA_FLAGS"] = ("--xla_force_host_platform_device_count=4 " +
                           os.environ.get("XLA_FLAGS", ""))

from core import Prop, Sub, Violation, check, eq, raises, close
import nnlib as nn
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

FORMATS = ["channels_last", "channels_first", "N...C", "NC..."]
EPS = [1e-5, 1e-3, 0.1, 1.0]
seeds = st.integers(0, 10**6)
# Added to the inputs: values with a mean far above their spread.
OFF = [0] * 5 + [1000]


def first(fmt):
  return fmt in ("channels_first", "NC...")


def inp(seed, shape, dt="float32", off=0):
  r = np.random.RandomState(seed)
  return nn.cast(r.randn(*shape) * r.uniform(0.3, 2) + r.uniform(-2, 2) + off,
                 dt)


def bcast_shape(shape, mask):
  """A shape broadcastable to `shape`: bit 0..n drop/one the dimensions."""
  s = [1 if (mask >> i) & 1 else d for i, d in enumerate(shape)]
  if (mask >> len(shape)) & 1:
    while s and s[0] == 1:
      s.pop(0)
  return tuple(s)


# ------------------------------------------------------------------ BatchNorm


def bn_strat():
  return st.integers(2, 5).flatmap(lambda r: st.fixed_dictionaries({
      "shape": nn.bigger(st.lists(st.integers(1, 4), min_size=r,
                                    max_size=r)),
      "fmt": st.sampled_from(FORMATS),
      "axis": st.one_of(st.none(), st.none(),
                        st.sets(st.integers(0, r - 1), min_size=1)
                        .flatmap(lambda s: st.permutations(sorted(s)))
                        .flatmap(lambda a: st.tuples(*[
                            st.sampled_from([i, i, i - r]) for i in a]))
                        .map(list)),
      "scale": st.sampled_from(["create", "create", "none", "call"]),
      "offset": st.sampled_from(["create", "create", "none", "call"]),
      "mask": st.integers(0, 63), "inits": st.booleans(),
      "eps": st.sampled_from(EPS), "decay": st.sampled_from([0.0, 0.5, 0.9,
                                                             0.99]),
      # Each apply makes one or more calls of one module.
      "steps": st.lists(st.lists(st.sampled_from(
          ["train", "train", "eval", "local", "train_local"]),
                                 min_size=1, max_size=2), min_size=2,
                        max_size=4),
      "other_batch": st.booleans(), "jit": st.booleans(), "seed": seeds}))


class Ema:
  """Debiased moving average, in float64."""

  def __init__(self, decay):
    self.decay, self.counter, self.hidden, self.average = decay, 0, 0.0, None

  def step(self, v):
    self.counter += 1
    self.hidden = self.hidden * self.decay + v * (1 - self.decay)
    self.average = self.hidden / (1 - self.decay ** self.counter)
    return self.average


def slack(x, mean, var, eps, scale):
  """Tolerances that allow the cancellation of E[x^2]-E[x]^2 in float32."""
  t = nn.tol("float32", 3)
  dv = 1e-6 * (1 + np.max(x * x))
  slope = np.abs((x - mean) * scale) * 0.5 * (var + eps) ** -1.5
  return dict(rtol=t["rtol"], atol=t["atol"] + np.where(
      dv < 0.3 * (var + eps), slope * dv, np.inf))


def run_bn(case):
  shape, fmt, seed = tuple(case["shape"]), case["fmt"], case["seed"]
  r = len(shape)
  ch = 1 if first(fmt) else r - 1
  axis = case["axis"]
  red = tuple(sorted(i % r for i in axis)) if axis is not None else tuple(
      i for i in range(r) if i != ch)
  wshape = tuple(1 if i in red else d for i, d in enumerate(shape))
  kw = {}
  if case["inits"]:
    if case["scale"] == "create":
      kw["scale_init"] = lambda s, d: jnp.full(s, 3, d)
    if case["offset"] == "create":
      kw["offset_init"] = lambda s, d: jnp.full(s, -2, d)
  ckw, cn = {}, {}
  for i, k in enumerate(("scale", "offset")):
    if case[k] == "call":
      ckw[k], cn[k] = nn.cast(nn.rnd(seed + i, bcast_shape(shape, case["mask"])),
                              "float32")

  def make():
    return hk.BatchNorm(case["scale"] == "create", case["offset"] == "create",
                        case["decay"], eps=case["eps"], axis=axis,
                        data_format=fmt, name="bn", **kw)

  def f(xs, modes):
    m = make()
    return [m(x, is_training=mode.startswith("train"),
              test_local_stats="local" in mode, **ckw)
            for x, mode in zip(xs, modes)]

  t = hk.transform_with_state(f)
  x0, x0n = inp(seed, shape)
  params, state = t.init(None, [x0], ["train"])
  want = {"bn": {k: (wshape, "float32") for k in ("scale", "offset")
                 if case[k] == "create"}}
  nn.want_shapes(params, want, "BatchNorm params")
  init = {"scale": 3 if case["inits"] else 1, "offset": -2 if case["inits"]
          else 0}
  for k in want["bn"]:
    close(params["bn"][k], np.full(wshape, init[k], np.float32),
          f"initial {k}")
  svals = {"counter": ((), "int32"), "hidden": (wshape, "float32"),
           "average": (wshape, "float32")}
  nn.want_shapes(state, {"bn/~/mean_ema": svals, "bn/~/var_ema": svals},
                 "BatchNorm state")
  j, n = nn.fill(params, seed)
  mean_ema, var_ema = Ema(case["decay"]), Ema(case["decay"])
  mean_ema.average = x0n.mean(red, keepdims=True)
  var_ema.average = x0n.var(red, keepdims=True)

  def check_state(what):
    for nm, e in (("mean_ema", mean_ema), ("var_ema", var_ema)):
      s = state["bn/~/" + nm]
      eq(int(s["counter"]), e.counter, f"{what}: {nm} counter")
      close(s["hidden"], np.broadcast_to(e.hidden, wshape),
            f"{what}: {nm} hidden", **nn.tol("float32"))
      close(s["average"], e.average, f"{what}: {nm} average",
            **nn.tol("float32"))

  check_state("init")
  labels, trained = set(), 0
  for k, modes in enumerate(case["steps"]):
    shp = shape
    if case["other_batch"] and 0 in red and not any(
        s == "call" for s in (case["scale"], case["offset"])):
      shp = (1 + (seed + k) % 5,) + shape[1:]
    xs, xns = zip(*[inp(seed + 10 * k + i + 1, shp)
                    for i in range(len(modes))])
    fn = lambda p, s, xs, modes=modes: t.apply(p, s, None, xs, modes)
    if case["jit"]:
      fn = jax.jit(fn)
    outs, state = fn(j, state, list(xs))
    for x, mode, out in zip(xns, modes, outs):
      if mode == "eval":
        mean, var = mean_ema.average, var_ema.average
        labels.add("eval")
      else:
        mean, var = x.mean(red, keepdims=True), x.var(red, keepdims=True)
      if mode.startswith("train"):
        mean_ema.step(mean)
        var_ema.step(var)
        trained += 1
      sc = n["bn"]["scale"] if case["scale"] == "create" else cn.get("scale", 1)
      of = (n["bn"]["offset"] if case["offset"] == "create"
            else cn.get("offset", 0))
      ref = (x - mean) / np.sqrt(var + case["eps"]) * sc + of
      close(out, ref, f"step {k} {mode}", dtype="float32",
            **slack(x, mean, var, case["eps"], sc))
    check_state(f"step {k}")
  # refusals
  k = "scale" if case["scale"] == "create" else "offset"
  if case[k] == "create":
    raises(lambda: hk.transform_with_state(lambda x: make()(
        x, True, **{k: jnp.ones(())})).init(None, x0), ValueError,
           f"passing {k} to a module that owns one")
  else:
    raises(lambda: hk.transform_with_state(lambda x: hk.BatchNorm(
        k != "scale", k != "offset", 0.9, **{k + "_init": jnp.ones})(
            x, True)).init(None, x0), ValueError,
           f"{k}_init without create_{k}")
  if trained >= 2 and len(labels):
    labels.add("nt")
  if axis is not None and any(a < 0 for a in axis):
    labels.add("negative-axis")
  return labels


# --------------------------------------------------- BatchNorm across replicas


def cross_strat():
  return st.fixed_dictionaries({
      "replicas": st.sampled_from([2, 4]),
      "shape": nn.bigger(st.lists(st.integers(1, 3), min_size=2, max_size=4)),
      "fmt": st.sampled_from(FORMATS),
      "how": st.sampled_from(["vmap", "vmap", "pmap", "groups"]),
      "perm": st.permutations([0, 1, 2, 3]),
      "decay": st.sampled_from([0.5, 0.9]), "eps": st.sampled_from(EPS[1:]),
      "modes": st.lists(st.sampled_from(["train", "train", "local", "eval"]),
                        min_size=1, max_size=3),
      "seed": seeds})


def run_cross(case):
  shape, fmt, seed = tuple(case["shape"]), case["fmt"], case["seed"]
  r, d = len(shape), case["replicas"]
  ch = 1 if first(fmt) else r - 1
  red = tuple(i for i in range(r) if i != ch)
  groups = None
  if case["how"] == "groups":
    d = 4
    groups = [sorted(case["perm"][:2]), sorted(case["perm"][2:])]
  members = groups or [list(range(d))]

  def f(x, mode):
    return hk.BatchNorm(True, True, case["decay"], eps=case["eps"],
                        data_format=fmt, cross_replica_axis="i",
                        cross_replica_axis_index_groups=groups)(
                            x, is_training=mode == "train",
                            test_local_stats=mode == "local")

  t = hk.transform_with_state(f)
  mp = ((lambda g: jax.vmap(g, axis_name="i")) if case["how"] == "vmap" else
        (lambda g: jax.pmap(g, axis_name="i")))
  x0, x0n = inp(seed, (d,) + shape)
  params, state = mp(lambda x: t.init(None, x, "train"))(x0)
  params, pn = nn.fill(jax.tree_util.tree_map(lambda v: v[0], params), seed)
  params = jax.tree_util.tree_map(
      lambda v: jnp.broadcast_to(v, (d,) + v.shape), params)

  def stats(x):
    mean = np.zeros((d,) + tuple(1 if i in red else s for i, s in
                                 enumerate(shape)))
    var = np.zeros_like(mean)
    for g in members:
      xs = x[g]
      ax = (0,) + tuple(i + 1 for i in red)
      mean[g] = xs.mean(ax, keepdims=True)
      var[g] = xs.var(ax, keepdims=True)
    return mean, var

  me, ve = Ema(case["decay"]), Ema(case["decay"])
  me.average, ve.average = stats(x0n)
  trained = 0
  for k, mode in enumerate(case["modes"]):
    x, xn = inp(seed + k + 1, (d,) + shape)
    out, state = mp(lambda p, s, x, mode=mode: t.apply(p, s, None, x, mode))(
        params, state, x)
    mean, var = ((me.average, ve.average) if mode == "eval" else stats(xn))
    if mode == "train":
      me.step(mean)
      ve.step(var)
      trained += 1
    ref = ((xn - mean) / np.sqrt(var + case["eps"]) *
           pn["batch_norm"]["scale"] + pn["batch_norm"]["offset"])
    close(out, ref, f"step {k} {mode}",
          **slack(xn, mean, var, case["eps"], pn["batch_norm"]["scale"]))
    for nm, e in (("mean_ema", me), ("var_ema", ve)):
      s = state["batch_norm/~/" + nm]
      eq([int(v) for v in s["counter"]], [e.counter] * d, "counter")
      close(s["average"], e.average, f"step {k}: {nm}", **nn.tol("float32"))
  raises(lambda: hk.transform_with_state(lambda x: hk.BatchNorm(
      True, True, 0.9, cross_replica_axis_index_groups=[[0, 1]])(
          x, True)).init(None, x0[0]), ValueError, "groups without an axis name")
  return ["nt", case["how"]] if trained else [case["how"]]


# ----------------------------------------------------- LayerNorm, InstanceNorm


def ln_strat():
  return st.integers(1, 5).flatmap(lambda r: st.fixed_dictionaries({
      "shape": nn.bigger(st.lists(st.integers(1, 4), min_size=r,
                                    max_size=r)),
      "axis": st.one_of(
          st.integers(-r, r - 1),
          st.sets(st.integers(0, r - 1), min_size=1).flatmap(
              lambda s: st.tuples(*[st.sampled_from([i, i - r])
                                    for i in sorted(s)])).map(list),
          st.fixed_dictionaries({
              "slice": st.tuples(st.one_of(st.none(), st.integers(-r, r)),
                                 st.one_of(st.none(), st.integers(-r, r)),
                                 st.sampled_from([None, 1, 2])).map(list)})),
      "kind": st.sampled_from(["list", "tuple"]),
      "scale": st.sampled_from(["create", "create", "none", "call"]),
      "offset": st.sampled_from(["create", "create", "none", "call"]),
      "mask": st.integers(0, 63), "inits": st.booleans(),
      "eps": st.sampled_from(EPS), "off": st.sampled_from(OFF),
      "dtype": st.sampled_from(["float32"] * 4 + ["bfloat16", "float16"]),
      "jit": st.sampled_from([False, False, True]), "seed": seeds}))


def affine(case, shape, seed, dt):
  kw, ckw, cn = {}, {}, {}
  if case["inits"]:
    if case["scale"] == "create":
      kw["scale_init"] = lambda s, d: jnp.full(s, 3, d)
    if case["offset"] == "create":
      kw["offset_init"] = lambda s, d: jnp.full(s, -2, d)
  for i, k in enumerate(("scale", "offset")):
    if case[k] == "call":
      ckw[k], cn[k] = nn.cast(nn.rnd(seed + i, bcast_shape(shape, case["mask"])),
                              dt)
  return kw, ckw, cn


def run_norm(case, make, name, red, pshape, shape, calls=1, shapes=None,
             grouped=None):
  """Shared by LayerNorm, InstanceNorm and GroupNorm: single or repeated call."""
  seed, dt = case["seed"], case.get("dtype", "float32")
  kw, ckw, cn = affine(case, shape, seed, dt)
  shapes = shapes or [shape]

  def f(xs):
    m = make(create_scale=case["scale"] == "create",
             create_offset=case["offset"] == "create", eps=case["eps"], **kw)
    return [m(x, **ckw) for x in xs]

  t = hk.transform(f)
  off = case["off"] if dt == "float32" else 0
  xs, xns = zip(*[inp(seed + i, s, dt, off) for i, s in enumerate(shapes)])
  p = t.init(None, list(xs))
  want = {name: {k: (pshape, dt) for k in ("scale", "offset")
                 if case[k] == "create"}}
  nn.want_shapes(p, want, f"{name} params")
  init = {"scale": 3 if case["inits"] else 1, "offset": -2 if case["inits"]
          else 0}
  for k in want[name]:
    close(p[name][k], np.full(pshape, init[k], np.float32), f"initial {k}")
  j, n = nn.fill(p, seed)
  fn = lambda p, xs: t.apply(p, None, xs)
  outs = (jax.jit(fn) if case["jit"] else fn)(j, list(xs))
  for x, out in zip(xns, outs):
    if grouped:
      g = x.reshape(grouped(x.shape))
      std = np.sqrt(g.var(red, keepdims=True) + case["eps"])
      y = ((g - g.mean(red, keepdims=True)) / std).reshape(x.shape)
      std = np.broadcast_to(std, g.shape).reshape(x.shape)
    elif red:
      std = np.sqrt(x.var(red, keepdims=True) + case["eps"])
      y = (x - x.mean(red, keepdims=True)) / std
    else:
      y, std = np.zeros_like(x), 1.
    sc = n[name]["scale"] if case["scale"] == "create" else cn.get("scale", 1)
    of = n[name]["offset"] if case["offset"] == "create" else cn.get("offset", 0)
    k = 1 if dt == "float32" else 2
    tol = nn.tol(dt, 5 * k)
    # What rounding the mean of large values may cost.
    tol["atol"] = tol["atol"] + off * 2e-6 * np.abs(sc) / std
    close(out, y * sc + of, name, dtype=dt, **tol)
  x = xs[0]
  k = "scale" if seed % 2 else "offset"
  if case[k] == "create":
    raises(lambda: hk.transform(lambda x: make(
        create_scale=case["scale"] == "create",
        create_offset=case["offset"] == "create")(
            x, **{k: jnp.ones((), dt)})).init(None, x), ValueError,
           f"passing {k} to a module that owns one")
  else:
    raises(lambda: hk.transform(lambda x: make(
        create_scale=k != "scale", create_offset=k != "offset",
        **{k + "_init": jnp.ones})(x)).init(None, x), ValueError,
           f"{k}_init without create_{k}")


def run_ln(case):
  shape = tuple(case["shape"])
  r = len(shape)
  ax = case["axis"]
  if isinstance(ax, dict):
    ax = slice(*ax["slice"])
    red = tuple(range(r))[ax]
    if not red:
      return ["empty-slice"]
  elif isinstance(ax, int):
    red = (ax % r,)
  else:
    red = tuple(i % r for i in ax)
    ax = tuple(ax) if case["kind"] == "tuple" else list(ax)
  run_norm(case, lambda **kw: hk.LayerNorm(ax, **kw), "layer_norm", red,
           shape[-1:], shape)
  raises(lambda: hk.transform(lambda: hk.LayerNorm(
      ["a"] if case["kind"] == "list" else 1.5, True, True)).init(None),
         ValueError, "an axis that is not made of ints")
  n = int(np.prod([shape[i] for i in red]))
  return ["nt"] if n > 1 and r > 1 else []


def in_strat():
  return st.fixed_dictionaries({
      "shape": nn.bigger(st.lists(st.integers(1, 4), min_size=3, max_size=5)),
      "fmt": st.sampled_from(FORMATS),
      "scale": st.sampled_from(["create", "create", "none", "call"]),
      "offset": st.sampled_from(["create", "create", "none", "call"]),
      "mask": st.integers(0, 63), "inits": st.booleans(),
      "eps": st.sampled_from(EPS), "off": st.sampled_from(OFF),
      "jit": st.just(False), "seed": seeds})


def run_in(case):
  shape = tuple(case["shape"])
  r = len(shape)
  if first(case["fmt"]):
    red, pshape = tuple(range(2, r)), (shape[1],) + (1,) * (r - 2)
  else:
    red, pshape = tuple(range(1, r - 1)), shape[-1:]
  run_norm(case, lambda **kw: hk.InstanceNorm(data_format=case["fmt"], **kw),
           "instance_norm", red, pshape, shape)
  raises(lambda: hk.transform(lambda: hk.InstanceNorm(
      True, True, data_format="NHCW")).init(None), ValueError,
         "an unknown data format")
  return ["nt"] if np.prod([shape[i] for i in red]) > 1 and shape[
      1 if first(case["fmt"]) else -1] > 1 else []


# ------------------------------------------------------------------ GroupNorm


def gn_strat():
  return st.integers(2, 5).flatmap(lambda r: st.fixed_dictionaries({
      "shape": nn.bigger(st.lists(st.integers(1, 4), min_size=r,
                                    max_size=r)),
      "groups": nn.dim(1, 4, 8, 33), "per": nn.dim(1, 3, 8, 17),
      "fmt": st.sampled_from(FORMATS),
      "axis": st.one_of(
          st.none(), st.none(), st.integers(-r, r - 1),
          st.sets(st.integers(0, r - 1), min_size=1).flatmap(
              lambda s: st.tuples(*[st.sampled_from([i, i - r])
                                    for i in sorted(s)])).map(list),
          st.fixed_dictionaries({
              "slice": st.tuples(st.one_of(st.none(), st.integers(-r, r)),
                                 st.one_of(st.none(), st.integers(-r, r)),
                                 st.sampled_from([None, 1, 2])).map(list)})),
      "kind": st.sampled_from(["list", "tuple"]),
      "scale": st.sampled_from(["create", "create", "none", "call"]),
      "offset": st.sampled_from(["create", "create", "none", "call"]),
      "mask": st.integers(0, 63), "inits": st.booleans(),
      "eps": st.sampled_from(EPS), "off": st.sampled_from(OFF),
      "again": st.booleans(),
      "dtype": st.sampled_from(["float32"] * 4 + ["bfloat16", "float16"]),
      "jit": st.sampled_from([False, False, True]), "seed": seeds}))


def run_gn(case):
  shape = list(case["shape"])
  r = len(shape)
  ch = 1 if first(case["fmt"]) else r - 1
  g, per = case["groups"], case["per"]
  shape[ch] = g * per
  shape = tuple(shape)
  ax, kw0 = case["axis"], {}
  if ax is None:
    red = tuple(range(1, r))
  else:
    if isinstance(ax, dict):
      ax = slice(*ax["slice"])
      red = tuple(range(r))[ax]
      if not red:
        return ["empty-slice"]
    elif isinstance(ax, int):
      red = (ax % r,)
    else:
      red = tuple(i % r for i in ax)
      ax = tuple(ax) if case["kind"] == "tuple" else list(ax)
    kw0["axis"] = ax
  # In the grouped view the groups axis comes right before the channels.
  gred = tuple(i if i < ch else i + 1 for i in red)
  shapes = [shape]
  if case["again"] and "call" not in (case["scale"], case["offset"]):
    r2 = np.random.RandomState(case["seed"])
    s2 = [int(r2.randint(1, 5)) for _ in shape]
    s2[ch] = shape[ch]
    shapes.append(tuple(s2))
  pshape = (shape[1],) + (1,) * (r - 2) if ch == 1 and first(
      case["fmt"]) else shape[-1:]
  make = lambda **kw: hk.GroupNorm(g, data_format=case["fmt"], **kw0, **kw)
  run_norm(case, make, "group_norm", gred, pshape, shape, shapes=shapes,
           grouped=lambda s: s[:ch] + (g, per) + s[ch + 1:])
  x = jnp.ones(shape)
  if g > 1:
    bad = list(shape)
    bad[ch] += 1
    raises(lambda: hk.transform(lambda x: make()(x)).init(None, jnp.ones(bad)),
           ValueError, "channels that the groups do not divide")
  def two(x):
    m = make()
    m(x)
    m(x[None])
  raises(lambda: hk.transform(two).init(None, x), ValueError,
         "a call with another rank")
  return (["nt"] if g > 1 and np.prod([shape[i] for i in red]) > 1 else []) + (
      ["second-call"] if len(shapes) > 1 else [])


PROP = Prop("P18", [
    Sub("batch_norm", bn_strat, run_bn, 640, 8000,
        "two or more training calls and an evaluation call in the history"),
    Sub("cross_replica", cross_strat, run_cross, 120, 1500,
        "at least one training step across replicas"),
    Sub("layer_norm", ln_strat, run_ln, 800, 8000,
        "more than one element is normalised, rank above one"),
    Sub("instance_norm", in_strat, run_in, 300, 3000,
        "more than one spatial element and channel"),
    Sub("group_norm", gn_strat, run_gn, 700, 8000,
        "more than one group, more than one normalised element"),
], ["BatchNorm statistics are compared with a float64 reference on inputs of "
    "moderate mean, because the variance is computed as E[x^2]-E[x]^2",
    "Replicas are vmap lanes or four forced host CPU devices"])
