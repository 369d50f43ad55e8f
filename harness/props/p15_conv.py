"""P15: convolutions against a direct float64 sum."""
from core import Prop, Sub, Violation, check, eq, raises, close
import nnlib as nn
import convref as cr
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

PADS = ["SAME", "VALID", "same", "valid", "pairs", "fn:same", "fn:valid",
        "fn:full", "fn:causal", "fn:reverse_causal", "fn:mixed", "fn:one",
        "fn:custom"]


def fmt(nd, last, variant):
  sp = {1: "W", 2: "HW", 3: "DHW"}[nd]
  if last:
    return ["channels_last", f"N{sp}C", "default", f"BT{'X' * nd}D"][
        variant % 4]
  return ["channels_first", f"NC{sp}"][variant % 2]


def form(v, nd, kind):
  """One of the accepted ways to write a per-dimension setting."""
  v = v[:nd]
  if len(set(v)) == 1 and kind:
    return v[0] if kind == 1 else [v[0]] if kind == 2 else tuple(v)
  return list(v) if kind % 2 else tuple(v)


def strat():
  d3 = lambda lo, hi: st.lists(st.integers(lo, hi), min_size=3, max_size=3)
  return st.fixed_dictionaries({
      "nd": st.sampled_from([1, 1, 2, 2, 2, 3]), "spatial": nn.bigger(d3(1, 6), 9, 17, 40),
      "kernel": nn.bigger(d3(1, 3), 4, 5, 7, 11), "stride": st.one_of(st.just([1, 1, 1]), d3(1, 3)),
      "rate": st.one_of(st.just([1, 1, 1]), d3(1, 3)),
      "pad": st.sampled_from(PADS),
      "pairs": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)),
                        min_size=3, max_size=3),
      "groups": st.sampled_from([1, 1, 1, 2, 3, 1, 1, 1, 2, 3, 8]),
      "cg": nn.dim(1, 2, 9, 17), "og": nn.dim(1, 2, 9, 17),
      "batch": st.sampled_from([None, 1, 2, 3] * 4 + [9]),
      "last": st.booleans(), "fmt": st.integers(0, 3), "bias": st.booleans(),
      "mask": st.booleans(), "form": st.integers(0, 3),
      "cls": st.booleans(), "dtype": st.sampled_from(
          ["float32"] * 5 + ["bfloat16"]),
      "bad": st.sampled_from([None] * 15 + ["rank", "mask", "groups", "len",
                                            "nd", "fmt"]),
      "seed": st.integers(0, 99)})


PADFN = {
    "same": lambda e: ((e - 1) // 2, e // 2), "valid": lambda e: (0, 0),
    "full": lambda e: (e - 1, e - 1), "causal": lambda e: (e - 1, 0),
    "reverse_causal": lambda e: (0, e - 1)}
MIX = ["causal", "full", "reverse_causal"]


def padding(case, nd, eff):
  """(argument, reference)."""
  p = case["pad"]
  if p in ("SAME", "VALID", "same", "valid"):
    return p, p.upper()
  if p == "pairs":
    pr = [tuple(q) for q in case["pairs"][:nd]]
    return (tuple(pr) if case["form"] % 2 else pr), pr
  k = p.split(":")[1]
  if k == "mixed":
    names = MIX[:nd]
    return [getattr(hk.pad, n) for n in names], [PADFN[n](e) for n, e in
                                                 zip(names, eff)]
  if k == "one":
    return [hk.pad.causal], [PADFN["causal"](e) for e in eff]
  if k == "custom":
    fn = lambda e: (e, 1)
    return fn, [(e, 1) for e in eff]
  return getattr(hk.pad, k), [PADFN[k](e) for e in eff]


def run(case):
  nd, dt = case["nd"], case["dtype"]
  ks, stride, rate = (case[k][:nd] for k in ("kernel", "stride", "rate"))
  eff = [(k - 1) * r + 1 for k, r in zip(ks, rate)]
  pad, padref = padding(case, nd, eff)
  spatial = list(case["spatial"][:nd])
  # At least one output position.
  for i in range(nd):
    lo, hi = (0, 0) if padref == "VALID" else (
        (0, 0) if padref == "SAME" else padref[i])
    if padref != "SAME":
      spatial[i] = max(spatial[i], eff[i] - lo - hi, 1)
  g = case["groups"]
  cin, cout = g * case["cg"], g * case["og"]
  last = case["last"]
  df = fmt(nd, last, case["fmt"])
  x64 = nn.rnd(case["seed"], [case["batch"] or 1] + spatial + [cin])
  xl, xn = nn.cast(x64, dt)
  x = xl if last else jnp.moveaxis(xl, -1, 1)
  if case["batch"] is None:
    x = x[0]
  wshape = tuple(ks) + (case["cg"], cout)
  mask = None
  if case["mask"]:
    mask = (nn.rnd(case["seed"] + 5, wshape) > -0.3).astype(np.float32)
    if case["seed"] % 2:
      # Any factors, not only zeros and ones.
      mask *= np.sign(nn.rnd(case["seed"] + 6, wshape)) * 0.5
  kw = dict(stride=form(stride, nd, case["form"]),
            rate=form(rate, nd, (case["form"] + 1) % 4), padding=pad,
            with_bias=case["bias"], feature_group_count=g, name="c")
  if df != "default":
    kw["data_format"] = df
  if mask is not None:
    kw["mask"] = (mask if dt == "float32" and case["form"] % 2 else
                  jnp.asarray(mask, dt))
  kshape = form(ks, nd, (case["form"] + 2) % 4)
  Cls = {1: hk.Conv1D, 2: hk.Conv2D, 3: hk.Conv3D}[nd]
  def f(x):
    m = (Cls(cout, kshape, **kw) if case["cls"] else
         hk.ConvND(nd, cout, kshape, **kw))
    return m(x)
  t = hk.transform(f)
  key = jax.random.PRNGKey(case["seed"])
  bad = case["bad"]
  if bad is not None:
    shape = lambda fn, *a: jax.eval_shape(hk.transform(fn).init, key, *a)
    if bad == "rank":
      raises(lambda: shape(f, x[..., 0] if case["batch"] is None else x[None]),
             ValueError, "input of the wrong rank")
    elif bad == "mask":
      raises(lambda: shape(lambda v: hk.ConvND(
          nd, cout, kshape, mask=np.ones(wshape[:-1] + (cout + 1,)),
          data_format="channels_last" if last else "channels_first")(v), x),
             ValueError, "mask of the wrong shape")
    elif bad == "groups":
      raises(lambda: shape(lambda v: hk.ConvND(
          nd, cout, kshape, feature_group_count=cin + 1,
          data_format="channels_last" if last else "channels_first")(v), x),
             ValueError, "group count that does not divide the channels")
    elif bad == "len":
      raises(lambda: shape(lambda v: hk.ConvND(nd, cout, [2] * (nd + 1))(v),
                           x), TypeError, "kernel of the wrong length")
      if nd > 1:
        raises(lambda: shape(lambda v: hk.ConvND(
            nd, cout, 2, stride=[1] * (nd + 1))(v), x), TypeError,
               "stride of the wrong length")
    elif bad == "nd":
      raises(lambda: shape(lambda v: hk.ConvND(0, cout, 2)(v), x), ValueError,
             "no spatial dimensions")
    else:
      raises(lambda: shape(lambda v: hk.ConvND(nd, cout, 2,
                                               data_format="XYZ")(v), x),
             ValueError, "unknown data format")
    return ["rejected"]
  p = jax.eval_shape(t.init, key, x)
  bshape = (cout,) if last else (cout,) + (1,) * nd
  want = {"c": {"w": (wshape, dt)}}
  if case["bias"]:
    want["c"]["b"] = (bshape, dt)
  nn.want_shapes(p, want, "convolution params")
  j, n = nn.fill(p, case["seed"])
  out = nn.apply_arrays(t, j, x, dt == "float32" and case["seed"] % 3 == 0)
  w = n["c"]["w"] if mask is None else n["c"]["w"] * mask
  ref = cr.conv(xn, w, stride, rate, padref, g)
  if case["bias"]:
    ref = ref + n["c"]["b"].reshape(-1)
  if not last:
    ref = np.moveaxis(ref, -1, 1)
  if case["batch"] is None:
    ref = ref[0]
  close(out, ref, "convolution", **nn.tol(dt, 2 if dt == "float32" else 3))
  check(str(out.dtype) == dt, f"output dtype {out.dtype}")
  labels = [f"nd{nd}", case["pad"]]
  if max(ks) > 1 and (max(stride) > 1 or max(rate) > 1 or g > 1
                      or case["pad"] not in ("SAME", "VALID")):
    labels.append("nt")
  return labels


# ------------------------------------------------------------------- depthwise


def dw_strat():
  d2 = lambda lo, hi: st.lists(st.integers(lo, hi), min_size=2, max_size=2)
  return st.fixed_dictionaries({
      "spatial": d2(1, 6), "kernel": d2(1, 3), "stride": d2(1, 2),
      "mult": st.integers(1, 3), "cin": st.integers(1, 3),
      "pad": st.sampled_from(["SAME", "VALID", "pairs"]),
      "pairs": st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)),
                        min_size=2, max_size=2),
      "last": st.booleans(), "fmt": st.integers(0, 2), "bias": st.booleans(),
      "batch": st.integers(1, 2), "sep": st.booleans(),
      "form": st.integers(0, 3), "seed": st.integers(0, 99)})


def run_dw(case):
  ks, stride = case["kernel"], case["stride"]
  pad = case["pad"]
  pairs = [tuple(q) for q in case["pairs"]]
  ref_pad = pairs if pad == "pairs" else pad
  spatial = list(case["spatial"])
  for i in range(2):
    extra = sum(pairs[i]) if pad == "pairs" else 0
    if pad != "SAME":
      need = max(ks[i] - extra, 1)
      if case["sep"] and pad == "VALID":
        # The second convolution sees what the first leaves.
        need = ks[i] if i == 0 else (ks[i] - 1) * stride[i] + 1
      elif case["sep"]:
        need = max(ks[i], (ks[i] - 1) * stride[i] + 1)
      spatial[i] = max(spatial[i], need)
  cin, mult, last = case["cin"], case["mult"], case["last"]
  df = fmt(2, last, case["fmt"])
  xl, xn = nn.cast(nn.rnd(case["seed"], [case["batch"]] + spatial + [cin]),
                   "float32")
  x = xl if last else jnp.moveaxis(xl, -1, 1)
  kw = dict(stride=form(stride, 2, case["form"]),
            padding=pairs if pad == "pairs" else pad, with_bias=case["bias"],
            name="d")
  if df != "default":
    kw["data_format"] = df
  Cls = hk.SeparableDepthwiseConv2D if case["sep"] else hk.DepthwiseConv2D
  t = hk.transform(lambda v: Cls(mult, form(ks, 2, (case["form"] + 1) % 4),
                                 **kw)(v))
  p = jax.eval_shape(t.init, jax.random.PRNGKey(0), x)
  co = cin * mult
  b = {"b": ((co,) if last else (co, 1, 1), "float32")} if case["bias"] else {}
  if case["sep"]:
    want = {"d/~/depthwise_conv2_d": {"w": ((ks[0], 1, 1, co), "float32")},
            "d/~/depthwise_conv2_d_1": {"w": ((1, ks[1], 1, co), "float32"),
                                        **b}}
  else:
    want = {"d": {"w": ((ks[0], ks[1], 1, co), "float32"), **b}}
  nn.want_shapes(p, want, "depthwise params")
  j, n = nn.fill(p, case["seed"])
  out = t.apply(j, None, x)
  v = xn
  if case["sep"]:
    v = cr.conv(v, n["d/~/depthwise_conv2_d"]["w"], stride, (1, 1), ref_pad,
                cin)
    v = cr.conv(v, n["d/~/depthwise_conv2_d_1"]["w"], (1, 1), (1, 1), ref_pad,
                co)
    bb = n["d/~/depthwise_conv2_d_1"].get("b")
  else:
    v = cr.conv(v, n["d"]["w"], stride, (1, 1), ref_pad, cin)
    bb = n["d"].get("b")
  if bb is not None:
    v = v + bb.reshape(-1)
  if not last:
    v = np.moveaxis(v, -1, 1)
  close(out, v, "depthwise convolution", dtype="float32",
        **nn.tol("float32", 2))
  return ["nt", "separable" if case["sep"] else "depthwise"] if (
      max(ks) > 1 and cin > 1) else []


# ---------------------------------------------------------------------- hk.pad


def pad_strat():
  return st.fixed_dictionaries({
      "n": st.integers(1, 4), "kernel": st.lists(st.integers(1, 7), min_size=4,
                                                 max_size=4),
      "rate": st.lists(st.integers(1, 4), min_size=4, max_size=4),
      "fns": st.lists(st.sampled_from(sorted(PADFN)), min_size=4, max_size=4),
      "kf": st.integers(0, 3), "rf": st.integers(0, 3), "pf": st.integers(0, 2),
      "bad": st.sampled_from([False] * 9 + [True])})


def run_pad(case):
  n = case["n"]
  def many(v, how):
    if how == 0:
      return v[0], [v[0]] * n
    if how == 1:
      return [v[0]], [v[0]] * n
    return (tuple(v[:n]) if how == 2 else list(v[:n])), v[:n]
  k, kr = many(case["kernel"], case["kf"])
  r, rr = many(case["rate"], case["rf"])
  names, nr = many(case["fns"], case["pf"])
  fn = (getattr(hk.pad, names) if isinstance(names, str) else
        [getattr(hk.pad, m) for m in names])
  if case["bad"]:
    raises(lambda: hk.pad.create(fn, [1] * (n + 1) if n > 0 else 1, r, n),
           TypeError, "kernel of the wrong length")
    return ["rejected"]
  got = hk.pad.create(fn, k, r, n)
  want = [PADFN[m]((a - 1) * b + 1) for m, a, b in zip(nr, kr, rr)]
  eq([tuple(map(int, g)) for g in got], want, "hk.pad.create")
  for m in PADFN:
    e = case["kernel"][0]
    eq(tuple(getattr(hk.pad, m)(e)), PADFN[m](e), f"hk.pad.{m}({e})")
  return ["nt"] if n > 1 and max(rr) > 1 else []


PROP = Prop("P15", [
    Sub("conv", strat, run, 4000, 40000,
        "a kernel larger than 1 with stride, dilation, groups or unusual "
        "padding"),
    Sub("depthwise", dw_strat, run_dw, 1400, 12000,
        "a kernel larger than 1 and several channels"),
    Sub("pad", pad_strat, run_pad, 2000, 20000,
        "several dimensions and a dilated kernel"),
])
