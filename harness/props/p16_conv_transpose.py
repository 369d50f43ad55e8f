"""P16: transposed convolutions against a direct float64 scatter."""
from core import Prop, Sub, Violation, check, eq, raises, close
import nnlib as nn
import convref as cr
from props.p15_conv import fmt, form
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk


def strat():
  d3 = lambda lo, hi: st.lists(st.integers(lo, hi), min_size=3, max_size=3)
  return st.fixed_dictionaries({
      "nd": st.sampled_from([1, 1, 2, 2, 3]), "spatial": nn.bigger(d3(1, 4), 9, 17),
      "kernel": d3(1, 4), "stride": st.one_of(st.just([1, 1, 1]), d3(1, 3)),
      "pad": st.sampled_from(["SAME", "VALID", "SAME", "VALID", "pairs"]),
      "pairs": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)),
                        min_size=3, max_size=3),
      "out": st.sampled_from(["none", "none", "ok", "ok", "wrong"]),
      "slack": d3(0, 2), "cin": nn.dim(1, 3, 9, 17), "cout": nn.dim(1, 3, 9, 17),
      "batch": st.sampled_from([None, 1, 2]), "last": st.booleans(),
      "fmt": st.integers(0, 3), "bias": st.booleans(), "mask": st.booleans(),
      "form": st.integers(0, 3), "cls": st.booleans(),
      "dtype": st.sampled_from(["float32"] * 5 + ["bfloat16"]),
      "bad": st.sampled_from([None] * 15 + ["rank", "mask", "nd", "fmt",
                                            "len"]),
      "seed": st.integers(0, 99)})


def run(case):
  nd, dt, last = case["nd"], case["dtype"], case["last"]
  ks, stride, spatial = (list(case[k][:nd])
                         for k in ("kernel", "stride", "spatial"))
  pad = case["pad"]
  pairs = [tuple(q) for q in case["pairs"][:nd]]
  outs_arg, fits = None, True
  geo = []
  use_out = case["out"] != "none" and pad != "pairs"
  for i in range(nd):
    n, k, s = spatial[i], ks[i], stride[i]
    if use_out:
      # Output sizes that a strided convolution would shrink to n.
      if pad == "VALID":
        o = (n - 1) * s + k + case["slack"][i] % s
      else:
        o = max((n - 1) * s + 1 + case["slack"][i] % s, 1)
      if case["out"] == "wrong" and i == nd - 1:
        o += s
      geo.append(cr.transpose_geometry(n, k, s, pad, o))
    else:
      p = pairs[i] if pad == "pairs" else pad
      low, o, ok = cr.transpose_geometry(n, k, s, p)
      if o < 1:
        # Too little padding for one output: pad as far as the kernel reaches.
        pairs[i] = (k - 1, k - 1)
        low, o, ok = cr.transpose_geometry(n, k, s, pairs[i])
      geo.append((low, o, ok))
  fits = all(g[2] for g in geo)
  cin, cout = case["cin"], case["cout"]
  df = fmt(nd, last, case["fmt"])
  xl, xn = nn.cast(nn.rnd(case["seed"], [case["batch"] or 1] + spatial + [cin]),
                   dt)
  x = xl if last else jnp.moveaxis(xl, -1, 1)
  if case["batch"] is None:
    x = x[0]
  wshape = tuple(ks) + (cout, cin)
  mask = None
  if case["mask"]:
    mask = (nn.rnd(case["seed"] + 5, wshape) > -0.3).astype(np.float32)
  kw = dict(stride=form(stride, nd, case["form"]),
            padding=tuple(pairs) if pad == "pairs" else pad,
            with_bias=case["bias"], name="c")
  if use_out:
    kw["output_shape"] = form([g[1] for g in geo], nd, case["form"])
  if df != "default":
    kw["data_format"] = df
  if mask is not None:
    kw["mask"] = (mask if dt == "float32" and case["form"] % 2 else
                  jnp.asarray(mask, dt))
  kshape = form(ks, nd, (case["form"] + 2) % 4)
  Cls = {1: hk.Conv1DTranspose, 2: hk.Conv2DTranspose,
         3: hk.Conv3DTranspose}[nd]
  def f(x):
    return (Cls(cout, kshape, **kw) if case["cls"] else
            hk.ConvNDTranspose(nd, cout, kshape, **kw))(x)
  t = hk.transform(f)
  key = jax.random.PRNGKey(0)
  shape = lambda fn, *a: jax.eval_shape(hk.transform(fn).init, key, *a)
  bad = case["bad"]
  cl = "channels_last" if last else "channels_first"
  if bad is not None:
    if bad == "rank":
      raises(lambda: shape(f, x[..., 0] if case["batch"] is None else x[None]),
             ValueError, "input of the wrong rank")
    elif bad == "mask":
      raises(lambda: shape(lambda v: hk.ConvNDTranspose(
          nd, cout, kshape, mask=np.ones(wshape[:-1] + (cin + 1,)),
          data_format=cl)(v), x), ValueError, "mask of the wrong shape")
    elif bad == "nd":
      raises(lambda: shape(lambda v: hk.ConvNDTranspose(0, cout, 2)(v), x),
             ValueError, "no spatial dimensions")
    elif bad == "fmt":
      raises(lambda: shape(lambda v: hk.ConvNDTranspose(
          nd, cout, 2, data_format="XYZ")(v), x), ValueError,
             "unknown data format")
    else:
      raises(lambda: shape(lambda v: hk.ConvNDTranspose(
          nd, cout, [2] * (nd + 1))(v), x), TypeError,
             "kernel of the wrong length")
      raises(lambda: shape(lambda v: hk.ConvNDTranspose(
          nd, cout, 2, output_shape=5, padding=[(0, 0)] * nd)(v), x),
             ValueError, "output_shape with explicit padding")
    return ["rejected"]
  if not fits:
    raises(lambda: shape(f, x), ValueError,
           "output_shape that does not match the input")
    return ["rejected"]
  p = jax.eval_shape(t.init, key, x)
  want = {"c": {"w": (wshape, dt)}}
  if case["bias"]:
    want["c"]["b"] = ((cout,) if last else (cout,) + (1,) * nd, dt)
  nn.want_shapes(p, want, "transposed convolution params")
  j, n = nn.fill(p, case["seed"])
  out = nn.apply_arrays(t, j, x, dt == "float32" and case["seed"] % 3 == 0)
  w = n["c"]["w"] if mask is None else n["c"]["w"] * mask
  ref = cr.conv_transpose(xn, w, stride, [g[0] for g in geo],
                          [g[1] for g in geo])
  if case["bias"]:
    ref = ref + n["c"]["b"].reshape(-1)
  if not last:
    ref = np.moveaxis(ref, -1, 1)
  if case["batch"] is None:
    ref = ref[0]
  close(out, ref, "transposed convolution",
        **nn.tol(dt, 2 if dt == "float32" else 3))
  check(str(out.dtype) == dt, f"output dtype {out.dtype}")
  labels = [f"nd{nd}", pad, "output_shape" if use_out else "default_shape"]
  if max(ks) > 1 and max(stride) > 1:
    labels.append("nt")
  return labels


PROP = Prop("P16", [
    Sub("transpose", strat, run, 4000, 40000,
        "a kernel and a stride larger than 1"),
])
