"""P24: the ResNet and MobileNet families, in float64."""
import jax
jax.config.update("jax_enable_x64", True)

from core import Prop, Sub, Violation, check, eq, raises, close
import nnlib as nn
import convref
from hypothesis import strategies as st
import zlib
import numpy as np
import jax.numpy as jnp
import haiku as hk

seeds = st.integers(0, 10**6)
F = "float64"
IMAGES = [(8, 8), (9, 7), (5, 6), (16, 4)]


def fill64(struct, seed):
  j, n = {}, {}
  for m in struct:
    j[m], n[m] = {}, {}
    for k, v in struct[m].items():
      h = zlib.crc32(f"{seed}|{m}|{k}".encode())
      if np.dtype(v.dtype).kind == "i":
        j[m][k] = jnp.asarray(2, v.dtype)
        n[m][k] = 2
        continue
      fan = int(np.prod(v.shape[:-1])) or 1
      x = nn.rnd(h, v.shape) * (1.0 / np.sqrt(fan) if len(v.shape) > 1 and
                                k == "w" else 0.5)
      if m.endswith("var_ema"):
        x = np.abs(x) + 0.3
      j[m][k], n[m][k] = jnp.asarray(x), np.asarray(x)
  return j, n


class Net:
  """Records the structure a network must have and evaluates it."""

  def __init__(self, p, s, mode, bn):
    self.p, self.s, self.mode, self.bn_cfg = p, s, mode, bn
    self.params, self.state, self.new = {}, {}, {}

  def conv(self, nm, x, k, o, stride, pads, bias=False, groups=1):
    ci = x.shape[-1]
    self.params[nm] = {"w": ((k, k, ci // groups, o), F)}
    if bias:
      self.params[nm]["b"] = ((o,), F)
    if self.p is None:
      if pads == "SAME":
        sp = [-(-n // stride) for n in x.shape[1:3]]
      elif pads == "VALID":
        sp = [(n - k) // stride + 1 for n in x.shape[1:3]]
      else:
        sp = [(n + 2 - k) // stride + 1 for n in x.shape[1:3]]
      return np.zeros((x.shape[0],) + tuple(sp) + (o,))
    out = convref.conv(x, self.p[nm]["w"], (stride,) * 2, (1, 1), pads,
                       groups=groups)
    return out + (self.p[nm]["b"] if bias else 0)

  def bn(self, nm, x):
    c = x.shape[-1]
    w = (1, 1, 1, c)
    self.params[nm] = {"scale": (w, F), "offset": (w, F)}
    for e in ("mean_ema", "var_ema"):
      self.state[f"{nm}/~/{e}"] = {"counter": ((), "int32"), "hidden": (w, F),
                                   "average": (w, F)}
    if self.p is None:
      return x
    if self.mode == "eval":
      mean = self.s[f"{nm}/~/mean_ema"]["average"]
      var = self.s[f"{nm}/~/var_ema"]["average"]
    else:
      mean = x.mean((0, 1, 2), keepdims=True)
      var = x.var((0, 1, 2), keepdims=True)
    d = self.bn_cfg["decay_rate"]
    for e, v in (("mean_ema", mean), ("var_ema", var)):
      old = self.s[f"{nm}/~/{e}"]
      if self.mode == "train":
        cnt = old["counter"] + 1
        h = old["hidden"] * d + v * (1 - d)
        self.new[f"{nm}/~/{e}"] = {"counter": cnt, "hidden": h,
                                   "average": h / (1 - d ** cnt)}
      else:
        self.new[f"{nm}/~/{e}"] = old
    q = self.p[nm]
    return ((x - mean) / np.sqrt(var + self.bn_cfg["eps"]) * q["scale"] +
            q["offset"])

  def linear(self, nm, x, o):
    self.params[nm] = {"w": ((x.shape[-1], o), F), "b": ((o,), F)}
    if self.p is None:
      return np.zeros((x.shape[0], o))
    return x @ self.p[nm]["w"] + self.p[nm]["b"]


def max_pool(x):
  out = [-(-n // 2) for n in x.shape[1:3]]
  pads = [convref.same_pads(n, 3, 2) for n in x.shape[1:3]]
  xp = np.pad(x, [(0, 0)] + pads + [(0, 0)], constant_values=-np.inf)
  res = np.full((x.shape[0],) + tuple(out) + (x.shape[-1],), -np.inf)
  for a in range(3):
    for b in range(3):
      res = np.maximum(res, xp[:, a:a + 2 * out[0] - 1:2,
                               b:b + 2 * out[1] - 1:2])
  return res


def resnet(net, x, c, root="res_net"):
  r = root + "/~/"
  x = net.conv(r + "initial_conv", x, 7, 64, 2, "SAME")
  if not c["v2"]:
    x = nn.relu(net.bn(r + "initial_batchnorm", x))
  x = max_pool(x) if net.p is not None else np.zeros(
      (x.shape[0],) + tuple(-(-n // 2) for n in x.shape[1:3]) + (64,))
  for g in range(4):
    ch, div = c["channels"][g], 4 if c["bottleneck"] else 1
    for b in range(c["blocks"][g]):
      nm = f"{r}block_group_{g}/~/block_{b}/~/"
      stride = (1, 2, 2, 2)[g] if b == 0 else 1
      proj = b == 0 and c["proj"][g]
      if c["bottleneck"]:
        layers = [(ch // div, 1, 1), (ch // div, 3, stride), (ch, 1, 1)]
      else:
        layers = [(ch, 3, stride), (ch, 3, 1)]
      if not c["v2"]:
        sc = x
        if proj:
          sc = net.conv(nm + "shortcut_conv", x, 1, ch, stride, "SAME")
          sc = net.bn(nm + "shortcut_batchnorm", sc)
        y = x
        for i, (o, k, s) in enumerate(layers):
          y = net.conv(f"{nm}conv_{i}", y, k, o, s, "SAME")
          y = net.bn(f"{nm}batchnorm_{i}", y)
          if i < len(layers) - 1:
            y = nn.relu(y)
        x = nn.relu(y + sc)
      else:
        sc = y = x
        for i, (o, k, s) in enumerate(layers):
          y = nn.relu(net.bn(f"{nm}batchnorm_{i}", y))
          if i == 0 and proj:
            sc = net.conv(nm + "shortcut_conv", y, 1, ch, stride, "SAME")
          y = net.conv(f"{nm}conv_{i}", y, k, o, s, "SAME")
        x = y + sc
  if c["v2"]:
    x = nn.relu(net.bn(r + "final_batchnorm", x))
  return net.linear(r + c.get("logits", "logits"), x.mean((1, 2)), c["classes"])


def mobilenet(net, x, c, root="mobile_net_v1"):
  r = root + "/"
  bias = not c["bn"]
  bn = (lambda nm, v: net.bn(nm, v)) if c["bn"] else (lambda nm, v: v)
  x = net.conv(r + "conv2_d", x, 3, 32, 2, "VALID", bias=bias)
  x = nn.relu(bn(r + "batch_norm", x))
  for i, (ch, s) in enumerate(zip(c["channels"], c["strides"])):
    nm = r + "mobile_net_v1_block" + (f"_{i}" if i else "") + "/"
    ci = x.shape[-1]
    x = net.conv(nm + "depthwise_conv", x, 3, ci, s, [(1, 1), (1, 1)],
                 bias=bias, groups=ci)
    x = nn.relu(bn(nm + "batch_norm", x))
    x = net.conv(nm + "pointwise_conv", x, 1, ch, 1, "VALID", bias=bias)
    x = nn.relu(bn(nm + "batch_norm_1", x))
  return net.linear(r + "logits", x.mean((1, 2)), c["classes"])


def compare(t, ref, case, bn, shape, mode_args):
  x = jnp.asarray(nn.rnd(case["seed"], shape))
  xn = np.asarray(x)
  ps, ss = jax.eval_shape(lambda k, x: t.init(k, x, "train"),
                          jax.random.PRNGKey(0), x)
  shapes = Net(None, None, "train", bn)
  ref(shapes, xn)
  nn.want_shapes(ps, shapes.params, "params")
  nn.want_shapes(ss, shapes.state, "state")
  p, pn = fill64(ps, case["seed"])
  s, sn = fill64(ss, case["seed"])
  for k, mode in enumerate(case["modes"]):
    x = jnp.asarray(nn.rnd(case["seed"] + k + 1, shape))
    out, s = t.apply(p, s, None, x, mode)
    net = Net(pn, sn, mode, bn)
    want = ref(net, np.asarray(x))
    close(out, want, f"{mode} output", dtype=F, rtol=1e-6, atol=1e-7)
    new = {m: {a: v for a, v in b.items()} for m, b in net.new.items()}
    eq(sorted(m for m in s if s[m]), sorted(new), "state modules")
    for m in new:
      for a in new[m]:
        close(s[m][a], np.asarray(new[m][a]), f"{mode}: state {m}/{a}",
              rtol=1e-6, atol=1e-8)
    sn = new
  return p


# ---------------------------------------------------------------------- ResNet


def resnet_strat():
  return st.fixed_dictionaries({
      "blocks": st.lists(st.integers(1, 2), min_size=4, max_size=4),
      "width": st.lists(st.sampled_from([4, 8]), min_size=4, max_size=4),
      "plain": st.booleans(), "v2": st.booleans(), "bottleneck": st.booleans(),
      "image": st.sampled_from(IMAGES), "batch": st.integers(1, 2),
      "bn": st.sampled_from([None, {"decay_rate": 0.5}, {"eps": 0.1},
                             {"decay_rate": 0.7, "eps": 1e-3}]),
      "logits": st.booleans(), "classes": st.integers(1, 3),
      "modes": st.lists(st.sampled_from(["train", "eval", "local"]),
                        min_size=2, max_size=3),
      "seed": seeds})


def run_resnet(case):
  ch = list(case["width"])
  proj = [True] * 4
  if case["plain"]:
    ch[0], proj[0] = 64, False
  kw = {}
  if case["bn"] is not None:
    kw["bn_config"] = dict(case["bn"])
  if case["logits"]:
    kw["logits_config"] = {"w_init": jnp.ones, "name": "head"}
  bn = {"decay_rate": 0.9, "eps": 1e-5, **(case["bn"] or {})}
  c = {"v2": case["v2"], "bottleneck": case["bottleneck"], "channels": ch,
       "proj": proj, "blocks": case["blocks"], "classes": case["classes"],
       "logits": "head" if case["logits"] else "logits"}
  mk = lambda: hk.nets.ResNet(
      case["blocks"], case["classes"], resnet_v2=case["v2"],
      bottleneck=case["bottleneck"], channels_per_group=ch,
      use_projection=proj, **kw)
  t = hk.transform_with_state(lambda x, mode: mk()(
      x, mode == "train", test_local_stats=mode == "local"))
  shape = (case["batch"],) + tuple(case["image"]) + (3,)
  compare(t, lambda net, x: resnet(net, x, c), case, bn, shape, None)
  raises(lambda: hk.transform_with_state(lambda: hk.nets.ResNet(
      case["blocks"][:3], 2)).init(None), ValueError, "three groups")
  raises(lambda: hk.transform_with_state(lambda: hk.nets.ResNet(
      case["blocks"], 2, channels_per_group=ch + [4])).init(None), ValueError,
         "five channel counts")
  return ["nt"] if "eval" in case["modes"] and "train" in case["modes"] else []


# ------------------------------------------------------------------- MobileNet


def mobile_strat():
  return st.fixed_dictionaries({
      "blocks": st.lists(st.tuples(st.sampled_from([1, 2]),
                                   st.sampled_from([4, 8, 12])).map(list),
                         max_size=4),
      "bn": st.booleans(), "image": st.sampled_from(IMAGES),
      "batch": st.integers(1, 2), "classes": st.integers(1, 3),
      "modes": st.lists(st.sampled_from(["train", "eval"]), min_size=1,
                        max_size=3), "seed": seeds})


def run_mobile(case):
  strides = [b[0] for b in case["blocks"]]
  chans = [b[1] for b in case["blocks"]]
  c = {"bn": case["bn"], "strides": strides, "channels": chans,
       "classes": case["classes"]}
  t = hk.transform_with_state(lambda x, mode: hk.nets.MobileNetV1(
      strides, chans, case["classes"], use_bn=case["bn"])(x, mode == "train"))
  shape = (case["batch"],) + tuple(case["image"]) + (3,)
  compare(t, lambda net, x: mobilenet(net, x, c), case,
          {"decay_rate": 0.999, "eps": 1e-5}, shape, None)
  raises(lambda: hk.transform_with_state(lambda: hk.nets.MobileNetV1(
      strides + [1], chans)).init(None), ValueError, "unequal lengths")
  return ["nt"] if case["blocks"] and case["bn"] else []


# ------------------------------------------------------- the published variants

VARIANTS = {
    18: ((2, 2, 2, 2), False), 34: ((3, 4, 6, 3), False),
    50: ((3, 4, 6, 3), True), 101: ((3, 4, 23, 3), True),
    152: ((3, 8, 36, 3), True), 200: ((3, 24, 36, 3), True)}


def variant_strat():
  return st.fixed_dictionaries({
      "depth": st.sampled_from(sorted(VARIANTS) + ["mobile"]),
      "v2": st.booleans(), "classes": st.integers(1, 5)})


def run_variant(case):
  x = jax.ShapeDtypeStruct((1, 64, 64, 3), jnp.float64)
  net = Net(None, None, "train", {})
  if case["depth"] == "mobile":
    t = hk.transform_with_state(lambda x: hk.nets.MobileNetV1(
        num_classes=case["classes"])(x, True))
    mobilenet(net, np.zeros(x.shape), {
        "bn": True, "strides": (1, 2, 1, 2, 1, 2, 1, 1, 1, 1, 1, 2, 1),
        "channels": (64, 128, 128, 256, 256, 512, 512, 512, 512, 512, 512, 1024,
                     1024), "classes": case["classes"]})
  else:
    blocks, bott = VARIANTS[case["depth"]]
    cls = getattr(hk.nets, f"ResNet{case['depth']}")
    t = hk.transform_with_state(lambda x: cls(
        case["classes"], resnet_v2=case["v2"])(x, True))
    resnet(net, np.zeros(x.shape), {
        "v2": case["v2"], "bottleneck": bott, "blocks": blocks,
        "channels": (256, 512, 1024, 2048) if bott else (64, 128, 256, 512),
        "proj": (bott, True, True, True), "classes": case["classes"]},
           root=f"res_net{case['depth']}")
  p, s = jax.eval_shape(t.init, jax.random.PRNGKey(0), x)
  nn.want_shapes(p, net.params, f"{case['depth']} params")
  nn.want_shapes(s, net.state, f"{case['depth']} state")
  return ["nt", str(case["depth"])]


# --------------------------------------------------------------- initial values


def init_strat():
  return st.fixed_dictionaries({
      "v2": st.booleans(), "bottleneck": st.booleans(),
      "image": st.sampled_from([(8, 8)]), "seed": seeds})


def run_init(case):
  """Fresh networks: residual branches that start at zero, zero logits."""
  t = hk.transform_with_state(lambda x: hk.nets.ResNet(
      (1, 1, 1, 1), 3, resnet_v2=case["v2"], bottleneck=case["bottleneck"],
      channels_per_group=(4, 4, 4, 4))(x, True))
  x = jnp.asarray(nn.rnd(case["seed"], (1, 8, 8, 3)))
  p, s = jax.jit(t.init)(jax.random.PRNGKey(case["seed"]), x)
  for m in p:
    for k, v in p[m].items():
      leaf = m.split("/")[-1]
      if k == "scale":
        want = 0.0 if (leaf == "batchnorm_2" and not case["v2"]) else 1.0
      elif k in ("offset", "b") or leaf == "logits":
        want = 0.0
      else:
        check(float(jnp.std(v)) > 0, f"{m}/{k} is constant")
        continue
      close(v, np.full(v.shape, want), f"{m}/{k}")
  out, _ = t.apply(p, s, None, x)
  close(out, np.zeros((1, 3)), "fresh logits")
  return ["nt"]


PROP = Prop("P24", [
    Sub("resnet", resnet_strat, run_resnet, 160, 800,
        "a training and an evaluation step"),
    Sub("mobilenet", mobile_strat, run_mobile, 160, 800,
        "at least one block, with batch norm"),
    Sub("variants", variant_strat, run_variant, 48, 60, "every case",
        examples=[{"depth": d, "v2": False, "classes": 2}
                  for d in (18, 50, "mobile")]),
    Sub("fresh", init_strat, run_init, 24, 60, "every case"),
], ["jax runs with 64-bit floats in this check, so that batch statistics of "
    "tiny images do not dominate the comparison"])
