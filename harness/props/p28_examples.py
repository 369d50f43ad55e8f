"""P28: the example models, losses and training helpers."""
import os
import pickle
import shutil
import tempfile

from core import Prop, Sub, Violation, check, eq, raises, close, same_bits, fail, known
import convref
import examplelib
import nnlib as nn
import rnnref
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

seeds = st.integers(0, 10**6)


# ------------------------------------------------------------- transformer


def lm_strat():
  return st.fixed_dictionaries({
      "vocab": st.integers(2, 7), "b": st.integers(1, 3),
      "t": st.integers(1, 5), "heads": st.integers(1, 2),
      "layers": st.integers(1, 3), "dropout": st.sampled_from([0., 0., 0.5]),
      "training": st.booleans(), "pad": st.sampled_from([0, 1, 3]),
      "keys": st.integers(0, 5), "seed": seeds})


def _ln(p, x):
  m, v = x.mean(-1, keepdims=True), x.var(-1, keepdims=True)
  return (x - m) / np.sqrt(v + 1e-5) * p["scale"] + p["offset"]


def _gelu(x):
  return 0.5 * x * (1 + np.tanh(np.sqrt(2 / np.pi) * (x + 0.044715 * x**3)))


def _lm_ref(p, case, tokens):
  b, t = tokens.shape
  h = p["embed"]["embeddings"][tokens] + p["~"]["pos_embs"]
  visible = (tokens > 0)[:, None, None, :] & np.tril(np.ones((t, t), bool))
  lin = lambda m, x: x @ p[m]["w"] + p[m]["b"]
  split = lambda x: x.reshape(b, t, case["heads"], 64)
  for i in range(case["layers"]):
    n = f"transformer/h{i}"
    x = _ln(p[n + "_ln_1"], h)
    q, k, v = (split(lin(f"{n}_attn/{w}", x)) for w in ("query", "key",
                                                         "value"))
    w = np.einsum("bthd,bshd->bhts", q, k) / 8.
    w = nn.softmax(np.where(visible, w, -1e30))
    a = np.einsum("bhts,bshd->bthd", w, v).reshape(b, t, -1)
    h = h + lin(n + "_attn/linear", a)
    x = _ln(p[n + "_ln_2"], h)
    h = h + lin(n + "_mlp/linear_1", _gelu(lin(n + "_mlp/linear", x)))
  return lin("linear", _ln(p["transformer/ln_f"], h))


def lm_run(case):
  train = examplelib.load("transformer.train")
  vocab, b, t, d = case["vocab"], case["b"], case["t"], 64 * case["heads"]
  r = np.random.RandomState(case["seed"])
  tokens = r.randint(1, vocab, size=(b, t))
  if case["pad"] == 1:
    tokens[r.rand(b, t) < 0.4] = 0
  elif case["pad"] == 3:
    for i in range(b):
      tokens[i, r.randint(1, t + 1):] = 0
  tokens[0, 0] = max(tokens[0, 0], 1)   # the loss averages over real tokens
  target = r.randint(0, vocab, size=(b, t))
  data = {"obs": jnp.asarray(tokens), "target": jnp.asarray(target)}
  f = hk.transform(train.build_forward_fn(vocab, d, case["heads"],
                                          case["layers"], case["dropout"]))
  struct = jax.eval_shape(lambda k: f.init(k, data), jax.random.PRNGKey(0))
  j, p = nn.fill(struct, case["seed"], 0.15)
  rng = jax.random.PRNGKey(case["keys"])
  training = case["training"]
  out = f.apply(j, rng, data, training)
  labels = []
  real = tokens > 0
  plain = not (training and case["dropout"])
  got = np.asarray(out, np.float64)
  if plain:
    ref = _lm_ref(p, case, tokens)
    # Padding attends to nothing it may; nothing may be read into its output.
    close(got[real], ref[real], "logits", rtol=3e-3, atol=3e-3)
  # Positions see themselves and what is before them, padding excepted, and
  # nothing of the other sequences.
  i = r.randint(0, t)
  other = tokens.copy()
  other[:, i + 1:] = r.randint(0, vocab, size=(b, t - i - 1))
  keep = np.zeros((b, t), bool)
  keep[:, :i + 1] = True
  row = r.randint(0, b)
  out2 = f.apply(j, rng, dict(data, obs=jnp.asarray(other)), training)
  close(np.asarray(out2)[keep & real], got[keep & real],
        f"logits up to {i} after changing later tokens", rtol=1e-4, atol=1e-4)
  others = tokens.copy()
  others[row] = r.randint(0, vocab, size=t)
  keep = np.ones((b, t), bool)
  keep[row] = False
  out3 = f.apply(j, rng, dict(data, obs=jnp.asarray(others)), training)
  close(np.asarray(out3)[keep & real], got[keep & real],
        "logits after changing another sequence", rtol=1e-4, atol=1e-4)
  if (~real).any():
    # The embedding of the padding token reaches no real position.
    j2 = jax.tree_util.tree_map(lambda x: x, j)
    j2["embed"] = {"embeddings": j["embed"]["embeddings"].at[0].set(7.)}
    out4 = f.apply(j2, rng, data, training)
    close(np.asarray(out4)[real], got[real], "logits after changing padding",
          rtol=1e-4, atol=1e-4)
    labels.append("padding")
  loss = train.lm_loss_fn(f.apply, vocab, j, rng, data, training)
  lp = got - got.max(-1, keepdims=True)
  lp = lp - np.log(np.exp(lp).sum(-1, keepdims=True))
  nll = -np.take_along_axis(lp, target[..., None], -1)[..., 0]
  close(loss, nll[real].mean(), "loss", rtol=1e-3, atol=1e-4)
  if not plain:
    same_bits(f.apply(j, rng, data, True), out, "same key, same dropout")
    labels.append("dropout")
  if t > 1 and case["layers"] > 1:
    labels.append("nt")
  return labels


# ------------------------------------------------------------- checkpoints


def ckpt_strat():
  op = st.one_of(
      st.tuples(st.just("step"), st.integers(1, 4)),
      st.tuples(st.just("crash"), st.sampled_from(["write", "replace", "none"]),
                st.sampled_from([0, 1, 20, 200, 10**6])),
      st.tuples(st.just("restart")),
      st.tuples(st.just("touch"), st.integers(0, 3)))
  return st.fixed_dictionaries({
      "every": st.integers(1, 4), "start": st.sampled_from([0, 0, 0, 98, 9997]),
      "real": st.sampled_from([False, False, False, True]),
      "exists": st.booleans(), "order": st.integers(0, 10**6),
      "ops": st.lists(op, min_size=2, max_size=9)})


class _Crash(BaseException):
  """The process died here."""


class _File:
  """A file whose writer dies after a number of bytes."""

  def __init__(self, f, budget):
    self._f, self._budget = f, budget

  def write(self, data):
    data = bytes(data)
    if len(data) > self._budget[0]:
      self._f.write(data[:self._budget[0]])
      self._f.flush()
      raise _Crash()
    self._budget[0] -= len(data)
    return self._f.write(data)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self._f.close()

  def __getattr__(self, n):
    return getattr(self._f, n)


class _Os:
  """os, with directory listings in an arbitrary order and crashing renames."""

  def __init__(self, seed):
    self._r = np.random.RandomState(seed)
    self.shuffle = bool(seed % 2)
    self.crash = None
    self.listed = []

  def listdir(self, *a):
    out = sorted(os.listdir(*a))
    if self.shuffle:
      self._r.shuffle(out)
    self.listed = [f for f in out if "checkpoint_" in f]
    return out

  def _rename(self, fn, a):
    if self.crash == "replace":
      raise _Crash()
    return fn(*a)

  def replace(self, *a):
    return self._rename(os.replace, a)

  def rename(self, *a):
    return self._rename(os.rename, a)

  def __getattr__(self, n):
    return getattr(os, n)


class _Inner:
  """An updater that records the data it was given."""

  def init(self, rng, data):
    return {"step": np.array(0), "rng": np.asarray(rng),
            "seen": [float(data)]}

  def update(self, state, data):
    new = {"step": state["step"] + 1, "rng": state["rng"],
           "seen": list(state["seen"]) + [float(data)]}
    return new, {"step": state["step"], "loss": float(data)}


def ckpt_run(case):
  train = examplelib.load("transformer.train")
  scratch = tempfile.mkdtemp(prefix="vp28_")
  try:
    return _ckpt(case, train, os.path.join(scratch, "deep", "er")
                 if not case["exists"] else scratch)
  finally:
    train.__dict__.pop("open", None)
    train.os = os
    shutil.rmtree(scratch, ignore_errors=True)


def _data(step):
  return np.float32(step * 0.25 + 1)


def _ckpt(case, train, path):
  fake = _Os(case["order"])
  train.os = fake
  budget = None

  def opener(file, mode="r", *a, **k):
    f = open(file, mode, *a, **k)
    return _File(f, budget) if budget is not None and "w" in mode else f

  train.open = opener
  if case["real"]:
    def loss(params, rng, data):
      return jnp.sum((params["w"] - data) ** 2) * jax.random.uniform(rng)
    make = lambda: train.Updater(
        lambda rng, data: {"w": jax.random.normal(rng, (2,)) + data}, loss,
        examplelib.Sgd())
  else:
    make = _Inner

  def start():
    up = train.CheckpointingUpdater(make(), path, case["every"])
    return up, up.init(jax.random.PRNGKey(3), jnp.asarray(_data(0))
                       if case["real"] else _data(0))

  plain_up = make()
  flat = lambda s: [np.asarray(x) for x in jax.tree_util.tree_leaves(s)]

  def same(a, b, what):
    a, b = flat(a), flat(b)
    eq(len(a), len(b), what)
    for x, y in zip(a, b):
      close(x, y, what, rtol=1e-6, atol=1e-6)

  up, state = start()
  history = {}      # step -> the state an uninterrupted run has there
  ref = plain_up.init(jax.random.PRNGKey(3), jnp.asarray(_data(0))
                      if case["real"] else _data(0))
  same(state, ref, "state of a fresh start")
  offset = case["start"] // case["every"] * case["every"]
  fix = lambda s, k: dict(s, step=np.array(int(s["step"]) + k))
  state, ref = fix(state, offset), fix(ref, offset)
  history[offset] = ref

  def at(n):
    while n not in history:
      m = max(k for k in history if k < n)
      history[m + 1], _ = plain_up.update(history[m], _data(m))
    return history[n]

  draws = {}
  done = []         # steps whose checkpoint was written completely
  labels = []
  crashes = restarts = 0
  crashed = set()   # steps whose checkpoint was being written

  def step_of(name):
    return int(name.split("_")[-1].split(".")[0])

  def torn(name):
    with open(os.path.join(path, name), "rb") as f:
      try:
        pickle.load(f)
      except (EOFError, pickle.UnpicklingError):
        return True
    return False

  def resume():
    nonlocal up, state
    fake.listed = []
    try:
      up, state = start()
    except (EOFError, pickle.UnpicklingError) as e:
      last = fake.listed[-1] if fake.listed else None
      if not (known("P28", "torn-checkpoint") and last
              and step_of(last) in crashed and torn(last)):
        raise
      # Recorded finding. Go on as someone who removes the torn file would.
      labels.append("torn checkpoint")
      os.unlink(os.path.join(path, last))
      del e
      return resume()
    if done:
      want = max(done)
      last = fake.listed[-1] if fake.listed else None
      if (known("P28", "listing-order") and int(state["step"]) != want
          and last != max(fake.listed) and step_of(last) in done):
        # Recorded finding: exactly the checkpoint listed last.
        labels.append("listing order")
        want = step_of(last)
      eq(int(state["step"]), want, "resumed at step")
      same(state, at(want), "resumed state")
    else:
      eq(int(state["step"]), 0, "resumed at step")
      state = fix(state, offset)
      same(state, at(offset), "state of a restart without checkpoints")

  def one():
    nonlocal state
    n = int(state["step"])
    new, metrics = up.update(state, _data(n))
    if case["real"]:
      # Every step draws fresh randomness (here: the scale of the loss).
      u = float(metrics["loss"]) / float(np.sum(
          (np.asarray(state["params"]["w"], np.float64) - _data(n)) ** 2))
      for m, v in draws.items():
        check(m == n or abs(u - v) > 1e-4 * abs(v),
              lambda: f"steps {m} and {n} used the same random numbers")
      draws[n] = u
    if n % case["every"] == 0 and n not in done:
      done.append(n)
    eq(int(metrics["step"]), n, "metrics step")
    state = new
    eq(int(state["step"]), n + 1, "step after update")
    same(state, at(n + 1), f"state after step {n}")

  for op in case["ops"]:
    if op[0] == "step":
      for _ in range(op[1]):
        one()
    elif op[0] == "restart":
      resume()
      restarts += len(done) > 1
    elif op[0] == "touch":
      # Old checkpoints' times are not their order.
      if os.path.isdir(path):
        names = sorted(os.listdir(path))
        if names:
          os.utime(os.path.join(path, names[op[1] % len(names)]))
    else:
      # Run on to the next checkpoint and die while it is written.
      while int(state["step"]) % case["every"]:
        one()
      n = int(state["step"])
      budget = [op[2]] if op[1] == "write" else None
      fake.crash = op[1]
      try:
        one()
      except _Crash:
        crashes += 1
        crashed.add(n)
      finally:
        budget, fake.crash = None, None
      if n in crashed and n in done and known("P28", "torn-checkpoint") and any(
          step_of(f) == n and torn(f) for f in os.listdir(path)
          if f.startswith("checkpoint_")):
        done.remove(n)
      resume()
  for file in os.listdir(path) if os.path.isdir(path) else []:
    if (crashed and known("P28", "torn-checkpoint")
        and file.startswith("checkpoint_") and torn(file)):
      labels.append("torn checkpoint")
      check(step_of(file) not in done, f"{file} is torn")
      os.unlink(os.path.join(path, file))
  eq(sorted(int(f.split("_")[-1].split(".")[0])
            for f in os.listdir(path) if "checkpoint_" in f
            and f.endswith(".pkl")) if os.path.isdir(path) else [],
     sorted(done), "checkpoints kept")
  if crashes:
    labels.append("crash")
  if (crashes or restarts) and done:
    labels.append("nt")
  return labels


# --------------------------------------------------------------------- VAE


def vae_strat():
  return st.fixed_dictionaries({
      "b": st.integers(1, 4), "hidden": st.integers(1, 6),
      "latent": st.integers(1, 4),
      "shape": st.sampled_from([[28, 28, 1], [3], [2, 3], [4, 1, 2], [1]]),
      "dtype": st.sampled_from(["uint8", "float32", "bool", "int32"]),
      "scale": st.sampled_from([0.3, 1., 5.]), "key": st.integers(0, 1000),
      "wrong": st.booleans(), "seed": seeds})


def vae_run(case):
  vae = examplelib.load("vae")
  b, hid, lat = case["b"], case["hidden"], case["latent"]
  shape = tuple(case["shape"])
  r = np.random.RandomState(case["seed"])
  x = (r.rand(b, *shape) < 0.5)
  f = hk.transform(lambda x: vae.VariationalAutoEncoder(hid, lat, shape)(x))
  jx = jnp.asarray(x, case["dtype"])
  struct = jax.eval_shape(lambda k: f.init(k, jx), jax.random.PRNGKey(0))
  n = int(np.prod(shape))
  nn.want_shapes(struct, _vae_want(struct, n, hid, lat), "params")
  j, p = nn.fill(struct, case["seed"], 0.3)
  rng = jax.random.PRNGKey(case["key"])
  out = f.apply(j, rng, jx)
  names = _vae_names(struct)
  lin = lambda m, v: v @ p[names[m]]["w"] + p[names[m]]["b"]
  h = nn.relu(lin("e", x.reshape(b, -1).astype(np.float64)))
  mean, std = lin("mean", h), np.exp(lin("std", h))
  close(out.mean, mean, "mean", rtol=1e-3, atol=1e-4)
  close(out.stddev, std, "stddev", rtol=1e-3, atol=1e-4)
  k0, k1 = jax.random.split(rng)
  _, k2 = jax.random.split(k0)
  z = mean + std * np.asarray(jax.random.normal(k1, (b, lat)), np.float64)
  logits = lin("d1", nn.relu(lin("d", z))).reshape((b,) + shape)
  close(out.logits, logits, "logits", rtol=2e-3, atol=1e-3)
  eq(out.image.dtype, jnp.dtype(bool), "image dtype")
  same_bits(out.image, jax.random.bernoulli(k2, jax.nn.sigmoid(out.logits)),
            "image drawn from the logits with the second key")
  # Losses, on values of any size.
  lg = nn.rnd(case["seed"] + 1, (b,) + shape, 10. ** case["scale"] ** 0.5)
  ll = vae.binary_cross_entropy(jnp.asarray(x), jnp.asarray(lg, jnp.float32))
  lg = np.asarray(jnp.asarray(lg, jnp.float32), np.float64)
  want = np.where(x, np.logaddexp(0, -lg), np.logaddexp(0, lg))
  close(ll, want.reshape(b, -1).sum(-1), "binary cross entropy", rtol=1e-4,
        atol=1e-2)
  mu = nn.rnd(case["seed"] + 2, (b, lat), case["scale"])
  var = np.exp(nn.rnd(case["seed"] + 3, (b, lat), case["scale"]))
  kl = vae.kl_gaussian(jnp.asarray(mu, jnp.float32),
                       jnp.asarray(var, jnp.float32))
  close(kl, 0.5 * (var + mu**2 - 1 - np.log(var)).sum(-1), "kl", rtol=1e-4,
        atol=1e-3)
  zero = vae.kl_gaussian(jnp.zeros((b, lat)), jnp.ones((b, lat)))
  close(zero, np.zeros(b), "kl of equal distributions")
  if case["wrong"]:
    raises(lambda: vae.binary_cross_entropy(
        jnp.zeros((b,) + shape), jnp.zeros((b,) + shape + (1,))), ValueError,
           "images and logits of different shapes")
  return ["nt"] if b > 1 and len(shape) > 1 else []


def _vae_names(struct):
  ms = sorted(struct)
  enc = [m for m in ms if "/encoder/" in m]
  dec = [m for m in ms if "/decoder/" in m]
  eq((len(enc), len(dec)), (3, 2), f"encoder and decoder layers of {ms}")
  return dict(zip(("e", "mean", "std"), enc), d=dec[0], d1=dec[1])


def _vae_want(struct, n, hid, lat):
  nm = _vae_names(struct)
  dims = {"e": (n, hid), "mean": (hid, lat), "std": (hid, lat),
          "d": (lat, hid), "d1": (hid, n)}
  return {nm[k]: {"w": (d, "float32"), "b": (d[1:], "float32")}
          for k, d in dims.items()}


# ------------------------------------------------------------------ agents


def agent_strat():
  return st.fixed_dictionaries({
      "net": st.sampled_from(["catch", "catch", "shallow", "shallow_lstm",
                              "deep", "deep_lstm", "deep_lstm"]),
      "t": st.integers(1, 4), "b": st.integers(1, 3),
      "actions": st.integers(1, 5), "h": st.integers(3, 7),
      "w": st.integers(3, 7), "c": st.integers(1, 2),
      "steps": st.lists(st.integers(0, 2), min_size=12, max_size=12),
      "key": st.integers(0, 1000), "seed": seeds})


def _conv(p, x, stride, padding):
  return convref.conv(x, p["w"], [stride] * 2, [1, 1], padding) + p["b"]


def _max_pool(x):
  n, h, w, c = x.shape
  oh, ow = -(-h // 2), -(-w // 2)
  (lh, _), (lw, _) = convref.same_pads(h, 3, 2), convref.same_pads(w, 3, 2)
  out = np.full((n, oh, ow, c), -np.inf)
  for i in range(oh):
    for j in range(ow):
      a, e = max(i * 2 - lh, 0), max(j * 2 - lw, 0)
      out[:, i, j] = x[:, a:i * 2 - lh + 3, e:j * 2 - lw + 3].max((1, 2))
  return out


def _torso(p, net, x):
  n = x.shape[0]
  lin = lambda q, v: v @ q["w"] + q["b"]
  if net == "catch":
    q = lambda s: p["catch_net/" + s]
    x = nn.relu(lin(q("linear"), x.reshape(n, -1)))
    return nn.relu(lin(q("linear_1"), x))
  x = x / 255.
  if net.startswith("shallow"):
    q = lambda s: p["atari_net/~unroll/atari_shallow_torso/" + s]
    for s, st_ in (("conv2_d", 4), ("conv2_d_1", 2), ("conv2_d_2", 1)):
      x = nn.relu(_conv(q(s), x, st_, "VALID"))
    return nn.relu(lin(q("linear"), x.reshape(n, -1)))
  q = lambda s: p["atari_net/~unroll/atari_deep_torso/" + s]
  for i in range(3):
    x = _max_pool(_conv(q("conv2_d" + ("", "_1", "_2")[i]), x, 1, "SAME"))
    for j in range(2):
      blk = lambda s: q(f"residual_{i}_{j}/{s}")
      y = _conv(blk("conv2_d"), nn.relu(x), 1, "SAME")
      x = x + _conv(blk("conv2_d_1"), nn.relu(y), 1, "SAME")
  x = nn.relu(x).reshape(n, -1)
  return nn.relu(lin(q("linear"), x))


def agent_run(case):
  nets = examplelib.load("impala.haiku_nets")
  agents = examplelib.load("impala.agent")
  util = examplelib.load("impala.util")
  net, t, b, a = case["net"], case["t"], case["b"], case["actions"]
  h, w = (36, 37) if net.startswith("shallow") else (case["h"], case["w"])
  lstm = net.endswith("lstm")
  if net == "catch":
    factory = nets.CatchNet
  else:
    factory = lambda n: nets.AtariNet(n, net.startswith("deep"), lstm)
  shape = (h, w, case["c"])
  obs = nn.rnd(case["seed"], (t, b) + shape,
               1. if net == "catch" else 100.).astype(np.float32)
  spec = jax.ShapeDtypeStruct(shape, np.float32)
  agent = agents.Agent(a, spec, factory)
  struct = jax.eval_shape(agent.initial_params, jax.random.PRNGKey(0))
  j, p = nn.fill(struct, case["seed"], 0.1)
  kinds = np.asarray(case["steps"][:t * b]).reshape(t, b)
  ts = examplelib.TimeStep(
      jnp.asarray(kinds), jnp.zeros((t, b)), jnp.ones((t, b)),
      jnp.asarray(obs))
  state0 = agent.initial_state(b)
  if lstm:
    state0 = jax.tree_util.tree_map(
        lambda s: s + jnp.asarray(nn.rnd(case["seed"] + 5, s.shape, 0.5),
                                  s.dtype), state0)
  out = agent.unroll(j, ts, state0)
  # Reference.
  head = ("catch_net/linear_2", "catch_net/linear_3") if net == "catch" else (
      "atari_net/~_head/linear", "atari_net/~_head/linear_1")
  feat = _torso(p, net, obs.astype(np.float64).reshape((t * b,) + shape)
                ).reshape(t, b, -1)
  states = [nn.f64(state0)]
  if lstm:
    (m,) = [k for k in p if k.endswith("lstm/linear")]
    outs = []
    for i in range(t):
      s = states[-1]
      first = (kinds[i] == 0)[:, None]
      s = hk.LSTMState(np.where(first, 0, s.hidden), np.where(first, 0, s.cell))
      o, s = rnnref.lstm_gates(
          np.concatenate([feat[i], s.hidden], -1) @ p[m]["w"] + p[m]["b"], s)
      outs.append(o)
      states.append(s)
    feat = np.stack(outs)
  else:
    states = states * (t + 1)
  logits = feat @ p[head[0]]["w"] + p[head[0]]["b"]
  values = (feat @ p[head[1]]["w"] + p[head[1]]["b"])[..., 0]
  tol = dict(rtol=2e-3, atol=2e-3)
  close(out.policy_logits, logits, "unrolled policy", **tol)
  close(out.values, values, "unrolled values", **tol)
  # Stepping one environment at a time gives the same policy and states.
  e = case["seed"] % b
  s = jax.tree_util.tree_map(lambda v: v[e], state0)
  key = jax.random.PRNGKey(case["key"])
  for i in range(t):
    key, sub = jax.random.split(key)
    step = jax.tree_util.tree_map(lambda v: v[i, e], ts)
    got, s = agent.step(sub, j, step, s)
    close(got.policy_logits, logits[i, e], f"policy at step {i}", **tol)
    close(got.values, values[i, e], f"value at step {i}", **tol)
    check(0 <= int(got.action) < a, lambda: f"action {got.action} of {a}")
    same_bits(got.action, jnp.squeeze(hk.multinomial(
        sub, got.policy_logits, 1), -1), "action drawn with the key")
    for x, y in zip(jax.tree_util.tree_leaves(s), jax.tree_util.tree_leaves(
        jax.tree_util.tree_map(lambda v: v[e], states[i + 1]))):
      close(x, y, f"state after step {i}", **tol)
  # What an environment returns at the start of an episode.
  first = util.preprocess_step(examplelib.restart(obs[0, 0]))
  eq((float(first.reward), float(first.discount), int(first.step_type)),
     (0., 1., 0), "preprocessed restart")
  same_bits(first.observation, obs[0, 0], "preprocessed observation")
  none = agent.initial_state(None)
  for x, y in zip(jax.tree_util.tree_leaves(none),
                  jax.tree_util.tree_leaves(agent.initial_state(b))):
    eq((b,) + x.shape, y.shape, "initial state shapes")
  return ["nt"] if t > 1 and lstm and (kinds[1:] == 0).any() else []


# ----------------------------------------------------------------- the rest


def chars_strat():
  return st.fixed_dictionaries({
      "t": st.integers(1, 4), "b": st.integers(1, 3), "h": st.integers(1, 6),
      "text": st.text(alphabet=st.characters(max_codepoint=127), max_size=8),
      "seed": seeds})


def chars_run(case):
  train = examplelib.load("rnn.train")
  data = examplelib.load("rnn.dataset")
  t, b, h = case["t"], case["b"], case["h"]
  train.FLAGS.hidden_size = h
  r = np.random.RandomState(case["seed"])
  batch = {k: r.randint(0, data.NUM_CHARS, size=(t, b))
           for k in ("input", "target")}
  f = hk.without_apply_rng(hk.transform(train.sequence_loss))
  jb = {k: jnp.asarray(v) for k, v in batch.items()}
  struct = jax.eval_shape(lambda k: f.init(k, jb), jax.random.PRNGKey(0))
  j, p = nn.fill(struct, case["seed"], 0.5)
  lstms = sorted(m for m in p if "lstm" in m)
  mlp = sorted(m for m in p if "lstm" not in m)
  eq((len(lstms), len(mlp)), (2, 2), f"layers {sorted(p)}")
  q = [p[m] for m in lstms]
  s = [hk.LSTMState(np.zeros((b, h)), np.zeros((b, h)))] * 2
  total = 0.
  for i in range(t):
    x = np.eye(data.NUM_CHARS)[batch["input"][i]]
    for k in (0, 1):
      x, s[k] = rnnref.lstm_gates(
          np.concatenate([x, s[k].hidden], -1) @ q[k]["w"] + q[k]["b"], s[k])
      if k == 0:
        x = nn.relu(x)
    x = nn.relu(x @ p[mlp[0]]["w"] + p[mlp[0]]["b"])
    x = x @ p[mlp[1]]["w"] + p[mlp[1]]["b"]
    lp = np.log(nn.softmax(x))
    total -= np.take_along_axis(lp, batch["target"][i][:, None], -1).sum()
  close(f.apply(j, jb), total / (t * b), "sequence loss", rtol=1e-3, atol=1e-4)
  eq(data.decode(data.encode(case["text"])), case["text"], "decode(encode)")
  return ["nt"] if t > 1 and b > 1 else []


SPLITS = {"TRAIN": 1271167, "TRAIN_AND_VALID": 1281167, "VALID": 10000,
          "TEST": 50000}


def imagenet_strat():
  return st.fixed_dictionaries({
      "split": st.sampled_from(sorted(SPLITS)), "shards": st.integers(1, 9),
      "batch": st.integers(1, 512), "epochs": st.integers(2, 100),
      "warmup": st.integers(0, 1) | st.integers(0, 10),
      "lr": st.sampled_from([0.1, 1.0, 0.025]), "at": st.floats(0, 1.05),
      "smooth": st.sampled_from([0., 0.1, 0.5, 1.0]), "seed": seeds})


def imagenet_run(case):
  ds = examplelib.load("imagenet.dataset")
  train = examplelib.load("imagenet.train")
  split = ds.Split.from_string(case["split"].lower())
  n = SPLITS[case["split"]]
  eq(split.num_examples, n, "examples")
  # The shards cover the split once, away from the other half of TRAIN.
  at = SPLITS["VALID"] if case["split"] == "TRAIN" else 0
  for i in range(case["shards"]):
    s, e = ds._shard(split, i, case["shards"])
    eq(int(s), at, f"start of shard {i}")
    check(abs((e - s) - n / case["shards"]) < 1, f"size of shard {i}: {e - s}")
    at = int(e)
  eq(at, n + (SPLITS["VALID"] if case["split"] == "TRAIN" else 0), "last end")
  raises(lambda: ds._shard(split, case["shards"], case["shards"]),
         AssertionError, "shard out of range")
  fl = train.FLAGS
  fl.train_split = case["split"]
  fl.train_device_batch_size = case["batch"]
  fl.train_epochs = case["epochs"]
  fl.train_lr_warmup_epochs = warm = min(case["warmup"], case["epochs"] - 1)
  fl.train_lr_init = case["lr"]
  total = case["batch"] * jax.device_count()
  per = n / total
  step = float(np.float32(np.floor(case["at"] * case["epochs"] * per)))
  got = train.lr_schedule(jnp.asarray(step, jnp.float32))
  w, e = warm * per, case["epochs"] * per
  want = case["lr"] * total / 256 * 0.5 * (
      1 + np.cos(np.pi * max(step - w, 0) / (e - w)))
  want *= min(step / w, 1.) if warm else 1.
  peak = case["lr"] * total / 256
  close(got, want, "learning rate", rtol=1e-3, atol=1e-4 * peak)
  r = np.random.RandomState(case["seed"])
  labels = np.eye(1000)[r.randint(0, 1000, size=3)]
  sm = train.smooth_labels(jnp.asarray(labels), case["smooth"])
  close(np.asarray(sm).sum(-1), np.ones(3), "smoothed labels sum", rtol=1e-3)
  close(sm, np.where(labels == 1, 1 - case["smooth"] * 0.999,
                     case["smooth"] / 1000), "smoothed labels", rtol=1e-3,
        atol=1e-6)
  lg = r.randn(3, 1000) * 5
  close(train.softmax_cross_entropy(logits=jnp.asarray(lg), labels=sm),
        -(np.asarray(sm, np.float64) * np.log(nn.softmax(lg))).sum(-1),
        "cross entropy", rtol=1e-3)
  ps = [np.asarray(r.randn(*s)) for s in ((2, 3), (4,), ())]
  close(train.l2_loss([jnp.asarray(q) for q in ps]),
        0.5 * sum((q**2).sum() for q in ps), "l2 loss", rtol=1e-4)
  return ["nt"] if case["shards"] > 1 and warm and w < step < e else []


def prune_strat():
  mod = st.sampled_from(["linear", "linear_1", "mlp/linear", "batchnorm/scale",
                         "net/batch_norm", "conv", "mlp/~/linear_1"])
  return st.fixed_dictionaries({
      "params": st.dictionaries(mod, st.dictionaries(
          st.sampled_from(["w", "b", "scale"]), st.integers(0, 3), min_size=1,
          max_size=3), min_size=1, max_size=5),
      "match": st.lists(st.sampled_from(["linear", "linear_1", "conv", "", "w"]
                                        ), max_size=4),
      "progress": st.floats(0, 1), "b": st.integers(1, 3), "seed": seeds})


def prune_run(case):
  prune = examplelib.load("mnist_pruning")
  params = {m: {k: jnp.full((2,) * n, i + len(k)) for i, (k, n) in enumerate(
      sorted(v.items()))} for m, v in case["params"].items()}

  def matching(s):
    return lambda m, n, v: m.endswith(s) and not prune.sparsity_ignore(m, n, v)

  spec = tuple((matching(s), i / 7) for i, s in enumerate(case["match"]))
  heads, sparsity, tail = prune._create_partitions(spec, params)
  eq(list(sparsity), [i / 7 for i in range(len(spec))], "sparsities")
  want = [{} for _ in spec] + [{}]
  for m, v in params.items():
    for k, x in v.items():
      ignored = k == "b" or x.ndim == 1 or "batchnorm" in m or "batch_norm" in m
      eq(prune.sparsity_ignore(m, k, x), ignored, f"ignored {m}/{k}")
      i = next((i for i, s in enumerate(case["match"])
                if m.endswith(s) and not ignored), len(spec))
      want[i].setdefault(m, {})[k] = x
  plain = lambda t: {m: {k: np.asarray(v).tolist() for k, v in b.items()}
                     for m, b in t.items()}
  for i, (g, w) in enumerate(zip(list(heads) + [tail], want)):
    eq(plain(g), plain(w), f"partition {i}")
  merged = hk.data_structures.merge(*heads, tail)
  eq(plain(merged), plain(params), "partitions merged again")
  close(prune.zhugupta_func(case["progress"]), 1 - (1 - case["progress"])**3,
        "sparsity schedule")
  # The two MNIST programs classify with the same network.
  r = np.random.RandomState(case["seed"])
  img = r.randint(0, 256, size=(case["b"], 28, 28, 1)).astype(np.uint8)
  for mod in (prune, examplelib.load("mnist")):
    f = hk.without_apply_rng(hk.transform(mod.net_fn))
    struct = jax.eval_shape(lambda k: f.init(k, {"image": img}),
                            jax.random.PRNGKey(0))
    nn.want_shapes(struct, {
        n: {"w": (s, "float32"), "b": (s[1:], "float32")} for n, s in (
            ("linear", (784, 300)), ("linear_1", (300, 100)),
            ("linear_2", (100, 10)))}, "params")
    j, p = nn.fill(struct, case["seed"], 0.1)
    x = img.reshape(case["b"], -1) / 255.
    for n in ("linear", "linear_1", "linear_2"):
      x = nn.relu(x) @ p[n]["w"] + p[n]["b"]
    close(f.apply(j, {"image": jnp.asarray(img)}), x, "class scores",
          rtol=2e-3, atol=1e-3)
  return ["nt"] if sum(map(bool, want)) > 1 else []


PROP = Prop("P28", [
    Sub("language_model", lm_strat, lm_run, 96, 1600,
        "several tokens and layers"),
    Sub("checkpoints", ckpt_strat, ckpt_run, 400, 8000,
        "a run that was stopped, with a checkpoint to resume from"),
    Sub("vae", vae_strat, vae_run, 120, 2400, "a batch of images of rank > 1"),
    Sub("agents", agent_strat, agent_run, 56, 800,
        "an episode starts in the middle of an unroll of a recurrent agent"),
    Sub("characters", chars_strat, chars_run, 80, 1600,
        "several steps and sequences"),
    Sub("imagenet", imagenet_strat, imagenet_run, 200, 4000,
        "several shards and a step after the warm-up"),
    Sub("pruning", prune_strat, prune_run, 120, 2400,
        "parameters fall in several partitions"),
], ["optax, tensorflow, dm_env, dm-tree are replaced by small stand-ins; data "
    "loading, the actor and the learner cannot be imported here",
    "a checkpoint directory is used by one run at a time"])
