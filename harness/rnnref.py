"""Recurrent cores from a JSON spec, and their float64 reference."""
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

import convref
import nnlib as nn
from hypothesis import strategies as st

# Specs: ["rnn", h, double_bias] ["lstm", h] ["gru", h] ["id"] ["acc", v]
#        ["count"] ["tick"] ["relu"] ["lin", h] ["deep", [..]] ["skip", [..]]
#        ["reset", core]


class Acc(hk.RNNCore):
  """Running sum with a non-zero start and a scalar per-example step count."""

  def __init__(self, width, start, name=None):
    super().__init__(name=name)
    self.width, self.start = width, start

  def __call__(self, x, state):
    total = state["total"] * 0.5 + x
    n = state["n"] + 1
    return total * 1.5 + n[..., None] * 0.25, {"total": total, "n": n}

  def initial_state(self, batch_size):
    lead = () if batch_size is None else (batch_size,)
    return {"total": jnp.full(lead + (self.width,), self.start, jnp.float32),
            "n": jnp.full(lead, 2.0, jnp.float32)}


class Tick(hk.RNNCore):
  """Keeps how often it ran in Haiku state, not in the core state."""

  def __call__(self, x, state):
    n = hk.get_state("n", [], jnp.float32, init=jnp.zeros)
    hk.set_state("n", n + 1)
    return x + n * 0.125, state

  def initial_state(self, batch_size):
    return ()


def core_strategy(depth=2, top=True):
  leaf = [
      st.tuples(st.just("rnn"), st.integers(1, 4), st.booleans()).map(list),
      st.tuples(st.just("lstm"), st.integers(1, 4)).map(list),
      st.tuples(st.just("gru"), st.integers(1, 4)).map(list),
      st.just(["id"]), st.tuples(st.just("acc"), st.integers(-2, 3)).map(list),
      st.just(["tick"])]
  if not depth:
    return st.one_of(*leaf)
  sub = core_strategy(depth - 1, False)
  ff = st.one_of(st.just(["relu"]),
                 st.tuples(st.just("lin"), st.integers(1, 4)).map(list))
  opts = leaf + [
      st.tuples(st.just("deep"), st.lists(st.one_of(sub, sub, ff), max_size=5 if depth == 1 else 3)
                ).map(list),
      st.tuples(st.just("skip"), st.lists(sub, min_size=1, max_size=5 if depth == 1 else 3)
                ).map(list)]
  return st.one_of(*opts)


def is_core(spec):
  return spec[0] not in ("relu", "lin")


class Builder:
  """Builds modules with deterministic names, in the order of the spec."""

  def __init__(self):
    self.n = 0

  def name(self):
    self.n += 1
    return f"c{self.n}"

  def build(self, spec, width):
    """Returns (callable, output width)."""
    k = spec[0]
    if k == "relu":
      return jax.nn.relu, width
    nm = self.name()
    if k == "lin":
      return hk.Linear(spec[1], name=nm), spec[1]
    if k == "rnn":
      return hk.VanillaRNN(spec[1], double_bias=spec[2], name=nm), spec[1]
    if k == "lstm":
      return hk.LSTM(spec[1], name=nm), spec[1]
    if k == "gru":
      return hk.GRU(spec[1], name=nm), spec[1]
    if k == "id":
      return hk.IdentityCore(name=nm), width
    if k == "acc":
      return Acc(width, float(spec[1]), name=nm), width
    if k == "tick":
      return Tick(name=nm), width
    if k == "reset":
      c, w = self.build(spec[1], width)
      return hk.ResetCore(c, name=nm), w
    layers, w = [], width
    total = 0
    for i, s in enumerate(spec[1]):
      c, w = self.build(s, width + w if k == "skip" and i else w)
      total += w
      layers.append(c)
    if k == "deep":
      return hk.DeepRNN(layers, name=nm), w
    return hk.deep_rnn_with_skip_connections(layers, name=nm), total


class Ref:
  """Float64 evaluation of a spec given parameters keyed by module name."""

  def __init__(self, spec, width):
    self.spec, self.width = spec, width
    self.names = {}
    self.widths = {}
    self.n = 0
    self.want = {}
    self.ticks = {}
    self.out_width = self._number(spec, width, ())

  def _number(self, spec, width, path):
    k = spec[0]
    self.widths[path] = width
    if k == "relu":
      return width
    self.n += 1
    nm = f"c{self.n}"
    self.names[path] = nm
    f = "float32"
    if k == "lin":
      self.want[nm] = {"w": ((width, spec[1]), f), "b": ((spec[1],), f)}
      return spec[1]
    if k == "rnn":
      h = spec[1]
      self.want[nm + "/linear"] = {"w": ((width, h), f), "b": ((h,), f)}
      self.want[nm + "/linear_1"] = {"w": ((h, h), f)}
      if spec[2]:
        self.want[nm + "/linear_1"]["b"] = ((h,), f)
      return h
    if k == "lstm":
      h = spec[1]
      self.want[nm + "/linear"] = {"w": ((width + h, 4 * h), f),
                                   "b": ((4 * h,), f)}
      return h
    if k == "gru":
      h = spec[1]
      self.want[nm] = {"w_i": ((width, 3 * h), f), "w_h": ((h, 3 * h), f),
                       "b": ((3 * h,), f)}
      return h
    if k in ("id", "acc", "tick"):
      if k == "tick":
        self.ticks[nm] = 0
      return width
    if k == "reset":
      return self._number(spec[1], width, path + (0,))
    w, total = width, 0
    for i, s in enumerate(spec[1]):
      w = self._number(s, width + w if k == "skip" and i else w, path + (i,))
      total += w
    return total if k == "skip" else w

  def initial(self, batch, spec=None, path=()):
    spec = spec or self.spec
    k = spec[0]
    lead = () if batch is None else (batch,)
    if k in ("rnn", "gru"):
      return np.zeros(lead + (spec[1],))
    if k == "lstm":
      return hk.LSTMState(np.zeros(lead + (spec[1],)),
                          np.zeros(lead + (spec[1],)))
    if k in ("id", "tick"):
      return ()
    if k == "acc":
      return {"total": np.full(lead + (self.widths[path],), float(spec[1])),
              "n": np.full(lead, 2.0)}
    if k == "reset":
      return self.initial(batch, spec[1], path + (0,))
    return tuple(self.initial(batch, s, path + (i,))
                 for i, s in enumerate(spec[1]) if is_core(s))

  def step(self, p, x, state, spec=None, path=()):
    spec = spec or self.spec
    k = spec[0]
    nm = self.names.get(path)
    if k == "relu":
      return nn.relu(x), None
    if k == "lin":
      return x @ p[nm]["w"] + p[nm]["b"], None
    if k == "rnn":
      a, b = p[nm + "/linear"], p[nm + "/linear_1"]
      out = nn.relu(x @ a["w"] + a["b"] + state @ b["w"] + b.get("b", 0))
      return out, out
    if k == "lstm":
      q = p[nm + "/linear"]
      return lstm_gates(np.concatenate([x, state.hidden], -1) @ q["w"] + q["b"],
                        state)
    if k == "gru":
      q, h = p[nm], spec[1]
      gx = x @ q["w_i"]
      zr = nn.sigmoid(gx[..., :2 * h] + state @ q["w_h"][:, :2 * h] +
                      q["b"][:2 * h])
      z, r = zr[..., :h], zr[..., h:]
      a = np.tanh(gx[..., 2 * h:] + (r * state) @ q["w_h"][:, 2 * h:] +
                  q["b"][2 * h:])
      out = (1 - z) * state + z * a
      return out, out
    if k == "id":
      return x, state
    if k == "tick":
      out = x + self.ticks[nm] * 0.125
      self.ticks[nm] += 1
      return out, state
    if k == "acc":
      total, n = state["total"] * 0.5 + x, state["n"] + 1
      return total * 1.5 + n[..., None] * 0.25, {"total": total, "n": n}
    if k == "reset":
      x, reset = x
      batch = x.shape[0] if x.ndim == 2 else None
      init = self.initial(batch, spec[1], path + (0,))
      leaves, tdef = jax.tree_util.tree_flatten(state)
      rl = jax.tree_util.tree_leaves(reset)
      if len(rl) == 1:
        rl = rl * len(leaves)
      new = []
      for l, i, r in zip(leaves, jax.tree_util.tree_leaves(init), rl):
        r = np.asarray(r).reshape(np.shape(r) + (1,) * (l.ndim - np.ndim(r)))
        new.append(np.where(r, i, l))
      return self.step(p, x, jax.tree_util.tree_unflatten(tdef, new), spec[1],
                       path + (0,))
    outs, nxt, cur, si = [], [], x, 0
    for i, s in enumerate(spec[1]):
      if k == "skip" and i:
        cur = np.concatenate([x, cur], -1)
      if is_core(s):
        cur, ns = self.step(p, cur, state[si], s, path + (i,))
        nxt.append(ns)
        outs.append(cur)
        si += 1
      else:
        cur, _ = self.step(p, cur, None, s, path + (i,))
    return (np.concatenate(outs, -1) if k == "skip" else cur), tuple(nxt)


def lstm_gates(gates, state):
  i, g, f, o = np.split(gates, 4, -1)
  c = nn.sigmoid(f + 1) * state.cell + nn.sigmoid(i) * np.tanh(g)
  h = nn.sigmoid(o) * np.tanh(c)
  return h, hk.LSTMState(h, c)


def conv_lstm(p, nm, x, state, nd):
  """SAME convolutions, channels last; p[nm/..]['w'] laid out [*K, C, O]."""
  one = [1] * nd
  cv = lambda q, v: convref.conv(v, q["w"], one, one, "SAME") + q["b"]
  g = (cv(p[nm + "/input_to_hidden"], x) +
       cv(p[nm + "/hidden_to_hidden"], state.hidden))
  return lstm_gates(g, state)
