"""P01: transformed functions are pure."""
import copy
import threading

from core import Prop, Sub, Violation, HarnessError, check, eq, raises
import proglib as pl
from hypothesis import strategies as st
import numpy as np
import jax
import jax.numpy as jnp
import haiku as hk

OPS = ["p", "p", "g", "s", "s", "r", "n", "c", "c", "m", "sc", "boom", "try",
       "rng", "use", "res", "mr", "pb", "gb"]
SAFE = [o for o in OPS if o not in ("boom", "pb", "gb")]
HOOKS = ["p", "p", "g", "s", "r", "n", "c", "c", "getter", "creator", "icept",
         "yield", "yield", "yield", "yield", "sc", "rng"]


def outside_ok():
  """After any call, the calling thread is outside every transform again."""
  raises(hk.next_rng_key, ValueError, "next_rng_key outside a transform")
  raises(lambda: hk.get_parameter("w", [], init=jnp.zeros), ValueError,
         "get_parameter outside a transform")
  raises(lambda: hk.get_state("w", [], init=jnp.zeros), ValueError,
         "get_state outside a transform")
  raises(lambda: hk.Linear(3), ValueError, "constructing a module outside")
  raises(hk.running_init, ValueError, "running_init outside a transform")


def snapshot(tree):
  return {m: {n: (v, int(v)) for n, v in b.items()} for m, b in tree.items()}


def unchanged(tree, snap, what):
  eq(sorted(tree), sorted(snap), f"{what}: modules of the argument")
  for m in snap:
    eq(sorted(tree[m]), sorted(snap[m]), f"{what}: entries of the argument")
    for n in snap[m]:
      check(tree[m][n] is snap[m][n][0] and int(tree[m][n]) == snap[m][n][1],
            f"{what}: argument entry {m}/{n} was replaced")


def hist_strat():
  prog = pl.programs(st, ops=OPS, max_classes=2, max_stmts=3, max_main=4,
                     boom_anywhere=True, keyed=True)
  act = st.one_of(
      st.tuples(st.just("init"), st.integers(0, 2), st.integers(0, 3),
                st.integers(0, 9)),
      st.tuples(st.just("apply"), st.integers(0, 2), st.integers(0, 3),
                st.integers(0, 9), st.integers(0, 2)),
      st.tuples(st.just("apply"), st.integers(0, 2), st.integers(0, 3),
                st.integers(0, 9), st.integers(0, 2)))
  return st.fixed_dictionaries({
      "progs": st.lists(prog, min_size=1, max_size=2),
      "acts": st.lists(act, min_size=3, max_size=8)})


def tree_variants(t, kind):
  """The same parameters in different containers."""
  t = pl.to_jnp(t)
  if kind == 1:
    return hk.data_structures.to_immutable_dict(t)
  return t


def run_hist(case):
  """Histories of init/apply calls on several functions, some of which raise.

  Every call is predicted by a model that knows nothing of the other calls.
  """
  fns = []
  for prog in case["progs"]:
    r = pl.HkRun(prog)
    fns.append((prog, r, hk.transform_with_state(r.main)))
  inits = {}
  kinds, failed = set(), 0
  done = []
  kept = []
  # Make sure that every function is initialised at least once.
  acts = [["init", i, 1, 2] for i in range(len(fns))] + list(case["acts"])
  for a in acts:
    i = a[1] % len(fns)
    prog, run, f = fns[i]
    seed, x = a[2], a[3]
    try:
      if a[0] == "init":
        m = pl.Model(prog, "init", {}, {}, seed)
        mk, mv = pl.model_outcome(lambda: m.run(x))
        # A seed and the key made from it are the same thing.
        ikey = seed if x % 3 == 0 else jax.random.PRNGKey(seed)
        hkk, hv = pl.outcome(lambda: f.init(ikey, x))
        eq(hkk, mk, f"outcome of init of function {i}")
        if mk is None:
          eq(pl.to_ints(hv[0], True), m.final_params(), "params from init")
          eq(pl.to_ints(hv[1], True), m.final_state(True), "state from init")
          inits[i] = (m.final_params(), m.final_state(True), hv)
          kept.append((hv[0], m.final_params(), "params returned by init"))
          kept.append((hv[1], m.final_state(True), "state returned by init"))
      else:
        if i not in inits:
          continue
        p, s, objs = inits[i]
        if a[4] != 2:
          p = pl.perturb(p, a[4])
        m = pl.Model(prog, "apply", p, s, seed)
        mk, mv = pl.model_outcome(lambda: m.run(x))
        if a[4] == 2:
          pj, sj = objs           # the very objects returned earlier
        else:
          pj, sj = tree_variants(p, a[4] % 2), tree_variants(s, a[4] % 2)
        sp, ss = snapshot(pj), snapshot(sj)
        key = seed if x % 3 == 0 else jax.random.PRNGKey(seed)
        kb = np.asarray(key).tobytes()
        hkk, hv = pl.outcome(lambda: f.apply(pj, sj, key, x))
        eq(hkk, mk, f"outcome of apply of function {i}")
        unchanged(pj, sp, "params")
        unchanged(sj, ss, "state")
        check(np.asarray(key).tobytes() == kb, "rng argument changed")
        if mk is None:
          eq(int(hv[0]), mv, f"output of apply of function {i}")
          eq(pl.to_ints(hv[1], True), m.final_state(False),
             f"state from apply of function {i}")
          unchanged(sj, ss, "state after reading the result")
          kept.append((hv[1], m.final_state(False), "state returned by apply"))
          if a[4] != 0:
            inits[i] = (inits[i][0], m.final_state(False),
                        (inits[i][2][0], hv[1]))
    except pl.TooBig:
      return ["too-big"]
    run.log, run.keys, run.instances = [], [], []
    outside_ok()
    kinds.add((a[0], i))
    failed += mk is not None
    done.append(a[0])
  for tree, want, what in kept:
    eq(pl.to_ints(tree, True), want, what + ", re-read at the end")
  labels = []
  if len(done) >= 4 and "apply" in done:
    labels.append("nt")
  if failed:
    labels.append("with-failed-call")
  if len(fns) > 1:
    labels.append("several-functions")
  return labels


def jit_strat():
  return st.fixed_dictionaries({
      "prog": pl.programs(st, ops=SAFE, max_classes=2, max_stmts=3, max_main=4),
      "seed": st.integers(0, 5), "x": st.integers(0, 50)})


def run_jit(case):
  prog, seed, x = case["prog"], case["seed"], case["x"]
  m = pl.Model(prog, "init", {}, {}, seed)
  try:
    mk, _ = pl.model_outcome(lambda: m.run(x))
  except pl.TooBig:
    return ["too-big"]
  if mk is not None:
    return ["rejected"]
  r = pl.HkRun(prog)
  r.quiet = 1
  f = hk.transform_with_state(r.main)
  p, s = jax.jit(f.init)(jax.random.PRNGKey(seed), jnp.int32(x))
  eq(pl.to_ints(p, True), m.final_params(), "params from jitted init")
  eq(pl.to_ints(s, True), m.final_state(True), "state from jitted init")
  ma = pl.Model(prog, "apply", m.final_params(), m.final_state(True), seed + 1)
  try:
    mk, mv = pl.model_outcome(lambda: ma.run(x))
  except pl.TooBig:
    return ["too-big"]
  if mk is not None:
    return ["apply-rejected"]
  japply = jax.jit(f.apply)
  for _ in range(2):
    out, s2 = japply(p, s, jax.random.PRNGKey(seed + 1), jnp.int32(x))
    eq(int(out), mv, "output of jitted apply")
    eq(pl.to_ints(s2, True), ma.final_state(False), "state from jitted apply")
  outside_ok()
  return ["nt"] if (m.created or s) else []


NEST = ["p", "g", "s", "r", "n", "c", "c", "sc", "inner", "inner", "m"]


def nested_strat():
  inner = pl.programs(st, ops=SAFE, max_classes=2, max_stmts=2, max_main=3)

  @st.composite
  def go(draw):
    prog = draw(pl.programs(st, ops=[o for o in NEST if o != "inner"],
                            max_classes=2, max_stmts=3, max_main=3))
    inners = draw(st.lists(inner, min_size=1, max_size=2))
    # Insert inner transforms at generated points of main and of methods.
    bodies = [prog["main"]] + [b for c in prog["classes"]
                               for b in c["methods"].values()]
    for _ in range(draw(st.integers(1, 3))):
      b = draw(st.sampled_from(bodies))
      pos = draw(st.integers(0, len(b)))
      b.insert(pos, ["inner", draw(st.integers(0, len(inners) - 1)),
                     draw(st.integers(0, 3))])
    prog["inners"] = inners
    return {"prog": prog, "seed": draw(st.integers(0, 4)),
            "x": draw(st.integers(0, 20))}
  return go()


def run_nested(case):
  labels, mi, _ = pl.agree(case, applies=1)
  if mi is not None:
    labels.append("nt")
  return labels


class Scheduler:
  """Runs threads one at a time; hands over at every yield point."""

  def __init__(self, n, order):
    self.n = n
    self.order = order
    self.pos = 0
    self.alive = set(range(n))
    self.events = [threading.Event() for _ in range(n)]
    self.lock = threading.Lock()
    self.switches = 0

  def pick(self, me):
    if not self.alive:
      return None
    for _ in range(len(self.order) or 1):
      t = self.order[self.pos % len(self.order)] % self.n if self.order else 0
      self.pos += 1
      if t in self.alive:
        return t
    return min(self.alive)

  def handover(self, me, done=False):
    with self.lock:
      if done:
        self.alive.discard(me)
      nxt = self.pick(me)
      if nxt is None or nxt == me:
        return
      self.switches += 1
      self.events[me].clear()
      self.events[nxt].set()
    if not done:
      if not self.events[me].wait(120):
        raise HarnessError("scheduler stuck")

  def start(self):
    self.events[self.pick(None)].set()


def threads_strat():
  # The first threads' bodies share names so that leaks would be visible.
  return st.fixed_dictionaries({
      "progs": st.lists(pl.programs(st, ops=HOOKS, max_classes=2, max_stmts=3,
                                    max_main=4, depth=2),
                        min_size=2, max_size=3),
      "order": st.lists(st.integers(0, 2), min_size=4, max_size=24),
      "seed": st.integers(0, 3)})


def run_threads(case):
  n = len(case["progs"])
  seed = case["seed"]
  sched = Scheduler(n, case["order"])
  results = [None] * n
  errs = [None] * n

  def work(t):
    if not sched.events[t].wait(120):
      raise HarnessError("never scheduled")
    try:
      prog = case["progs"][t]
      run = pl.HkRun(prog, on_yield=lambda: sched.handover(t))
      f = hk.transform_with_state(run.main)
      out = []
      hkk, hv = pl.outcome(lambda: f.init(jax.random.PRNGKey(seed + t), t))
      log = run.log
      run.log = []
      if hkk is None:
        p, s = hv
        k2, v2 = pl.outcome(
            lambda: f.apply(p, s, jax.random.PRNGKey(seed + t + 1), t + 5))
        out = [pl.to_ints(p, True), pl.to_ints(s, True), log, k2,
               None if k2 else [int(v2[0]), pl.to_ints(v2[1], True)], run.log]
      results[t] = [hkk, out]
      outside_ok()
    except BaseException as e:  # pylint: disable=broad-except
      errs[t] = e
    finally:
      sched.handover(t, done=True)

  want = []
  try:
    for t, prog in enumerate(case["progs"]):
      m = pl.Model(prog, "init", {}, {}, seed + t)
      mk, _ = pl.model_outcome(lambda: m.run(t))
      if mk is not None:
        want.append([mk, []])
        continue
      ma = pl.Model(prog, "apply", m.final_params(), m.final_state(True),
                    seed + t + 1)
      k2, v2 = pl.model_outcome(lambda: ma.run(t + 5))
      want.append([None, [m.final_params(), m.final_state(True), m.log, k2,
                          None if k2 else [v2, ma.final_state(False)],
                          ma.log]])
  except pl.TooBig:
    return ["too-big"]
  ts = [threading.Thread(target=work, args=(t,), daemon=True)
        for t in range(n)]
  for t in ts:
    t.start()
  sched.start()
  for t in ts:
    t.join(300)
  for e in errs:
    if e is not None:
      raise e
  for t in range(n):
    eq(results[t][0], want[t][0], f"thread {t}: outcome of init")
    if want[t][0] is None:
      names = ["params", "initial state", "init hooks", "apply outcome",
               "apply result", "apply hooks"]
      for nm, g, w in zip(names, results[t][1], want[t][1]):
        if nm == "apply hooks" and want[t][1][3] is not None:
          continue
        eq(g, w, f"thread {t}: {nm}")
  outside_ok()
  return ["nt"] if sched.switches >= 3 else []


WRAPS = ["plain", "optimize", "optimize", "jit", "remat", "vmap", "scan",
         "grad"]


def wrapped_strat():
  stmt = st.sampled_from(["key", "key", "yield", "yield", "param", "state",
                          "mod", "keys2", "sub"])
  body = st.fixed_dictionaries({
      "wrap": st.sampled_from(WRAPS),
      "body": st.lists(stmt, min_size=2, max_size=7)})
  return st.fixed_dictionaries({
      "fns": st.lists(body, min_size=1, max_size=3),
      "threads": st.lists(st.integers(0, 2), min_size=2, max_size=3),
      "order": st.lists(st.integers(0, 2), min_size=4, max_size=24),
      "seed": st.integers(0, 3)})


class _Draw(hk.Module):

  def __call__(self, x, yield_):
    w = hk.get_parameter("w", [], init=hk.initializers.RandomNormal())
    yield_()
    return x * w + jax.random.uniform(hk.next_rng_key())


def wrapped_fn(spec, on_yield):
  """A function using wrapped Haiku code that hands over at its yields."""
  def body(x):
    for i, s in enumerate(spec["body"]):
      if s == "key":
        x = x + jax.random.uniform(hk.next_rng_key())
      elif s == "keys2":
        for k in hk.next_rng_keys(2):
          x = 2 * x + jax.random.uniform(k)
      elif s == "yield":
        on_yield()
      elif s == "param":
        x = x + hk.get_parameter("p%d" % (i % 2), [],
                                 init=hk.initializers.RandomNormal())
      elif s == "state":
        c = hk.get_state("c", [], init=jnp.zeros)
        hk.set_state("c", c + 1.)
        x = x + c
      elif s == "mod":
        x = _Draw(name="m%d" % (i % 2))(x, on_yield)
      elif s == "sub":
        with hk.with_rng(hk.next_rng_key()):
          on_yield()
          x = x + jax.random.uniform(hk.next_rng_key())
    return x

  w = spec["wrap"]
  if w == "optimize":
    return hk.experimental.optimize_rng_use(body)

  def main(x):
    if w == "plain" or hk.running_init():
      return body(x)
    if w == "jit":
      return hk.jit(body)(x)
    if w == "remat":
      return hk.remat(body)(x)
    if w == "vmap":
      return hk.vmap(body, in_axes=0, out_axes=0)(
          jnp.stack([x, x + 1.])).sum()
    if w == "grad":
      return hk.grad(lambda y: body(y) ** 2)(x)
    return hk.scan(lambda c, _: (body(c), c), x, None, length=2)[0]
  return main


def run_wrapped(case):
  """Transformed functions under jit, scan, ... behave the same in threads."""
  local = threading.local()

  def on_yield():
    sched = getattr(local, "sched", None)
    if sched is not None:
      sched.handover(local.t)

  specs = [case["fns"][i % len(case["fns"])] for i in case["threads"]]
  n = len(specs)
  # Threads that run the same function share one transformed function.
  fs = {}
  for i in case["threads"]:
    i %= len(case["fns"])
    if i not in fs:
      fs[i] = hk.transform_with_state(wrapped_fn(case["fns"][i], on_yield))
  seed = case["seed"]

  def calls(t):
    f = fs[case["threads"][t] % len(case["fns"])]
    p, s = f.init(jax.random.PRNGKey(seed + t), jnp.float32(t))
    out, s2 = f.apply(p, s, jax.random.PRNGKey(seed + t + 7),
                      jnp.float32(t + 1))
    return [nums(p), nums(s), float(out), nums(s2)]

  want = [calls(t) for t in range(n)]
  sched = Scheduler(n, case["order"])
  results, errs = [None] * n, [None] * n

  def work(t):
    local.sched, local.t = sched, t
    if not sched.events[t].wait(120):
      raise HarnessError("never scheduled")
    try:
      results[t] = calls(t)
      outside_ok()
    except BaseException as e:  # pylint: disable=broad-except
      errs[t] = e
    finally:
      sched.handover(t, done=True)

  ts = [threading.Thread(target=work, args=(t,), daemon=True)
        for t in range(n)]
  for t in ts:
    t.start()
  sched.start()
  for t in ts:
    t.join(300)
  for e in errs:
    if e is not None:
      raise e
  for t in range(n):
    for nm, g, w in zip(["params", "initial state", "output", "state"],
                        results[t], want[t]):
      eq(g, w, f"thread {t} ({specs[t]['wrap']}): {nm}")
  outside_ok()
  labels = [specs[t]["wrap"] for t in range(n)]
  return labels + (["nt"] if sched.switches >= 3 else [])


# ------------------------------------------- arrays given are never written to


def _mask(*shape):
  return (np.arange(np.prod(shape)).reshape(shape) % 3 > 0).astype(np.float32)


def _unroll(core, x):
  return hk.dynamic_unroll(core, x, core.initial_state(x.shape[0]),
                           time_major=False)


_INNER = hk.transform(lambda v: hk.Linear(2)(v))
LAYERS = {   # on [2, 6, 4] inputs; `t`: training
    "linear": lambda x, t: hk.Linear(3)(x),
    "mlp": lambda x, t: hk.nets.MLP([3, 2])(x),
    "bias": lambda x, t: hk.Bias()(x, multiplier=2.),
    "conv": lambda x, t: hk.Conv1D(3, 2)(x),
    "conv_mask": lambda x, t: hk.Conv1D(3, 2, mask=_mask(2, 4, 3))(x),
    "conv_first": lambda x, t: hk.Conv1D(3, 2, data_format="NCW")(x),
    "convt": lambda x, t: hk.Conv1DTranspose(3, 2)(x),
    "convt_mask": lambda x, t: hk.Conv1DTranspose(3, 2, mask=_mask(2, 3, 4))(x),
    "depthwise": lambda x, t: hk.DepthwiseConv2D(2, 2)(x[..., None]),
    "separable": lambda x, t: hk.SeparableDepthwiseConv2D(2, 2)(x[..., None]),
    "batch_norm": lambda x, t: hk.BatchNorm(True, True, 0.9)(x, t),
    "batch_norm_args": lambda x, t: hk.BatchNorm(False, False, 0.9)(
        x, t, scale=np.full(4, 2., "f"), offset=np.ones(4, "f")),
    "layer_norm": lambda x, t: hk.LayerNorm(-1, True, True)(x),
    "group_norm": lambda x, t: hk.GroupNorm(2)(x),
    "instance_norm": lambda x, t: hk.InstanceNorm(True, True)(x),
    "max_pool": lambda x, t: hk.max_pool(x, 2, 1, "SAME"),
    "avg_pool": lambda x, t: hk.avg_pool(x, 2, 1, "SAME"),
    "ema": lambda x, t: hk.ExponentialMovingAverage(
        0.9, zero_debias=True)(x, update_stats=t),
    "ema_warm": lambda x, t: hk.ExponentialMovingAverage(
        0.9, warmup_length=2, zero_debias=False)(x, update_stats=t),
    "spectral": lambda x, t: hk.SpectralNorm()(x, update_stats=t),
    "vq": lambda x, t: hk.nets.VectorQuantizer(4, 3, 0.25)(x, t),
    "vq_ema": lambda x, t: hk.nets.VectorQuantizerEMA(4, 3, 0.25, 0.9)(x, t),
    "attention": lambda x, t: hk.MultiHeadAttention(2, 2, 1.)(x, x, x),
    "lstm": lambda x, t: _unroll(hk.LSTM(3), x),
    "gru": lambda x, t: _unroll(hk.GRU(3), x),
    "rnn": lambda x, t: _unroll(hk.VanillaRNN(3), x),
    "embed": lambda x, t: hk.Embed(5, 3)(np.arange(4, dtype=np.int32)),
    "embed_given": lambda x, t: hk.Embed(
        embedding_matrix=np.ones((5, 2), "f"))(np.arange(4, dtype=np.int32)),
    "flatten": lambda x, t: hk.Flatten()(x),
    "reshape": lambda x, t: hk.Reshape((-1, 2))(x),
    "batch_apply": lambda x, t: hk.BatchApply(hk.Linear(2))(x),
    "sequential": lambda x, t: hk.Sequential([hk.Linear(2), jnp.tanh])(x),
    "scan": lambda x, t: hk.scan(lambda c, v: (c + v, c * v), x[0], x),
    "loop": lambda x, t: hk.fori_loop(0, 2, lambda i, v: v * 2 + i, x),
    "lift": lambda x, t: _INNER.apply(hk.experimental.lift(_INNER.init)(
        hk.next_rng_key(), x), None, x),
}


def arrays_strat():
  return st.fixed_dictionaries({
      "layers": st.lists(st.sampled_from(sorted(LAYERS)), min_size=1,
                         max_size=3),
      "first": st.sampled_from(sorted(LAYERS)),
      "train": st.booleans(), "seed": st.integers(0, 99),
      "calls": st.integers(1, 2)})


def run_arrays(case):
  """Numpy arrays handed to init and apply come back as they were."""
  tmap = jax.tree_util.tree_map
  names = [case["first"]] + case["layers"]

  def main(x, train):
    return [LAYERS[n](x, train or hk.running_init()) for n in names]

  t = hk.transform_with_state(main)
  x = np.random.RandomState(case["seed"]).randn(2, 6, 4).astype("f")
  key = np.array(jax.random.PRNGKey(case["seed"]))
  copy = lambda tree: tmap(np.array, tree)
  plain = lambda tree: {m: dict(b) for m, b in tree.items()}

  def unchanged(given, kept, what):
    for a, b in zip(jax.tree_util.tree_leaves(given),
                    jax.tree_util.tree_leaves(kept)):
      check(a.dtype == b.dtype and a.shape == b.shape
            and a.tobytes() == b.tobytes(), f"{what} changed an array it was "
            f"given: {b.tolist()} became {a.tolist()}")

  args = (key, x)
  kept = copy(args)
  p, s = t.init(*args, True)
  unchanged(args, kept, "init")
  p, s = copy(plain(p)), copy(plain(s))
  outs = []
  for _ in range(case["calls"]):
    args = (p, s, key, x)
    kept = copy(args)
    outs.append(t.apply(*args, case["train"]))
    unchanged(args, kept, "apply")
  for o in outs[1:]:
    for a, b in zip(jax.tree_util.tree_leaves((outs[0][0], plain(outs[0][1]))),
                    jax.tree_util.tree_leaves((o[0], plain(o[1])))):
      check(np.array_equal(np.asarray(a), np.asarray(b)),
            "a second call gave another result")
  return ["nt"] if p else []


def nums(tree):
  return {m: {n: float(v) for n, v in b.items()} for m, b in tree.items()}


PROP = Prop("P01", [
    Sub("histories", hist_strat, run_hist, 6000, 60000,
        "at least four calls in the history, one of them apply"),
    Sub("jit", jit_strat, run_jit, 300, 4000,
        "the program creates a parameter or state"),
    Sub("nested", nested_strat, run_nested, 1600, 20000,
        "an inner transform ran inside the outer one"),
    Sub("threads", threads_strat, run_threads, 3000, 30000,
        "at least three switches between threads inside transforms"),
    Sub("arrays", arrays_strat, run_arrays, 250, 6000,
        "the layers have parameters or state"),
    Sub("threads_wrapped", wrapped_strat, run_wrapped, 96, 2000,
        "at least three switches between threads inside transforms"),
], assumptions=[
    "threads are interleaved at generated yield points inside transformed "
    "functions, one running at a time"])
