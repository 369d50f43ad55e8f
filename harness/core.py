"""Shared machinery: check registry, oracles' comparison helpers, violations."""
import hashlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")


def setup_paths():
  for p in (os.path.join(VERIF, "vendor"), HERE, REPO):
    if p in sys.path:
      sys.path.remove(p)
    sys.path.insert(0, p)


setup_paths()

import numpy as np  # noqa: E402


def known(pid, key):
  """Whether known_findings.txt lists the defect `key` of property pid."""
  path = os.path.join(VERIF, "known_findings.txt")
  if not os.path.exists(path):
    return False
  with open(path) as f:
    return any(l.startswith(f"finding: property={pid} {key}:") for l in f)


class Violation(Exception):
  """The code under test broke the property on the case being evaluated."""


class HarnessError(Exception):
  """The check itself is wrong: never reported as a violation."""


class Sub:
  """One generated check: a strategy of JSON cases and an oracle over a case."""

  def __init__(self, name, strategy, run, quick, thorough, rule, examples=()):
    self.name = name
    self.strategy = strategy      # callable -> hypothesis strategy
    self.run = run                # callable(case) -> iterable of labels
    self.quick = quick            # cases, quick tier, over all shards
    self.thorough = thorough
    self.rule = rule              # what makes a case non-trivial
    self.examples = list(examples)


class Prop:

  def __init__(self, pid, subs, assumptions=()):
    self.pid = pid
    self.subs = list(subs)
    self.assumptions = list(assumptions)


def jdump(x):
  return json.dumps(x, sort_keys=True, separators=(",", ":"), default=_jdefault)


def _jdefault(o):
  if isinstance(o, (np.integer,)):
    return int(o)
  if isinstance(o, (np.floating,)):
    return float(o)
  raise TypeError(f"case is not JSON: {o!r}")


def case_hash(sub, case):
  return hashlib.blake2b((sub + "|" + jdump(case)).encode(),
                         digest_size=8).hexdigest()


def derive_seed(*parts):
  h = hashlib.blake2b("|".join(map(str, parts)).encode(), digest_size=6)
  return int.from_bytes(h.digest(), "big")


# ---------------------------------------------------------------- comparisons


def fail(msg):
  raise Violation(msg)


def check(cond, msg):
  if not cond:
    raise Violation(msg() if callable(msg) else msg)


def eq(got, want, what):
  if type(got) is bool or type(want) is bool or not _same(got, want):
    if got is want or (type(got) == type(want) and got == want):
      return
    raise Violation(f"{what}: got {_short(got)}, expected {_short(want)}")


def _same(a, b):
  try:
    return bool(a == b)
  except Exception:  # pylint: disable=broad-except
    return False


def _short(x, n=600):
  s = repr(x)
  return s if len(s) <= n else s[:n] + "..."


def close(got, want, what, rtol=1e-4, atol=1e-5, dtype=None):
  """got: array from the code under test; want: numpy reference."""
  g = np.asarray(got)
  w = np.asarray(want)
  if g.shape != w.shape:
    raise Violation(f"{what}: shape {g.shape}, expected {w.shape}")
  if dtype is not None and str(g.dtype) != str(np.dtype(dtype)
                                                if dtype != "bfloat16"
                                                else "bfloat16"):
    raise Violation(f"{what}: dtype {g.dtype}, expected {dtype}")
  if g.size == 0:
    return
  if g.dtype.kind in "fcV" or str(g.dtype) == "bfloat16" or w.dtype.kind in "fc":
    g = g.astype(np.complex128 if g.dtype.kind == "c" else np.float64)
    w = w.astype(np.complex128 if w.dtype.kind == "c" else np.float64)
    ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
  else:
    ok = g == w
  if not np.all(ok):
    i = tuple(int(k) for k in np.argwhere(~np.asarray(ok))[0])
    raise Violation(
        f"{what}: {int(np.sum(~np.asarray(ok)))}/{g.size} elements differ; "
        f"first at {i}: got {g[i]!r}, expected {w[i]!r}")


def same_bits(got, want, what):
  """Exact equality of arrays (NaN equal to NaN), shape and dtype."""
  g = np.asarray(got)
  w = np.asarray(want)
  if g.shape != w.shape or g.dtype != w.dtype:
    raise Violation(f"{what}: {g.dtype}{g.shape}, expected {w.dtype}{w.shape}")
  if g.tobytes() != w.tobytes():
    if g.dtype.kind == "f" and np.array_equal(g, w, equal_nan=True):
      return
    raise Violation(f"{what}: got {_short(g)}, expected {_short(w)}")


def plain(tree):
  """Two-level mapping (params/state) as a plain dict of dicts of numpy."""
  return {str(m): {str(n): np.asarray(v) for n, v in b.items()}
          for m, b in tree.items()}


def struct_of(tree):
  return {str(m): {str(n): (tuple(np.shape(v)), str(np.asarray(v).dtype)
                            if not hasattr(v, "dtype") else str(v.dtype))
                   for n, v in b.items()} for m, b in tree.items()}


def same_struct(got, want, what):
  g, w = struct_of(got), struct_of(want)
  if g != w:
    raise Violation(f"{what}: structure {_short(g, 1500)}, "
                    f"expected {_short(w, 1500)}")


def same_keys(got, want, what):
  g = sorted((m, n) for m in got for n in got[m])
  w = sorted((m, n) for m in want for n in want[m])
  if g != w:
    raise Violation(f"{what}: entries {_short(g, 1500)}, "
                    f"expected {_short(w, 1500)}")
  gm = sorted(m for m in got if not len(got[m]))
  if gm:
    raise Violation(f"{what}: empty bundles {gm}")


def trees_close(got, want, what, **kw):
  same_keys(got, want, what)
  for m in want:
    for n in want[m]:
      close(got[m][n], want[m][n], f"{what}[{m}/{n}]", **kw)


def trees_bits(got, want, what):
  same_keys(got, want, what)
  for m in want:
    for n in want[m]:
      same_bits(got[m][n], want[m][n], f"{what}[{m}/{n}]")


def raises(fn, types, what, match=None):
  """fn must raise one of types; anything else is a violation."""
  try:
    out = fn()
  except types as e:
    if match is not None and match not in str(e):
      raise Violation(f"{what}: error message {str(e)[:200]!r} lacks {match!r}")
    return e
  except Exception as e:  # pylint: disable=broad-except
    raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:300]}, "
                    f"expected {types}") from e
  raise Violation(f"{what}: returned {_short(out, 200)} instead of raising "
                  f"{types}")


def data(seed, shape, scale=1.0, dtype=np.float32, kind="normal"):
  """Deterministic array data from a drawn integer seed."""
  r = np.random.RandomState(seed % (2**32))
  if kind == "normal":
    x = r.randn(*shape) * scale
  elif kind == "uniform":
    x = r.rand(*shape) * scale
  elif kind == "int":
    x = r.randint(-9, 10, size=shape) * scale
  return np.asarray(x).astype(dtype)
