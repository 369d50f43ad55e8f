"""Float64 references for convolutions and pooling (channels last)."""
import itertools

import numpy as np


def same_pads(n, eff_k, stride):
  out = -(-n // stride)
  total = max((out - 1) * stride + eff_k - n, 0)
  return total // 2, total - total // 2


def conv(x, w, stride, rate, pads, groups=1):
  """x: [N, *S, C]; w: [*K, C/g, O]; pads: per-dimension (lo, hi) or SAME."""
  nd = w.ndim - 2
  ks = w.shape[:nd]
  eff = [(k - 1) * r + 1 for k, r in zip(ks, rate)]
  if pads == "SAME":
    pads = [same_pads(n, e, s) for n, e, s in zip(x.shape[1:-1], eff, stride)]
  elif pads == "VALID":
    pads = [(0, 0)] * nd
  xp = np.pad(x, [(0, 0)] + [tuple(p) for p in pads] + [(0, 0)])
  outs = [max((n - e) // s + 1, 0)
          for n, e, s in zip(xp.shape[1:-1], eff, stride)]
  o = w.shape[-1]
  cg, og = x.shape[-1] // groups, o // groups
  res = np.zeros((x.shape[0],) + tuple(outs) + (o,))
  if 0 in outs:
    return res
  for k in itertools.product(*map(range, ks)):
    sl = [slice(None)]
    for i in range(nd):
      a = k[i] * rate[i]
      sl.append(slice(a, a + (outs[i] - 1) * stride[i] + 1, stride[i]))
    part = xp[tuple(sl)]
    for g in range(groups):
      res[..., g * og:(g + 1) * og] += (
          part[..., g * cg:(g + 1) * cg] @ w[k][:, g * og:(g + 1) * og])
  return res


def conv_transpose(x, w, stride, lows, outs):
  """x: [N, *S, C]; w: [*K, O, C]: y[i*s + K-1-k - low] += w[k] x[i]."""
  nd = w.ndim - 2
  ks = w.shape[:nd]
  res = np.zeros((x.shape[0],) + tuple(outs) + (w.shape[-2],))
  for i in itertools.product(*map(range, x.shape[1:-1])):
    for k in itertools.product(*map(range, ks)):
      pos = tuple(i[d] * stride[d] + ks[d] - 1 - k[d] - lows[d]
                  for d in range(nd))
      if all(0 <= p < n for p, n in zip(pos, outs)):
        res[(slice(None),) + pos] += x[(slice(None),) + i] @ w[k].T
  return res


def transpose_geometry(n, k, s, padding, out=None):
  """(low, output size) of a transposed convolution along one dimension."""
  if out is not None:
    if padding == "VALID":
      low, want = 0, (out - k + s) // s
    else:
      low, want = max(0, (n - 1) * s + k - out) // 2, -(-out // s)
    return low, out, want == n
  if padding == "VALID":
    return 0, n * s + max(k - s, 0), True
  if padding == "SAME":
    pad_len = k + s - 2
    a = k - 1 if s > k - 1 else -(-pad_len // 2)
    return k - 1 - a, n * s, True
  lo, hi = padding
  return k - 1 - lo, (n - 1) * s + 1 + lo + hi - (k - 1), True
