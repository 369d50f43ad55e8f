"""Runs one check: shards of generated cases, confirmation, evidence."""
import argparse
import collections
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

PY = sys.executable
ID_TO_MODULE = {}


def prop_module(pid):
  for f in sorted(os.listdir(os.path.join(HERE, "props"))):
    if f.startswith(pid.lower() + "_") and f.endswith(".py"):
      return "props." + f[:-3]
  raise SystemExit(f"unknown property {pid}")


def load(pid):
  import core  # sets up sys.path
  core.setup_paths()
  import warnings
  warnings.simplefilter("ignore")
  mod = importlib.import_module(prop_module(pid))
  import haiku
  want = os.path.realpath(os.path.join(core.REPO, "haiku"))
  got = os.path.realpath(os.path.dirname(haiku.__file__))
  if want != got:
    raise SystemExit(f"imported haiku from {got}, not {want}")
  return mod.PROP


class _Stop(BaseException):
  pass


def describe(e):
  tb = traceback.format_exception(type(e), e, e.__traceback__)
  return "".join(tb)[-6000:]


def summary(e):
  return f"{type(e).__name__}: {str(e)[:800]}"


CASE_LIMIT_S = 200      # cases take milliseconds to seconds
QUICK_BUDGET_S = 420    # a quick shard stops generating after this long


def evaluate(sub, case):
  """Returns (labels, None) or (None, exception)."""
  import core

  def late(unused_signum, unused_frame):
    raise core.Violation(f"no answer within {CASE_LIMIT_S} s")

  signal.signal(signal.SIGALRM, late)
  signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
  try:
    labels = sub.run(case)
    signal.setitimer(signal.ITIMER_REAL, 0)
    return set(labels or ()), None
  except core.HarnessError:
    raise
  except (MemoryError, KeyboardInterrupt):
    raise
  except Exception as e:  # pylint: disable=broad-except
    # A case is valid by construction, so an exception that reaches this point
    # is the code under test refusing a valid input or returning something the
    # oracle cannot even read.  It is confirmed in a fresh process below.
    return None, e
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)


def spread_choices(shard, nshards):
  """Hypothesis favours the first of the choices; let it differ by process."""
  import hypothesis.strategies as hst
  plain = hst.sampled_from

  def sampled_from(xs):
    if not isinstance(xs, (list, tuple)) or len(xs) < 3:
      return plain(xs)
    k = shard * len(xs) // nshards
    return plain(list(xs[k:]) + list(xs[:k]))

  hst.sampled_from = sampled_from


def run_shard(pid, tier, seed, shard, nshards, out, only=None):
  import core
  spread_choices(shard, nshards)
  prop = load(pid)
  import hypothesis
  from hypothesis import settings, HealthCheck, Phase
  res = {"evaluations": 0, "nontrivial": set(), "labels": collections.Counter(),
         "samples": [], "per_sub": {}, "violation": None, "t": {},
         "cut_short": False}
  start = time.time()

  def dump():
    with open(out, "w") as f:
      json.dump(dict(res, nontrivial=sorted(res["nontrivial"]),
                     labels=dict(res["labels"])), f)

  for sub in prop.subs:
    if only and sub.name != only:
      continue
    total = sub.quick if tier == "quick" else sub.thorough
    n = total // nshards + (1 if shard < total % nshards else 0)
    st = {"cases": 0, "nt": 0, "best": None, "after": 0, "t_fail": None}
    t0 = time.time()

    def one(case, sub, st):
      st["cases"] += 1
      res["evaluations"] += 1
      labels, err = evaluate(sub, case)
      if err is None:
        for l in labels:
          res["labels"][f"{sub.name}:{l}"] += 1
        if "nt" in labels:
          h = core.case_hash(sub.name, case)
          if h not in res["nontrivial"]:
            st["nt"] += 1
            res["nontrivial"].add(h)
            if st["nt"] in (2, 11, 37) and shard < 2:
              res["samples"].append({"sub": sub.name, "case": case,
                                     "labels": sorted(labels)})
        return
      size = len(core.jdump(case))
      if st["best"] is None or size <= st["best"][0]:
        st["best"] = (size, case, summary(err), describe(err))
      if st["t_fail"] is None:
        st["t_fail"] = time.time()
      raise err

    def guarded(case):
      if (tier == "quick" and st["t_fail"] is None and
          time.time() - start > QUICK_BUDGET_S):
        res["cut_short"] = True
        raise _Stop()
      if st["t_fail"] is not None:
        st["after"] += 1
        if st["after"] > 300 or time.time() - st["t_fail"] > 60:
          raise _Stop()
      one(case, sub, st)

    try:
      if shard == 0:
        for case in sub.examples:
          one(json.loads(core.jdump(case)), sub, st)
      if n > 0:
        test = hypothesis.given(sub.strategy())(guarded)
        test = settings(
            max_examples=n, database=None, deadline=None, derandomize=False,
            report_multiple_bugs=False, print_blob=False,
            suppress_health_check=list(HealthCheck),
            phases=((Phase.generate,) if os.environ.get("VP_NO_SHRINK") else
                    (Phase.generate, Phase.shrink)))(test)
        test = hypothesis.seed(core.derive_seed(seed, pid, sub.name, shard))(
            test)
        test()
    except _Stop:
      pass
    except core.HarnessError:
      raise
    except Exception:  # pylint: disable=broad-except
      if st["best"] is None:
        raise
    res["per_sub"][sub.name] = {"cases": st["cases"], "nontrivial": st["nt"]}
    res["t"][sub.name] = round(time.time() - t0, 2)
    if st["best"] is not None:
      res["violation"] = {"sub": sub.name, "case": st["best"][1],
                          "message": st["best"][2], "trace": st["best"][3]}
      break
  dump()


def child_env():
  env = dict(os.environ)
  env["XLA_FLAGS"] = ("--xla_cpu_multi_thread_eigen=false "
                      "intra_op_parallelism_threads=1")
  for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    env[k] = "1"
  return env


def replay(path):
  """Exit 1 and a VIOLATION line if the saved case still fails, else 0."""
  import core
  with open(path) as f:
    r = json.load(f)
  if r.get("kind") == "shard":
    with tempfile.TemporaryDirectory() as d:
      o = os.path.join(d, "o.json")
      run_shard(r["property"], r["tier"], r["seed"], r["shard"], r["nshards"],
                o)
      with open(o) as f:
        v = json.load(f)["violation"]
    if v is None:
      print("no violation: the saved shard passes")
      return 0
    print(v["message"])
  else:
    prop = load(r["property"])
    sub = {s.name: s for s in prop.subs}[r["sub"]]
    _, err = evaluate(sub, r["case"])
    if err is None:
      print("no violation: the saved case passes")
      return 0
    print(describe(err))
  print(f"VIOLATION property={r['property']} replay={path}")
  return 1


def confirm(path):
  p = subprocess.run([PY, os.path.join(HERE, "run.py"), "--replay", path],
                     env=child_env(), stdout=subprocess.PIPE,
                     stderr=subprocess.STDOUT, text=True)
  return p.returncode == 1 and "VIOLATION property=" in p.stdout, p.stdout


def known_findings(pid):
  """Recorded (not repaired) defects: lines 'finding: property=<id> ...'."""
  out = []
  path = os.path.join(VERIF, "known_findings.txt")
  if os.path.exists(path):
    with open(path) as f:
      for line in f:
        if line.startswith(f"finding: property={pid} "):
          out.append(line[len(f"finding: property={pid} "):].strip())
  return out


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop", nargs="?")
  ap.add_argument("tier", nargs="?")
  ap.add_argument("--replay")
  ap.add_argument("--shard", type=int)
  ap.add_argument("--nshards", type=int, default=8)
  ap.add_argument("--out")
  ap.add_argument("--only")
  a = ap.parse_args()
  if a.replay:
    sys.exit(replay(a.replay))
  pid = a.prop
  tier = a.tier or os.environ.get("VERIF_TIER", "quick")
  if tier not in ("quick", "thorough"):
    tier = "quick"
  try:
    seed = int(os.environ.get("VERIF_SEED", "1"))
  except ValueError:
    seed = 1
  if a.shard is not None:
    run_shard(pid, tier, seed, a.shard, a.nshards, a.out, a.only)
    return

  t0 = time.time()
  n = a.nshards
  work = tempfile.mkdtemp(prefix=f"vp_{pid}_")
  procs = []
  for k in range(n):
    out = os.path.join(work, f"{k}.json")
    log = open(os.path.join(work, f"{k}.log"), "w")
    cmd = [PY, os.path.join(HERE, "run.py"), pid, tier, "--shard", str(k),
           "--nshards", str(n), "--out", out]
    if a.only:
      cmd += ["--only", a.only]
    procs.append((k, out, subprocess.Popen(cmd, env=child_env(), stdout=log,
                                           stderr=subprocess.STDOUT)))
  results, errors, pending = {}, [], dict((k, (o, p)) for k, o, p in procs)
  found = None
  while pending and found is None:
    for k in list(pending):
      o, p = pending[k]
      rc = p.poll()
      if rc is None:
        continue
      del pending[k]
      if rc != 0 or not os.path.exists(o):
        with open(os.path.join(work, f"{k}.log")) as f:
          errors.append((k, rc, f.read()[-3000:]))
        continue
      with open(o) as f:
        results[k] = json.load(f)
      if results[k]["violation"] is not None:
        found = k
        break
    time.sleep(0.05)
  for o, p in pending.values():
    p.kill()
    p.wait()

  code, violations = 0, 0
  if found is not None:
    v = results[found]["violation"]
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{pid}-{v['sub']}-s{seed}.json")
    rec = {"property": pid, "kind": "case", "sub": v["sub"], "case": v["case"],
           "message": v["message"]}
    with open(path, "w") as f:
      json.dump(rec, f, indent=1, sort_keys=True)
    ok, txt = confirm(path)
    if not ok:
      # Fails only after the cases that came before it: the history is the input.
      rec = {"property": pid, "kind": "shard", "tier": tier, "seed": seed,
             "shard": found, "nshards": n, "message": v["message"]}
      with open(path, "w") as f:
        json.dump(rec, f, indent=1, sort_keys=True)
      ok, txt = confirm(path)
    print(f"[{pid}] sub-check {v['sub']}: {v['message']}")
    print(f"[{pid}] minimal case: {json.dumps(v['case'])[:2000]}")
    if ok:
      print(f"VIOLATION property={pid} replay={path}")
      code, violations = 1, 1
    else:
      print(f"[{pid}] not reproducible in a fresh process; no answer:\n"
            f"{v['trace']}\n{txt[-2000:]}")
      code = 3
  elif errors:
    for k, rc, txt in errors[:2]:
      print(f"[{pid}] shard {k} ended with {rc}:\n{txt}")
    code = 2

  evals = sum(r["evaluations"] for r in results.values())
  nt = set()
  labels, per_sub, samples, times = collections.Counter(), {}, [], {}
  for k in sorted(results):
    r = results[k]
    nt.update(r["nontrivial"])
    labels.update(r["labels"])
    samples.extend(r["samples"])
    for s, c in r["per_sub"].items():
      d = per_sub.setdefault(s, {"cases": 0, "nontrivial": 0})
      d["cases"] += c["cases"]
      d["nontrivial"] += c["nontrivial"]
    for s, t in r["t"].items():
      times[s] = max(times.get(s, 0), t)
  import core
  prop_rules, assumptions = "", []
  if code != 2:
    try:
      prop = load(pid)
      prop_rules = "; ".join(f"{s.name}: non-trivial = {s.rule}"
                             for s in prop.subs)
      assumptions = prop.assumptions
    except Exception:  # pylint: disable=broad-except
      traceback.print_exc()
      code = code or 2
  seen, pick = collections.Counter(), []
  for s in samples:
    seen[s["sub"]] += 1
    if seen[s["sub"]] <= 2:
      pick.append(s)
  ev = {
      "property": pid, "tier": tier, "seed": seed, "level": "exploration",
      "coverage": {
          "evaluations": evals,
          "distinct_nontrivial": len(nt),
          "rule": "Hypothesis-generated cases, seeded from VERIF_SEED, over "
                  f"{n} processes; distinct = distinct JSON case. " + prop_rules,
          "samples": pick[:24],
          "per_sub_check": per_sub,
          "labels": dict(sorted(labels.items())),
          "slowest_shard_s": times,
          "cut_short_by_time": any(r.get("cut_short") for r in
                                   results.values()),
      },
      "assumptions": assumptions,
      "wall_s": round(time.time() - t0, 2),
      "violations": violations,
  }
  edir = os.path.join(VERIF, "evidence")
  os.makedirs(edir, exist_ok=True)
  with open(os.path.join(edir, f"{pid}.json"), "w") as f:
    json.dump(ev, f, indent=1)
  for line in known_findings(pid):
    print(f"KNOWN-FINDING: property={pid} {line}")
  print(f"[{pid}] {tier} seed={seed}: {evals} cases, {len(nt)} distinct "
        f"non-trivial, {ev['wall_s']} s, exit {code}  {times}")
  for k, _, _ in procs:
    for suf in (".json", ".log"):
      q = os.path.join(work, f"{k}{suf}")
      if os.path.exists(q):
        os.unlink(q)
  os.rmdir(work)
  sys.exit(code)


if __name__ == "__main__":
  main()
