#!/usr/bin/env python3
"""Line coverage of /repo by the checks (an aid for finding gaps, no check).

usage: cov.py run OUT_DIR PROP...   (one shard of the quick tier each)
       cov.py report OUT_DIR        (executable lines that no check ran)
"""
import glob, json, os, runpy, subprocess, sys
ROOT = "/repo/"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def lines_of(code):
  out = set()
  for _, _, l in code.co_lines():
    if l and l != code.co_firstlineno:
      out.add(l)
  for c in code.co_consts:
    if hasattr(c, "co_code"):
      out |= lines_of(c)
  return out


def child(out, prop):
  hits = {}
  m = sys.monitoring
  m.use_tool_id(m.COVERAGE_ID, "cov")
  def line(code, n):
    f = code.co_filename
    if f.startswith(ROOT):
      hits.setdefault(f[len(ROOT):], set()).add(n)
    return m.DISABLE
  m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
  m.set_events(m.COVERAGE_ID, m.events.LINE)
  sys.argv = ["run.py", prop, "quick", "--shard", "0", "--nshards", "8",
              "--out", out + ".json"]
  sys.path.insert(0, HERE + "/harness")
  try:
    runpy.run_path(HERE + "/harness/run.py", run_name="__main__")
  except SystemExit:
    pass
  with open(out + ".cov", "w") as f:
    json.dump({k: sorted(v) for k, v in hits.items()}, f)
  os._exit(0)


def main():
  cmd, out = sys.argv[1:3]
  if cmd == "child":
    child(out, sys.argv[3])
  os.makedirs(out, exist_ok=True)
  if cmd == "run":
    env = dict(os.environ, VP_REPO="/repo", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", VERIF_SEED="1",
               VERIF_TIER="quick", TF_CPP_MIN_LOG_LEVEL="3")
    for p in sys.argv[3:]:
      subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__),
                      "child", f"{out}/{p}", p], env=env,
                     stdout=open(f"{out}/{p}.log", "w"), stderr=subprocess.STDOUT)
      print(p, os.path.exists(f"{out}/{p}.cov"), flush=True)
    return
  hits = {}
  for f in glob.glob(out + "/*.cov"):
    for k, v in json.load(open(f)).items():
      hits.setdefault(k, set()).update(v)
  for f in sorted(hits):
    src = open(ROOT + f).read()
    want = lines_of(compile(src, f, "exec"))
    miss = sorted(want - hits[f])
    print(f"{f}: {len(want) - len(miss)}/{len(want)}")
    text = src.splitlines()
    for l in miss:
      print(f"   {l}: {text[l - 1].strip()[:100]}")


if __name__ == "__main__":
  main()
