#!/usr/bin/env python3
"""Plants bugs from a spec file, confirms them, runs the checks on them.

usage: try_bug.py SPEC.py [ID ...] [--no-tests] [--no-checks] [--all-checks]

SPEC.py defines BUGS, a list of dicts: id, property, edits=[(file, old, new)],
needs, breaks, demo (python source).  A confirmed bug is written to
/verif/seeded/<id>/.  Works on a scratch copy of /repo under /tmp, removed
afterwards; never touches /repo.
"""
import json, os, runpy, shutil, subprocess, sys, time
REPO = "/repo"
SEEDED = os.environ.get("SEEDED", "/verif/seeded")
DEMO_SH = """#!/bin/bash
# cwd is the repository; exits nonzero when the behaviour is broken.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$here/demo.py"
"""

def sh(cmd, cwd=None, env=None, timeout=900):
  e = dict(os.environ); e.update(env or {})
  p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=timeout,
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  return p.returncode, p.stdout

def tests(copy):
  t = open("/opt/vp/test.sh").read().replace("/repo", copy)
  out = copy + ".tests.json"
  script = copy + ".test.sh"
  open(script, "w").write(t)
  rc, o = sh(f"bash {script} {out}")
  res = json.load(open(out))
  os.remove(out); os.remove(script)
  return res

def main():
  args = sys.argv[1:]
  flags = {a for a in args if a.startswith("--")}
  args = [a for a in args if not a.startswith("--")]
  bugs = runpy.run_path(args[0])["BUGS"]
  ids = set(args[1:])
  base = json.load(open("/opt/vp/BASELINE.json"))
  for b in bugs:
    if ids and b["id"] not in ids:
      continue
    copy = f"/tmp/bug_{b['id']}"
    shutil.rmtree(copy, ignore_errors=True)
    sh(f"cp -a {REPO} {copy}")
    row = {"id": b["id"], "property": b["property"]}
    try:
      ok = True
      for f, old, new in b["edits"]:
        p = os.path.join(copy, f); s = open(p).read()
        if s.count(old) != 1:
          print(b["id"], "EDIT MATCHES", s.count(old), "times in", f); ok = False; break
        open(p, "w").write(s.replace(old, new))
      if not ok: continue
      d = os.path.join(copy + ".seed"); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
      rc, diff = sh("git diff", cwd=copy)
      open(d + "/patch.diff", "w").write(diff)
      open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
      open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
      json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                open(d + "/meta.json", "w"), indent=1)
      c0, o0 = sh(f"bash {d}/demo.sh", cwd=REPO)
      c1, o1 = sh(f"bash {d}/demo.sh", cwd=copy)
      row["demo"] = (c0, c1)
      if c0 != 0 or c1 == 0:
        print(b["id"], "DEMO BAD", c0, c1, (o0 if c0 else o1)[-1500:]); continue
      row["demo_msg"] = o1.strip().splitlines()[-1][:150] if o1.strip() else ""
      if "--no-tests" not in flags:
        res = tests(copy)
        passed = set(res.get("passed", []))
        missing = [t for t in base["stable"] if t not in passed]
        row["tests_broken"] = len(missing)
        if missing:
          print(b["id"], "TESTS BROKEN", len(missing), missing[:4]); continue
      dst = os.path.join(SEEDED, b["id"])
      shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
      t = time.time()
      props = [] if "--no-checks" in flags else [b["property"]] if "--all-checks" not in flags else [
          json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
      caught = []
      for pid in props:
        rc, o = sh(f"bash /verif/check.sh {pid}",
                   env={"VP_REPO": copy, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        if rc == 1 and f"VIOLATION property={pid}" in o: caught.append(pid)
        elif rc != 0: caught.append(f"{pid}:rc{rc}"); print(o[-800:])
      row["caught"] = caught; row["secs"] = round(time.time() - t)
      print(json.dumps(row), flush=True)
    finally:
      shutil.rmtree(copy, ignore_errors=True)
      shutil.rmtree(copy + ".seed", ignore_errors=True)

main()
