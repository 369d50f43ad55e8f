#!/usr/bin/env python3
"""Runs the checks on stored planted bugs: recheck.py [ID ...] (default: all).

Each patch is applied to a scratch copy of /repo under /tmp, removed afterwards.
"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys
SEEDED = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(SEEDED))

def one(i):
  meta = json.load(open(f"{SEEDED}/{i}/meta.json"))
  copy = f"/tmp/re_{i}"
  shutil.rmtree(copy, ignore_errors=True)
  try:
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    r = subprocess.run(["git", "-C", copy, "apply", f"{SEEDED}/{i}/patch.diff"])
    if r.returncode: return i, meta["property"], "DOES NOT APPLY"
    e = dict(os.environ, VP_REPO=copy, VERIF_SEED="1", VERIF_TIER="quick")
    p = subprocess.run(["bash", "/verif/check.sh", meta["property"]], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = p.returncode == 1 and f"VIOLATION property={meta['property']}" in p.stdout
    return i, meta["property"], "caught" if ok else f"missed rc={p.returncode}"
  finally:
    shutil.rmtree(copy, ignore_errors=True)

with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
  for r in ex.map(one, ids):
    print(*r, flush=True)
