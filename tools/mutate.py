#!/usr/bin/env python3
"""First-order mutants of haiku/_src, run against the checks (a survey tool).

usage: mutate.py list FILE...                      count the mutants
       mutate.py run OUT.jsonl [--frac F] [--shards K] [--jobs J] FILE...
Each mutant lives in a scratch copy of the package under /tmp; the checks of
the properties anchored in the file are run on it shard by shard (without
shrinking) until one reports a violation.  /repo is never touched.
"""
import ast, concurrent.futures as cf, copy, json, os, random, shutil, subprocess, sys, tempfile, time
REPO = os.environ.get("SRC", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
 "base.py": "P02 P03 P06 P07 P01 P04 P08", "transform.py": "P26 P01 P12 P02 P03 P06", "module.py": "P04 P05 P07 P09 P26 P01",
 "data_structures.py": "P10 P01 P11", "filtering.py": "P11", "lift.py": "P12", "stateful.py": "P09 P08 P27", "random.py": "P06",
 "basic.py": "P13 P14 P12 P25 P27", "bias.py": "P13", "reshape.py": "P13", "nets/mlp.py": "P13", "embed.py": "P14 P25",
 "conv.py": "P15 P16 P25", "depthwise_conv.py": "P15 P25", "pad.py": "P15", "pool.py": "P17", "batch_norm.py": "P18 P27",
 "layer_norm.py": "P18 P27", "group_norm.py": "P18 P27", "moving_averages.py": "P19 P18", "spectral_norm.py": "P19", "recurrent.py": "P20 P21 P25",
 "attention.py": "P22 P25", "nets/vqvae.py": "P23 P25", "nets/resnet.py": "P24", "nets/mobilenetv1.py": "P24", "initializers.py": "P25",
 "summarise.py": "P26", "dot.py": "P26", "utils.py": "P26 P18 P11 P15 P17 P04", "test_utils.py": "P12",
}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}

def seg(src, n): return ast.get_source_segment(src, n)

def mutants(src):
  """Yields (lineno, description, replacement source)."""
  tree = ast.parse(src)
  lines = src.splitlines(keepends=True)
  offs = [0]
  for l in lines: offs.append(offs[-1] + len(l.encode()))
  b = src.encode()
  def pos(n): return offs[n.lineno-1]+n.col_offset, offs[n.end_lineno-1]+n.end_col_offset
  def rep(n, new):
    s, e = pos(n); return (b[:s]+new.encode()+b[e:]).decode()
  out = []
  def add(n, what, new):
    try: ast.parse(new)
    except SyntaxError: return
    out.append((n.lineno, what, new))
  def visit(n, infn):
    if isinstance(n, (ast.Raise, ast.Assert, ast.JoinedStr, ast.Import, ast.ImportFrom)):
      if isinstance(n, (ast.Raise, ast.Assert)) and infn:
        add(n, "drop "+type(n).__name__+" "+seg(src, n)[:60].replace("\n", " "), rep(n, "pass"))
      if isinstance(n, ast.Assert): visit(n.test, infn)
      return
    if isinstance(n, ast.AnnAssign) and n.value is None: return
    if infn:
      if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
        m = copy.deepcopy(n); m.ops = [CMP[type(n.ops[0])]()]
        add(n, f"{ast.unparse(n)} -> {ast.unparse(m)}", rep(n, "("+ast.unparse(m)+")"))
      if isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        add(n, f"{ast.unparse(n)} -> {ast.unparse(m)}", rep(n, "("+ast.unparse(m)+")"))
        for i in range(len(n.values)):
          m = copy.deepcopy(n); del m.values[i]
          m = m.values[0] if len(m.values) == 1 else m
          add(n, f"{ast.unparse(n)} -> {ast.unparse(m)}", rep(n, "("+ast.unparse(m)+")"))
      if isinstance(n, ast.UnaryOp):
        add(n, f"{ast.unparse(n)} -> {ast.unparse(n.operand)}", rep(n, "("+ast.unparse(n.operand)+")"))
      if isinstance(n, ast.BinOp) and type(n.op) in BIN:
        m = copy.deepcopy(n); m.op = BIN[type(n.op)]()
        add(n, f"{ast.unparse(n)} -> {ast.unparse(m)}", rep(n, "("+ast.unparse(m)+")"))
      if isinstance(n, ast.Constant) and type(n.value) is int:
        add(n, f"{n.value} -> {n.value+1} in: {lines[n.lineno-1].strip()[:60]}", rep(n, str(n.value+1)))
      if isinstance(n, ast.Constant) and type(n.value) is float:
        add(n, f"{n.value} -> {n.value*2+.1} in: {lines[n.lineno-1].strip()[:60]}", rep(n, str(n.value*2+.1)))
      if isinstance(n, ast.Constant) and type(n.value) is bool:
        add(n, f"{n.value} -> {not n.value} in: {lines[n.lineno-1].strip()[:60]}", rep(n, str(not n.value)))
      if isinstance(n, (ast.If, ast.IfExp)):
        for v in ("True", "False"):
          add(n, f"if {ast.unparse(n.test)[:60]} -> if {v}", rep(n.test, v))
      if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call,)):
        add(n, "drop "+seg(src, n)[:70].replace("\n", " "), rep(n, "pass"))
      if isinstance(n, ast.AugAssign): add(n, "drop "+seg(src, n)[:60], rep(n, "pass"))
      if isinstance(n, ast.Assign) and len(n.targets) == 1 and not isinstance(n.targets[0], ast.Name):
        if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
          add(n, "drop "+seg(src, n)[:60].replace("\n", " "), rep(n, "pass"))
      if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.targets[0], ast.Name):
        nm = n.targets[0].id
        for a in n.value.args:
          if isinstance(a, ast.Name):
            add(n, f"{seg(src,n)[:60]} -> {nm} = {a.id}".replace("\n", " "), rep(n, f"{nm} = {a.id}")); break
      if isinstance(n, ast.Call):
        for k in n.keywords:
          m = copy.deepcopy(n); m.keywords = [x for x in m.keywords if x.arg != k.arg]
          add(n, f"drop keyword {k.arg} in {ast.unparse(n)[:70]}", rep(n, ast.unparse(m)))
        if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not isinstance(n.args[1], ast.Constant):
          m = copy.deepcopy(n); m.args = m.args[::-1]
          add(n, f"swap args of {ast.unparse(n)[:70]}", rep(n, ast.unparse(m)))
      if isinstance(n, ast.With):
        m = ast.unparse(ast.Module(n.body, []))
        ind = " "*n.col_offset
        add(n, f"drop with {ast.unparse(n.items[0])[:60]}", rep(n, ("\n"+ind).join(m.split("\n"))))
      if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Call) and n.value.args and isinstance(n.value.args[0], ast.Name):
        add(n, f"{seg(src,n)[:60]} -> return {n.value.args[0].id}".replace("\n", " "), rep(n, f"return {n.value.args[0].id}"))
    if isinstance(n, (ast.FunctionDef, ast.Lambda)):
      for d in list(n.args.defaults)+[x for x in n.args.kw_defaults if x]: visit(d, True)
      body = n.body if isinstance(n.body, list) else [n.body]
      for c in body:
        if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant): continue
        visit(c, True)
      return
    for f, v in ast.iter_fields(n):
      if f in ("annotation", "returns", "decorator_list", "bases"): continue
      for c in (v if isinstance(v, list) else [v]):
        if isinstance(c, ast.AST):
          if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant): continue
          visit(c, infn)
  visit(tree, False)
  seen, res = set(), []
  for l, w, s in out:
    if s not in seen: seen.add(s); res.append((l, w, s))
  return res

def run_one(job):
  f, line, what, src, shards, extra = job
  d = tempfile.mkdtemp(prefix="mut_")
  t0 = time.time()
  row = {"file": f, "line": line, "what": what}
  try:
    shutil.copytree(REPO+"/haiku", d+"/haiku", ignore=shutil.ignore_patterns("__pycache__", "*_test.py"))
    open(f"{d}/haiku/_src/{f}", "w").write(src)
    env = dict(os.environ, VP_REPO=d, VP_NO_SHRINK="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu",
               TF_CPP_MIN_LOG_LEVEL="3", VERIF_SEED="1", XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    row["by"] = None
    for pid in (extra or PROPS[f]).split():
      for k in shards:
        try:
          p = subprocess.run(["/opt/venv/bin/python", HERE+"/harness/run.py", pid, "quick", "--shard", str(k), "--out", d+"/o.json"],
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=420)
        except subprocess.TimeoutExpired:
          row["by"] = pid; row["msg"] = "timeout"; break
        if p.returncode != 0 or not os.path.exists(d+"/o.json"):
          row["by"] = pid; row["msg"] = "crash: "+p.stdout.strip()[-160:]; break
        v = json.load(open(d+"/o.json"))["violation"]
        if v: row["by"] = pid; row["msg"] = (v["sub"]+": "+v["message"])[:200]; break
      if row["by"]: break
  finally:
    shutil.rmtree(d, ignore_errors=True)
  row["s"] = round(time.time()-t0, 1)
  return row

def main():
  a = sys.argv[1:]
  mode = a.pop(0)
  opt = {"frac": "1", "shards": "0", "jobs": "8", "props": "", "redo": ""}
  rest = []
  while a:
    x = a.pop(0)
    if x.startswith("--"): opt[x[2:]] = a.pop(0)
    else: rest.append(x)
  if mode == "list":
    for f in rest or PROPS:
      p = f"{REPO}/haiku/_src/{f}"
      if os.path.exists(p): print(f, len(mutants(open(p).read())))
    return
  out = rest.pop(0)
  done = set()
  if os.path.exists(out):
    for l in open(out): r = json.loads(l); done.add((r["file"], r["line"], r["what"]))
  redo = None
  if opt["redo"]:
    redo = {(r["file"], r["line"], r["what"]) for r in map(json.loads, open(opt["redo"])) if not r["by"]}
  jobs = []
  for f in rest or [f for f in PROPS if os.path.exists(f"{REPO}/haiku/_src/{f}")]:
    ms = mutants(open(f"{REPO}/haiku/_src/{f}").read())
    rnd = random.Random(f); rnd.shuffle(ms)
    ms = ms[:max(1, round(len(ms)*float(opt["frac"])))]
    for l, w, s in ms:
      if (f, l, w) in done or (redo is not None and (f, l, w) not in redo): continue
      jobs.append((f, l, w, s, [int(x) for x in opt["shards"].split(",")], opt["props"]))
  print(len(jobs), "mutants", flush=True)
  with cf.ThreadPoolExecutor(int(opt["jobs"])) as ex, open(out, "a") as o:
    for r in ex.map(run_one, jobs) if False else (x.result() for x in cf.as_completed([ex.submit(run_one, j) for j in jobs])):
      o.write(json.dumps(r)+"\n"); o.flush()

main()
