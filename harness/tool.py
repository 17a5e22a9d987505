"""Batches of tool runs (see toolserver.py)."""
import json
import os
import subprocess
import sys

import core

HERE = os.path.dirname(os.path.abspath(__file__))
SHIM = None


def build_shim(tmp):
  """compile the fault-injection shim"""
  global SHIM
  out = os.path.join(tmp, "fsshim.so")
  proc = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", out, os.path.join(HERE, "fsshim.c"), "-ldl"],
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
  if proc.returncode:
    raise core.MachineryError("cannot build the shim: " + proc.stdout[:500])
  SHIM = out
  return out


def _serve(arg):
  jobs, shim = arg
  env = dict(os.environ, VERIF_REPO=core.REPO, PYTHONHASHSEED="0", LC_ALL="C.UTF-8")
  if shim:
    env["VERIF_SHIM"] = shim
    env["LD_PRELOAD"] = shim
  mods = sorted(set(j["module"] for j in jobs))
  proc = subprocess.run([sys.executable, "-B", os.path.join(HERE, "toolserver.py")] + mods, env=env,
                        input="".join(json.dumps(j) + "\n" for j in jobs), stdout=subprocess.PIPE,
                        stderr=subprocess.PIPE, universal_newlines=True, cwd="/")
  outs = [json.loads(x) for x in proc.stdout.splitlines()]
  if len(outs) != len(jobs):
    raise core.MachineryError("tool server died: " + proc.stderr[-2000:])
  return outs


def run_jobs(jobs, shim=None):
  """results in order"""
  if not jobs:
    return []
  from concurrent.futures import ThreadPoolExecutor
  n = min(core.NCPU, max(1, len(jobs) // 4))
  parts = [jobs[k::n] for k in range(n)]
  with ThreadPoolExecutor(n) as pool:
    outs = list(pool.map(_serve, [(p, shim) for p in parts]))
  res = [None] * len(jobs)
  for k, part in enumerate(outs):
    for i, out in enumerate(part):
      res[k + i * n] = out
  return res


def hexs(text, encoding="utf-8"):
  return (text if isinstance(text, bytes) else text.encode(encoding)).hex()
