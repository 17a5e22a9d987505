"""Runs the command-line tools under test, each run in a forked child with its
own scratch directory, standard streams and (optionally) injected faults of
file system calls.  Jobs are JSON lines on stdin, results JSON lines on stdout.
"""
import ctypes
import gc
import io
import json
import os
import shutil
import resource
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


def setup_dir(root, job):
  for name, spec in job.get("files", {}).items():
    path = os.path.join(root, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if spec.get("link") is not None:
      os.symlink(spec["link"], path)
      continue
    if spec.get("dir"):
      os.makedirs(path, exist_ok=True)
      continue
    with open(path, "wb") as out:
      out.write(bytes.fromhex(spec["hex"]))
    os.chmod(path, spec.get("mode", 0o644))


def snapshot(root):
  out = {}
  for head, _dirs, files in os.walk(root):
    for name in files:
      path = os.path.join(head, name)
      rel = os.path.relpath(path, root)
      if os.path.islink(path):
        out[rel] = {"link": os.readlink(path), "hex": "", "mode": 0}
        continue
      with open(path, "rb") as infile:
        out[rel] = {"hex": infile.read().hex(), "mode": os.stat(path).st_mode & 0o7777}
  return out


def child(job, root, side, shim):
  """never returns"""
  code = 97
  try:
    signal.alarm(job.get("timeout", 120))
    resource.setrlimit(resource.RLIMIT_CPU, (30, 40))
    fd0 = os.open(os.path.join(side, "in"), os.O_RDONLY)
    fd1 = os.open(os.path.join(side, "out"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    fd2 = os.open(os.path.join(side, "err"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    fd3 = os.open(os.path.join(side, "ops"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(fd0, 0)
    os.dup2(fd1, 1)
    os.dup2(fd2, 2)
    sys.stdin = io.TextIOWrapper(io.FileIO(0, "r", closefd=False), encoding="utf-8")
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), encoding="utf-8", write_through=False)
    sys.stderr = io.TextIOWrapper(io.FileIO(2, "w", closefd=False), encoding="utf-8", write_through=True)
    os.chdir(os.path.join(root, job.get("cwd", "")))
    os.environ["HOME"] = root
    os.umask(job.get("umask", 0o022))
    if job.get("exec"):
      env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "VERIF_SHIM")}
      env["PYTHONPATH"] = os.environ.get("VERIF_REPO", "/repo")
      args = [a.replace("@ROOT@", root) for a in job["argv"]]
      os.execve(sys.executable, [sys.executable, "-B", "-m", job["exec"]] + args, env)
    import importlib
    mod = importlib.import_module(job["module"])
    sys.argv = [job["module"]] + [a.replace("@ROOT@", root) for a in job["argv"]]
    if shim is not None:
      faults = job.get("faults", [])
      n = len(faults)
      arr = ctypes.c_int * max(1, n)
      shim.shim_arm(root.encode(), fd3, n, arr(*[f[0] for f in faults]), arr(*[f[1] for f in faults]), arr(*[f[2] for f in faults]))
    try:
      code = mod.main()
    except SystemExit as ex:
      code = ex.code
      if code is not None and not isinstance(code, int):
        print(code, file=sys.stderr)
        code = 1
    except BaseException:  # pylint: disable=broad-except
      traceback.print_exc()
      code = 1
    code = 0 if code is None else int(code) & 255
    gc.collect()
    if shim is not None:
      with open(os.path.join(side, "meta"), "w") as out:
        shim.shim_disarm()
        out.write("%d %d" % (shim.shim_count(), shim.shim_fired()))
    try:
      sys.stdout.flush()
    except OSError:
      code = code or 120
  except BaseException:  # pylint: disable=broad-except
    traceback.print_exc()
  finally:
    os._exit(code)


def parse_ops(text):
  ops = []
  for line in text.splitlines():
    f = line.split("\t")
    if len(f) != 7:
      continue
    ops.append({"op": f[0], "a": f[1], "b": f[2], "x": int(f[3]), "y": int(f[4]), "r": int(f[5]),
                "d": list(bytes.fromhex(f[6]))})
  return ops


def run_job(job, shim):
  top = tempfile.mkdtemp(prefix="verif_tool_")
  try:
    root = os.path.join(top, job.get("rootname", "w"))
    side = os.path.join(top, "side")
    os.makedirs(root)
    os.makedirs(side)
    setup_dir(root, job)
    with open(os.path.join(side, "in"), "wb") as out:
      out.write(bytes.fromhex(job.get("stdin", "")))
    pid = os.fork()
    if pid == 0:
      child(job, root, side, shim)
    _, status = os.waitpid(pid, 0)
    code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
    out = {"rc": code}
    for key in ("out", "err", "ops", "meta"):
      path = os.path.join(side, key)
      data = b""
      if os.path.exists(path):
        with open(path, "rb") as infile:
          data = infile.read()
      out[key] = data.hex() if key == "out" else data.decode("utf-8", "replace")
    if job.get("want_ops"):
      out["ops"] = parse_ops(out["ops"])
    else:
      out.pop("ops")
    out["err"] = out["err"].replace(root, "@ROOT@")
    out["final"] = snapshot(root)
    return out
  finally:
    shutil.rmtree(top, ignore_errors=True)


def main():
  sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
  sys.dont_write_bytecode = True
  shim = None
  if os.environ.get("VERIF_SHIM"):
    shim = ctypes.CDLL(os.environ["VERIF_SHIM"])
  import importlib
  for name in sys.argv[1:]:
    importlib.import_module(name)
  import yaml  # pylint: disable=unused-import
  for line in sys.stdin:
    job = json.loads(line)
    sys.__stdout__.write(json.dumps(run_job(job, shim)) + "\n")
    sys.__stdout__.flush()


if __name__ == "__main__":
  main()
