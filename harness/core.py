"""Machinery shared by the checks: worker pool for the real code, TLC runner,
verdict collection, evidence and replay files.  No oracle lives here: what is
right or wrong is decided by the TLA+ specifications under /verif/specs."""
import collections
import io
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)
FINDINGS = os.path.join(VERIF, "known_findings.txt")

if REPO not in sys.path:
  sys.path.insert(0, REPO)


class MachineryError(Exception):
  pass


class CaseTimeout(BaseException):
  pass


def cp(text):
  """text as the sequence of its code points (what the specifications read)"""
  return [ord(c) for c in text]


def uncp(points):
  return "".join(chr(x) for x in points)


# ------------------------------------------------------------------ real code
def quiet_logging():
  import logging
  logging.disable(logging.CRITICAL)


def _alarm(_sig, _frm):
  raise CaseTimeout()


TIMEOUTS = [0]


def guarded(fun, *args, timeout=40):
  """Run real code. Returns (value, None) or (None, 'error description').
  The time limit is one of processor time: the machine may be busy."""
  signal.signal(signal.SIGPROF, _alarm)
  # code that hangs all the time shall not keep a check from finishing
  signal.setitimer(signal.ITIMER_PROF, timeout if TIMEOUTS[0] < 3 else 2)
  try:
    return fun(*args), None
  except CaseTimeout:
    TIMEOUTS[0] += 1
    return None, "timeout"
  except SystemExit as ex:
    return None, "SystemExit: %s" % (ex.code,)
  except Exception as ex:  # pylint: disable=broad-except
    where = ""
    tbk = traceback.extract_tb(ex.__traceback__)
    if tbk:
      where = " at %s:%s" % (os.path.basename(tbk[-1].filename), tbk[-1].name)
    return None, "%s: %s%s" % (type(ex).__name__, str(ex)[:300], where)
  finally:
    signal.setitimer(signal.ITIMER_PROF, 0)


def _init_worker():
  quiet_logging()
  signal.signal(signal.SIGINT, signal.SIG_IGN)
  dev = open(os.devnull, "w")
  sys.stderr = dev


def pmap(fun, items, chunksize=8, procs=NCPU):
  """fun over items in worker processes, results in order"""
  items = list(items)
  if not items:
    return []
  ctx = multiprocessing.get_context("fork")
  with ctx.Pool(procs, initializer=_init_worker, maxtasksperchild=None) as pool:
    return pool.map(fun, items, chunksize=chunksize)


# ------------------------------------------------------------------------ TLC
VRE = re.compile(r'"@V (\d+) (\S+) (-?\d+)(?: (.*))?"')
STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


CPRE = re.compile(r'(?<![A-Za-z0-9_])Cp\("((?:[^"\\]|\\.)*)"\)')


def fold_specs(dest):
  """Copy the specifications; every constant Cp("text") is replaced by the
  tuple it denotes (TLC would compute it again at each use)."""
  def tup(m):
    text = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
    return "<<" + ",".join(str(ord(c)) for c in text) + ">>"
  os.makedirs(dest, exist_ok=True)
  for name in os.listdir(SPECS):
    with io.open(os.path.join(SPECS, name), encoding="utf-8") as infile:
      text = infile.read()
    if name.endswith(".tla"):
      text = CPRE.sub(tup, text)
    with io.open(os.path.join(dest, name), "w", encoding="utf-8") as out:
      out.write(text)


class TlcResult(object):
  def __init__(self):
    self.verdicts = {}
    self.states = 0
    self.transitions = 0
    self.prints = []


def _one_tlc(job):
  spec, cfg, ndjson, outdir, env_extra, workers, timeout, heap, simulate = job
  meta = tempfile.mkdtemp(prefix="tlcmeta", dir=outdir)
  specs = os.path.join(outdir, "specs")
  env = dict(os.environ)
  env.pop("JAVA_TOOL_OPTIONS", None)
  env["CASES"] = ndjson or ""
  env.update(env_extra or {})
  cmd = ["java", "-Xss512m", "-Xmx%s" % heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
         "-Djava.io.tmpdir=" + meta,
         "-cp", TLAJAR + ":" + CMJAR, "tlc2.TLC", "-workers", str(workers),
         "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + (simulate or []) + [spec]
  try:
    proc = subprocess.run(cmd, cwd=specs, env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=timeout,
                          universal_newlines=True, errors="replace")
    return proc.returncode, proc.stdout
  except subprocess.TimeoutExpired as ex:
    out = ex.stdout or ""
    return -9, out if isinstance(out, str) else out.decode("utf-8", "replace")
  finally:
    shutil.rmtree(meta, ignore_errors=True)


def tlc(spec, cases, tmp, cfg=None, shards=None, env=None, timeout=800, heap="3g"):
  """Check every case (a JSON object) against the specification. Every case
  must get a verdict, else the machinery is broken."""
  cfg = cfg or "Cases.cfg"
  result = TlcResult()
  if not cases:
    return result
  # balance shards by size
  dumped = [json.dumps(x, separators=(",", ":")) for x in cases]
  total = sum(map(len, dumped))
  if shards is None:
    shards = max(1, min(4, total // 400000 + 1))
  order = sorted(range(len(cases)), key=lambda i: -len(dumped[i]))
  buckets = [[] for _ in range(shards)]
  loads = [0] * shards
  for i in order:
    k = loads.index(min(loads))
    buckets[k].append(i)
    loads[k] += len(dumped[i])
  jobs = []
  for k, idxs in enumerate(buckets):
    idxs.sort()
    path = os.path.join(tmp, "cases%d.ndjson" % k)
    with open(path, "w") as out:
      for i in idxs:
        out.write(dumped[i])
        out.write("\n")
    jobs.append((spec, cfg, path, tmp, env, max(1, NCPU // shards), timeout, heap, None))
  from concurrent.futures import ThreadPoolExecutor
  with ThreadPoolExecutor(shards) as pool:
    outs = list(pool.map(_one_tlc, jobs))
  for (code, out), idxs in zip(outs, buckets):
    for m in VRE.finditer(out):
      i = idxs[int(m.group(1)) - 1]
      val = (m.group(2), int(m.group(3)), m.group(4) or "")
      old = result.verdicts.get(i)
      # several failing branches: keep the first in text order, a failure wins
      if old is None or (old[0] == "ok" and val[0] != "ok"):
        result.verdicts[i] = val
    m = None
    for m in STATS.finditer(out):
      pass
    if code != 0 or m is None:
      i = out.find("Error:")
      raise MachineryError("TLC on %s exited %s:\n%s" % (spec, code, out[max(0, i - 200):i + 3000] if i >= 0 else out[-3000:]))
    result.transitions += int(m.group(1))
    result.states += int(m.group(2))
  missing = [i for i in range(len(cases)) if i not in result.verdicts]
  if missing:
    raise MachineryError("%s: no verdict for %d of %d cases, first %r" % (
        spec, len(missing), len(cases), missing[:3]))
  return result


def tlc_model(spec, cfg, tmp, env=None, timeout=800, heap="6g", simulate=None, workers=None):
  """Run TLC on a model (no recorded cases); returns (output, states, transitions)."""
  code, out = _one_tlc((spec, cfg, "", tmp, env, workers or NCPU, timeout, heap, simulate))
  m = None
  for m in STATS.finditer(out):
    pass
  if code != 0 or m is None:
    i = out.find("Error:")
    raise MachineryError("TLC on %s exited %s:\n%s" % (spec, code, out[max(0, i - 200):i + 3000] if i >= 0 else out[-3000:]))
  return out, int(m.group(2)), int(m.group(1))


# ------------------------------------------------------------------- findings
def known_findings(prop):
  """{key: description} of recorded, unrepaired findings of the property"""
  out = {}
  if os.path.exists(FINDINGS):
    for line in io.open(FINDINGS, encoding="utf-8"):
      m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
      if m and m.group(1) == prop:
        out[m.group(2)] = m.group(3)
  return out


# ------------------------------------------------------------------ check run
class Check(object):
  """One run of one property's check."""

  def __init__(self, prop, tier, seed):
    self.prop = prop
    self.tier = tier
    self.seed = seed
    self.start = time.time()
    self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    fold_specs(os.path.join(self.tmp, "specs"))
    self.violations = []
    self.known = known_findings(prop)
    self.known_seen = {}
    self.coverage = collections.OrderedDict()
    self.counts = collections.Counter()
    self.samples = []
    self.assumptions = []
    self.states = 0
    self.transitions = 0
    self.traces = 0

  def quick(self):
    return self.tier == "quick"

  def n(self, quick, thorough):
    return quick if self.quick() else thorough

  def rng(self, salt=""):
    return random.Random("%s/%s/%s" % (self.prop, self.seed, salt))

  def seeds(self, count, salt=""):
    r = self.rng(salt)
    return [r.getrandbits(48) for _ in range(count)]

  def validate(self, spec, cases, replays, label=None, cfg=None, describe=None, key=None, shards=None, env=None, timeout=800):
    """Have TLC judge recorded cases; replays[i] is what to store when case i
    fails. key(i) names a known finding the case may belong to."""
    t0 = time.time()
    res = tlc(spec, cases, self.tmp, cfg=cfg, shards=shards, env=env, timeout=timeout)
    self.states += res.states
    self.transitions += res.transitions
    label = label or spec
    for i in range(len(cases)):
      clause, pos, extra = res.verdicts[i]
      if clause == "ok":
        self.counts[label + ":ok"] += 1
        self.traces += 1
      elif clause.startswith("skip"):
        self.counts[label + ":" + clause] += 1
      else:
        self.counts[label + ":FAIL:" + clause] += 1
        self.fail(clause, replays[i], pos=pos, extra=extra, key=key(i) if key else None, spec=spec)
    self.counts[label + ":seconds"] = round(time.time() - t0, 1)
    return res

  def fail(self, clause, replay, pos=0, extra="", key=None, spec=None):
    if key is not None and key in self.known:
      self.known_seen[key] = True
      return
    self.violations.append((clause, pos, extra, replay, spec))

  def sample(self, obj):
    if len(self.samples) < 3:
      self.samples.append(obj)

  def finish(self, level, rule, evaluations=None, distinct=None, extra=None):
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for key, what in sorted(self.known.items()):
      if key in self.known_seen:
        print("KNOWN-FINDING: property=%s key=%s %s" % (self.prop, key, what))
    rdir = os.path.join(evdir, "replay")
    if os.path.isdir(rdir):
      for name in os.listdir(rdir):
        if name.startswith(self.prop + "_"):
          os.unlink(os.path.join(rdir, name))
    if self.violations:
      os.makedirs(rdir, exist_ok=True)
    # smallest counterexamples first
    self.violations.sort(key=lambda v: len(json.dumps(v[3], default=str)))
    shown = 0
    seen = set()
    for clause, pos, more, replay, spec in self.violations:
      if clause in seen and shown >= 3:
        continue
      seen.add(clause)
      path = os.path.join(rdir, "%s_%d.json" % (self.prop, shown))
      with io.open(path, "w", encoding="utf-8") as out:
        json.dump({"property": self.prop, "clause": clause, "position": pos, "detail": more,
                   "spec": spec, "case": replay, "seed": self.seed, "tier": self.tier},
                  out, indent=1, default=str)
      print("VIOLATION property=%s replay=%s clause=%s" % (self.prop, path, clause))
      shown += 1
      if shown >= 6:
        break
    cov = collections.OrderedDict()
    cov["rule"] = rule
    if evaluations is not None:
      cov["evaluations"] = evaluations
    if distinct is not None:
      cov["distinct_nontrivial"] = distinct
    cov["states"] = self.states
    cov["transitions"] = self.transitions
    cov["traces_validated_against_impl"] = self.traces
    cov["samples"] = self.samples or ["(none)"]
    cov["counts"] = dict(sorted(self.counts.items()))
    if extra:
      cov.update(extra)
    evidence = {
        "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
        "coverage": cov, "assumptions": self.assumptions,
        "wall_s": round(time.time() - self.start, 2), "violations": len(self.violations)}
    with io.open(os.path.join(evdir, self.prop + ".json"), "w", encoding="utf-8") as out:
      json.dump(evidence, out, indent=1, default=str)
    print("%s %s: %d violations, %d traces validated, %d states, %.1f s; %s" % (
        self.prop, self.tier, len(self.violations), self.traces, self.states,
        time.time() - self.start, dict(sorted(self.counts.items()))))
    return 1 if self.violations else 0

  def cleanup(self):
    shutil.rmtree(self.tmp, ignore_errors=True)
