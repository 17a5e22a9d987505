"""C13: in-place formatting under faults and crashes."""
import errno
import random

import core
import gen
import tool

SPEC = "InPlace.tla"
LEVEL = "model_checking"
MODULE = "cmakelang.format.__main__"

FAULTS = {
    "open": [(errno.EACCES, 0), (errno.ENOSPC, 0), (errno.EMFILE, 1)],
    "read": [(errno.EIO, 0)],
    "write": [(errno.ENOSPC, 0), (errno.EIO, 0), (0, 2), (errno.ENOSPC, 1)],
    "close": [(errno.EIO, 0), (errno.ENOSPC, 0)],
    "chmod": [(errno.EPERM, 0), (errno.EPERM, 1)],
    "fchmod": [(errno.EPERM, 0)],
    "rename": [(errno.EBUSY, 0), (errno.EACCES, 1), (errno.EXDEV, 0), (errno.EBUSY, 1)],
    "unlink": [(errno.EACCES, 0)],
    "link": [(errno.EPERM, 0)],
    "truncate": [(errno.EIO, 0)],
    "ftruncate": [(errno.EIO, 0)],
    "fsync": [(errno.EIO, 0)],
    "pwrite": [(errno.ENOSPC, 0)],
}
SILENT = ("lseek", "dup")


def content(r):
  """(bytes, may be long)"""
  kind = r.choice(["text", "text", "text", "simple", "simple", "formatted", "malformed", "paren", "bytes", "empty",
                   "blank", "wide", "crlf", "bom", "big", "e", "near", "near"])
  simple = "".join("%s(%s   x%d)\n" % (r.choice(["FOO", "set", "message"]), r.choice(["a", "b"]), i) for i in range(r.randint(1, 4)))
  if kind == "text":
    return gen.Gen(r, max_items=3).file().encode("utf-8")
  if kind == "formatted":
    return b"foo(a b)\n"
  if kind == "near":
    # differs from its formatted text in white space only
    return r.choice([b"foo(a b)\r\n", b"foo(a b)\r\nbar(c)\n", b"foo(a b)\nbar(c)\r\n", b"foo(a b) \n", b"foo(a b)", b"foo(a b)\n\n", b"\nfoo(a b)\n",
                     b"foo(a b)\t\n", b" foo(a b)\n", b"foo(a b)\n\n\nbar(c)\n", b"\r\n", b"\n", b" \n", b"FOO(a b)\n", b"\xef\xbb\xbffoo(a b)\n"])
  if kind == "malformed":
    return (simple + "if(a)\n" + simple).encode()
  if kind == "paren":
    return (simple + "foo(a\n").encode()
  if kind == "bytes":
    return simple.encode() + b"# \xff\xfe\nfoo(\xe9)\n"
  if kind == "empty":
    return b""
  if kind == "blank":
    return b"\n\n\n"
  if kind == "wide":
    return (simple + "foo(%s %s)\n" % ("w" * 90, "v" * 90)).encode()
  if kind == "crlf":
    return simple.replace("\n", "\r\n").encode()
  if kind == "bom":
    return b"\xef\xbb\xbf" + simple.encode()
  if kind == "big":
    return simple.encode() * r.choice([300, 700])
  if kind == "e":
    return (simple + "message(caf\u00e9)  # \u00e9\n").encode("utf-8")
  return simple.encode()


def scenario(seed):
  r = random.Random(seed)
  names = ["a.cmake", "d/b.cmake", "CMakeLists.txt"][:r.choice([1, 1, 2, 2, 3])]
  files = {}
  for name in names:
    files[name] = {"hex": content(r).hex(), "mode": r.choice([0o644, 0o644, 0o600, 0o755, 0o444, 0o664, 0o640])}
  argv = []
  if r.random() < 0.3:
    argv += ["--require-valid-layout"]
  if r.random() < 0.2:
    argv += ["--line-width", r.choice(["20", "40", "120"])]
  if r.random() < 0.15:
    argv += ["--line-ending", r.choice(["auto", "windows", "unix"])]
  if r.random() < 0.15:
    argv += ["--output-encoding", r.choice(["ascii", "latin-1", "utf-16"])]
  if r.random() < 0.1:
    argv += ["--input-encoding", "latin-1"]
  if r.random() < 0.1:
    argv += ["--emit-byteorder-mark", "true"]
  extra = {}
  if r.random() < 0.2:
    extra[names[0] + ".cmf-temp"] = {"hex": b"stale temporary file, longer than the new contents are\n".hex() * r.choice([1, 4]), "mode": 0o400}
  inputs = list(names)
  if r.random() < 0.1:
    inputs.insert(r.randint(0, len(inputs)), "missing.cmake")
  return dict(files=files, extra=extra, argv=argv, inputs=inputs, umask=r.choice([0o022, 0o077, 0o002]))


def jobs_new(sc):
  """what each file alone becomes"""
  return [dict(module=MODULE, files=sc["files"], argv=sc["argv"] + ["--", name] if False else [name] + sc["argv"])
          for name in sorted(sc["files"])]


def job_inplace(sc, faults):
  files = dict(sc["files"])
  files.update(sc["extra"])
  return dict(module=MODULE, files=files, argv=["-i"] + sc["inputs"] + sc["argv"], faults=faults, want_ops=True, umask=sc["umask"])


def same_text(sc, old, new):
  if "--output-encoding" not in sc["argv"]:
    return False
  enc = sc["argv"][sc["argv"].index("--output-encoding") + 1]
  src = sc["argv"][sc["argv"].index("--input-encoding") + 1] if "--input-encoding" in sc["argv"] else "utf-8"
  try:
    return bytes.fromhex(old).decode(src) == bytes.fromhex(new).decode(enc)
  except UnicodeError:
    return False


def classify(sc, outs):
  sc = dict(sc)
  sc["cls"] = {}
  sc["ok"] = int("missing.cmake" not in sc["inputs"])
  for name, out in zip(sorted(sc["files"]), outs):
    old = sc["files"][name]["hex"]
    if out["rc"] != 0:
      sc["cls"][name] = ("leave", old)
      sc["ok"] = 0
    elif out["out"] == old:
      sc["cls"][name] = ("leave", old)
    elif same_text(sc, old, out["out"]):
      # only the encoding differs: rewriting it is allowed, not required
      sc["cls"][name] = ("maybe", out["out"])
    else:
      sc["cls"][name] = ("rewrite", out["out"])
  return sc


def ints(hexa):
  return list(bytes.fromhex(hexa))


def to_case(sc, out):
  meta = out["meta"].split()
  return dict(
      init=[dict(n=k, d=ints(v["hex"]), m=v["mode"]) for k, v in sorted(list(sc["files"].items()) + list(sc["extra"].items()))],
      files=[dict(n=k, old=ints(v["hex"]), new=ints(sc["cls"][k][1]), m=v["mode"], cls=sc["cls"][k][0]) for k, v in sorted(sc["files"].items())],
      ops=out["ops"], rc=out["rc"], fired=int(meta[1]) if len(meta) == 2 else 1, ok=sc["ok"],
      fin=[dict(n=k, d=ints(v["hex"]), m=v["mode"]) for k, v in sorted(out["final"].items())])


def faults_of(ops):
  """every single fault of a run without faults"""
  k = 0
  for op in ops:
    if op["op"] in SILENT:
      continue
    k += 1
    for err, kind in FAULTS.get(op["op"], [(errno.EIO, 0)]):
      yield [k, err, kind]


def run(check):
  shim = tool.build_shim(check.tmp)
  scs = [scenario(s) for s in check.seeds(check.n(48, 500))]
  news = [j for sc in scs for j in jobs_new(sc)]
  outs = iter(tool.run_jobs(news))
  scs = [classify(sc, [next(outs) for _ in sc["files"]]) for sc in scs]
  clean = tool.run_jobs([job_inplace(sc, []) for sc in scs], shim)
  recs = [(sc, [], out) for sc, out in zip(scs, clean)]
  r = check.rng("faults")
  jobs = []
  for sc, out in zip(scs, clean):
    singles = list(faults_of(out["ops"]))
    big = sum(len(v["hex"]) for v in sc["files"].values()) > 4000
    if big or (check.quick() and len(singles) > 40):
      singles = r.sample(singles, min(len(singles), 6 if big else 40))
    jobs += [(sc, [f]) for f in singles]
    count = sum(1 for o in out["ops"] if o["op"] not in SILENT)
    for _ in range(check.n(4, 40) if not big else 2):
      ks = sorted(r.sample(range(1, count + 8), 2))
      jobs.append((sc, [[k] + list(r.choice([(errno.EIO, 0), (errno.ENOSPC, 0), (errno.EBUSY, 1), (0, 2), (errno.EACCES, 1)])) for k in ks]))
  outs = tool.run_jobs([job_inplace(sc, f) for sc, f in jobs], shim)
  recs += [(sc, f, out) for (sc, f), out in zip(jobs, outs)]
  check.validate(SPEC, [to_case(sc, out) for sc, _f, out in recs],
                 [dict(scenario=sc, faults=f, rc=out["rc"], err=out["err"][-300:], ops=["%s %s %s %s" % (o["op"], o["a"] or o["x"], o["b"], o["r"]) for o in out["ops"]]) for sc, f, out in recs])
  check.sample(dict(argv=scs[0]["argv"], inputs=scs[0]["inputs"], ops=["%s %s %s %s" % (o["op"], o["a"] or o["x"], o["b"], o["r"]) for o in clean[0]["ops"]]))
  fired = sum(1 for _s, f, o in recs if f and o["meta"].split()[-1:] != ["0"])
  return check.finish(LEVEL,
                      "in-place runs over 1-3 files x every single fault of every file system call (and random pairs); every prefix of the calls is a crash point; non-trivial: a fault fired",
                      evaluations=len(recs), distinct=fired)


def replay(check, rec):
  shim = tool.build_shim(check.tmp)
  sc = rec["scenario"]
  sc = classify(sc, tool.run_jobs(jobs_new(sc)))
  out = tool.run_jobs([job_inplace(sc, rec["faults"])], shim)[0]
  for o in out["ops"]:
    print(o["op"], o["a"] or o["x"], o["b"], o["r"])
  print(out["rc"], out["err"])
  check.validate(SPEC, [to_case(sc, out)], [rec])
  return check.finish(LEVEL, "replay of one case")
