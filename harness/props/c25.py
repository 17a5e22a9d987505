"""C25: gen-parsers."""
import ast
import json
import random

import core
import gen
import tool
from cmakelang import configuration
from cmakelang import parse

SPEC = "GenParsers.tla"
LEVEL = "model_checking"
MODULE = "cmakelang.genparsers"
WORDS = ["FLAG", "QUIET", "REQUIRED", "NAME", "SRC", "DEPS", "sources", "Opt", "A", "B_2", "ON", "NO", "NULL", "yes", "ONE", "x", "SORT", "COMMAND", "#no"]
VARS = ["opts", "one", "multi", "_options", "kw", "X1"]


def words(r, taken, pool):
  n = r.choice([0, 1, 1, 2, 3, 6])
  out = []
  for _ in range(n):
    w = r.choice(pool)
    if w.upper() not in taken and w[0] != "#":
      taken.add(w.upper())
      out.append(w)
  return out


class Body(object):
  def __init__(self, r):
    self.r = r
    self.crlf = False

  def sep(self):
    return self.r.choice([" "] * 10 + ["\n", "\n    ", "  ", " # note ) \"x\n", " #[[ y ]] ", "\t"])

  def call(self, name, args):
    r = self.r
    k = r.random()
    name = name.upper() if k < 0.1 else gen.mixed(r, name) if k < 0.15 else name
    out = name + r.choice(["("] * 6 + [" (", "( ", "(\n", "(# c\n"])
    for k, a in enumerate(args):
      out += (self.sep() if k else "") + a
    return out + r.choice([")"] * 6 + [" )", "\n)", " # last )\n)"]) + r.choice(["\n", "\n", "\n\n", " # c\n"])

  def setting(self, var, ws):
    """set() of a variable to a list, perhaps via others"""
    r = self.r
    k = r.random()
    if k < 0.35:
      vals = list(ws)
    elif k < 0.55:
      vals = ["\"" + ";".join(ws) + "\""]
    elif k < 0.6:
      # blanks around the names, several lines
      vals = ["\"" + r.choice(["; ", ";\n    ", " ;", ";\t"]).join(ws) + r.choice(["", " ", ";", "\n"]) + "\""]
    elif k < 0.7:
      vals = [";".join(ws)] if ws else []
    elif k < 0.85 and ws:
      n = r.randint(0, len(ws))
      part = r.choice(["part", "p2"])
      ref = "${%s}" % part
      return self.setting(part, ws[:n]) + self.noise() + self.call("set", [var, r.choice([ref, "\"%s\"" % ref])] + ws[n:])
    else:
      vals = [w if r.random() < 0.5 else "\"%s\"" % w for w in ws]
    if r.random() < 0.05 and vals:
      vals += ["CACHE", "STRING", "\"the doc\""] + (["FORCE"] if r.random() < 0.3 else [])
    text = self.call("set", [var] + vals)
    if r.random() < 0.1:
      text = self.call("set", [var, "JUNK"]) + text
    if r.random() < 0.1:
      text += self.call("set", [var, "OTHER", "PARENT_SCOPE"])
    if r.random() < 0.15:
      text = "if(X)\n%sendif()\n" % text if r.random() < 0.6 else "foreach(v a b)\n%sendforeach()\n" % text
    return text

  def noise(self):
    r = self.r
    if r.random() < 0.75:
      return ""
    return r.choice(["# comment\n", "message(STATUS \"cmake_parse_arguments(\")\n", "\n", "if(a)\n  message(x)\nelse()\n  message(y)\nendif()\n", "#[[ set(opts NO) ]]\n",
                     "set(other x)\n", "foo(BAR)\n", "while(z)\n  set(q 1)\nendwhile()\n", "# set(opts NO)\n", "return()\n", "set(undef)\n"])

  def value(self, ws):
    """-> statements before, argument"""
    r = self.r
    k = r.random()
    if k < 0.35 or (not ws and k < 0.6):
      return "", "\"%s\"" % ";".join(ws)
    if k < 0.45 and len(ws) == 1:
      return "", ws[0]
    if k < 0.9:
      var = r.choice(VARS) if r.random() < 0.7 else "v%d" % r.randint(0, 9)
      return (var, ws), "\"${%s}\"" % var
    cut = r.randint(0, len(ws))
    var = "w%d" % r.randint(0, 9)
    return (var, ws[:cut]), "\"%s\"" % ";".join(["${%s}" % var] + ws[cut:])

  def cpa(self):
    r = self.r
    taken = set()
    text = ""
    args = []
    flags = words(r, taken, WORDS)
    taken = set() if r.random() < 0.3 else taken
    lists = [flags, words(r, taken, WORDS), words(r, taken, WORDS)]
    used = set()
    for ws in lists:
      pre, arg = self.value(ws)
      if pre:
        if pre[0] in used:
          pre, arg = ("u%d" % len(used), pre[1]), arg.replace("${%s}" % pre[0], "${u%d}" % len(used))
        used.add(pre[0])
        text += self.setting(*pre) + self.noise()
      args.append(arg)
    call = self.call("cmake_parse_arguments", (["ARG"] if r.random() < 0.8 else ["PARSE_ARGV", str(r.randint(0, 3)), "\"ARG\""]) + args + r.choice([["${ARGN}"], ["\"${ARGN}\""], ["${ARGN}", "x"], []]))
    if r.random() < 0.1:
      call = "if(ARGN)\n%sendif()\n" % call
    return text + call

  def definition(self, depth=0):
    r = self.r
    name = r.choice(["foo", "Bar", "BAZ_QUX", "add_thing", "my_Fn", "_private", "x1", "foo", "other.fn"[:5]]) + r.choice(["", "", "_2", "X"])
    pars = [r.choice(["name", "OUT", "a", "b", "target"]) + str(k) for k in range(r.choice([0, 0, 1, 2, 3, 12]))]
    kind = r.choice(["function", "macro"])
    body = self.noise()
    if r.random() < 0.12 and depth < 2:
      body += self.definition(depth + 1)
    if r.random() < 0.75:
      body += self.cpa() + self.noise()
      if r.random() < 0.15:
        body += self.cpa()
    if r.random() < 0.05:
      body += self.call("list", ["APPEND", "opts", "x"])
    if r.random() < 0.1 and depth < 2:
      body += self.definition(depth + 1)
    text = self.call(kind, [name] + pars) + body + self.call("end" + kind, [name] if r.random() < 0.3 else [])
    if depth == 0 and r.random() < 0.1:
      text = "if(NOT COMMAND foo)\n%sendif()\n" % text
    return text

  def file(self):
    r = self.r
    out = [r.choice(["", "", "# head\n\n", "include_guard()\n", "include(CMakeParseArguments)\n"])]
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
      out.append(self.definition())
      out.append(self.noise())
    if r.random() < 0.1:
      out.insert(1, "set(opts GLOBAL)\n")
    text = "".join(out)
    if r.random() < 0.12:
      text = text.replace("\n", "\r\n")
    return text


def scenario(seed):
  r = random.Random(seed)
  files = [Body(r).file() for _ in range(r.choice([1, 1, 1, 2, 3]))]
  missing = r.choice([0] * 9 + [1])
  return dict(seed=seed, files=files, missing=missing, at=r.randint(0, len(files)), fmt=r.choice(["json", "yaml", "python", "default"]),
              out=r.random() < 0.3, stdin=len(files) == 1 and not missing and r.random() < 0.15)


def job_of(sc):
  argv = [] if sc["fmt"] == "default" else [random.Random(sc["seed"]).choice(["-f", "--output-format"]), sc["fmt"]]
  if sc["out"]:
    argv += ["-o", "out.txt"]
  files = {}
  paths = []
  for k, text in enumerate(sc["files"]):
    files["f%d.cmake" % k] = dict(hex=tool.hexs(text), mode=0o644)
    paths.append("f%d.cmake" % k)
  if sc["missing"]:
    paths.insert(sc["at"], "missing.cmake")
  stdin = b""
  if sc["stdin"]:
    paths, stdin = ["-"], sc["files"][0].encode("utf-8")
  return dict(module=MODULE, files=files, argv=argv + paths, stdin=tool.hexs(stdin))


def scalar(v):
  return dict(t="i" if isinstance(v, int) and not isinstance(v, bool) else "s" if isinstance(v, str) else "?", v=core.cp(str(v)))


def to_case(sc, out):
  hexed = out["final"].get("out.txt", {}).get("hex", "") if sc["out"] else out["out"]
  text = bytes.fromhex(hexed).decode("utf-8", "surrogateescape")
  case = dict(files=[core.cp(t) for t in sc["files"]], missing=sc["missing"], rc=out["rc"] if isinstance(out["rc"], int) else 99, err=[], out=[])
  try:
    if sc["fmt"] == "json":
      val = json.loads(text)
    elif sc["fmt"] == "yaml":
      import yaml
      val = yaml.safe_load(text)
    else:
      val = ast.literal_eval(text)
    if not isinstance(val, dict):
      raise ValueError("not a dictionary")
    for fn, spec in val.items():
      pargs = spec["pargs"]
      if set(spec) - {"pargs", "kwargs", "spelling"} or set(pargs) - {"nargs", "flags"}:
        raise ValueError("unexpected entries")
      case["out"].append(dict(n=core.cp(fn), sp=core.cp(spec.get("spelling", "")), na=scalar(pargs["nargs"]), has=int("flags" in pargs or "kwargs" in spec),
                              fl=[core.cp(str(x)) for x in pargs.get("flags", [])], kw=[dict(scalar(v), k=core.cp(str(k))) for k, v in spec.get("kwargs", {}).items()]))
    cfg = configuration.Configuration(**{"parse": {"additional_commands": val}})
    parse.funs.get_funtree(cfg.parse.fn_spec)
  except Exception as ex:  # pylint: disable=broad-except
    case["err"] = core.cp(("%s %s" % (type(ex).__name__, ex)).encode("ascii", "replace").decode()[:300])
  return case, text


def judge(check, scs):
  outs = tool.run_jobs([job_of(sc) for sc in scs])
  recs = [to_case(sc, out) for sc, out in zip(scs, outs)]
  reps = [dict(sc, said=str(out["err"])[-500:], wrote=rec[1][:2000]) for sc, out, rec in zip(scs, outs, recs)]
  check.validate(SPEC, [rec[0] for rec in recs], reps)
  return recs, reps


def run(check):
  scs = core.pmap(scenario, check.seeds(check.n(2400, 16000)), chunksize=32)
  recs, _reps = judge(check, scs)
  for sc in scs[:2]:
    check.sample(sc["files"][0])
  return check.finish(LEVEL, "runs over random listfiles with definitions x indirections x output formats x destinations; non-trivial: keywords declared",
                      evaluations=len(recs), distinct=len(set(x[1] for x in recs if any(o["has"] for o in x[0]["out"]))))


def replay(check, rec):
  recs, reps = judge(check, [rec])
  for t in rec["files"]:
    print("---")
    print(t)
  print("--- wrote\n", recs[0][1], "---", reps[0]["said"], core.uncp(recs[0][0]["err"]))
  return check.finish(LEVEL, "replay of one case")
