"""C19: lint reports, suppressions and exit status."""
import random
import re

import core
import lintlib
import tool

SPEC = "LintRun.tla"
LEVEL = "model_checking"
MODULE = "cmakelang.lint.__main__"
IDS = ["C0103", "C0103", "C0111", "C0112", "C0202", "C0301", "C0303", "C0305", "C0305", "C0307", "C0307", "C0321", "C0304", "W0101",
       "E0103", "E0108", "E0109", "E1120", "E1122", "R0911", "R0912", "R0913", "R0915", "E0011", "E0012", "W0105", "W0106"]


class PragmaGen(lintlib.LintGen):
  """listfiles full of messages and pragmas"""

  def pragma(self):
    r = self.r
    ids = [r.choice(IDS) for _ in range(r.choice([1, 1, 2, 3]))]
    if r.random() < 0.12:
      ids[r.randrange(len(ids))] = r.choice(["C9999", "", "c0103", "all", "C01034"])
    out = "disable=" + ",".join(ids)
    x = r.random()
    if x < 0.1:
      out += r.choice([" enable=C0103", " foo", " bar=", " disable=" + r.choice(IDS), "  disable=C0301"])
    elif x < 0.14:
      out = r.choice(["foo", "enable=C0103 " + out, "xx " + out, "=", "disable", "Disable=C0103", "disable==C0103"])
    return r.choice(["# cmake-lint: "] * 9 + ["#cmake-lint: ", "# cmake-lint:", "#  cmake-lint: ", "## cmake-lint: "]) + out

  def sep(self):
    r = self.r
    if r.random() < 0.06:
      return r.choice([" ", "\n  "]) + self.pragma() + "\n  "
    return lintlib.LintGen.sep(self)

  def trail(self):
    r = self.r
    x = r.random()
    if x < 0.1:
      return "  " + self.pragma() + "\n" * r.choice([1, 1, 3])
    if x < 0.13:
      return "  # x\n" + r.choice(["  ", "    "]) + self.pragma() + "\n"
    return r.choice(["", "", "", " ", "\t"]) + lintlib.LintGen.trail(self) if x < 0.3 else lintlib.LintGen.trail(self)

  def stmt(self):
    r = self.r
    x = r.random()
    if x < 0.1:
      return r.choice(["set(x y CACHE STRING)", "list(LENGTH)", 'message("${cmake_source_dir}")', "set(cmake_cxx_standard 11)",
                       'foo("${CMAKE_SOURCE_DIR")', "install(TARGETS a DESTINATION b DESTINATION c)", "foo(%s)" % ("w " * 42)])
    return lintlib.LintGen.stmt(self)

  def items(self, d):
    out = ""
    r = self.r
    for _ in range(r.choice([1, 1, 2, 3])):
      if r.random() < 0.3:
        out += r.choice(["", "  " * d]) + self.pragma() + "\n" * r.choice([1, 1, 2])
      if r.random() < 0.05:
        out += "# a\n" + self.pragma() + "\n"
      out += lintlib.LintGen.items(self, d)
    return out


def neutral(text):
  return text.replace("# cmake-lint: ", "# cmake-l1nt: ")


def scenario(seed):
  r = random.Random(seed)
  opts = lintlib.gen_opts(r, limits=True, names=r.random() < 0.3)
  opts["width"] = r.choice([20, 40, 80])
  names = ["a.cmake", "d/CMakeLists.txt", "b.cmake", "z.cmake"][:r.choice([1, 1, 1, 2, 2, 3, 4])]
  files = {}
  for name in names:
    x = r.random()
    if x < 0.1:
      text = "foo(a)\nbar(b)\n"
    else:
      g = PragmaGen(r, depth=r.choice([1, 2, 3]), size=r.choice([2, 3]), names=r.random() < 0.5, jumps=r.random() < 0.3, comments=r.random() < 0.5)
      text = g.file()[:2500]
      text = text[:text.rfind("\n") + 1] if len(text) == 2500 else text
      if r.random() < 0.1:
        text = text.rstrip("\n")
    files[name] = text
  missing = None
  if r.random() < 0.12:
    missing = r.choice(["missing.cmake", "latin.cmake", "d"])
  disabled = sorted(set(r.choice(IDS) for _ in range(r.choice([0, 0, 0, 1, 2, 4]))))
  stdin = len(names) == 1 and missing is None and r.random() < 0.2
  return dict(files=files, opts=opts, missing=missing, where=r.randint(0, len(names)), disabled=disabled, how=r.choice(["cli", "config"]),
              deco=r.random() < 0.7, outfile=r.random() < 0.2, stdin=stdin, order=r.random() < 0.3)


def base(sc):
  out = {}
  for name, text in sc["files"].items():
    val, err = core.guarded(lintlib.lint_text, lintlib.make_cfg(sc["opts"]), neutral(text))
    if err is not None:
      return None
    out[name] = val
  return out


def config_text(sc):
  cfg = lintlib.make_cfg(sc["opts"])
  if sc["how"] == "config":
    cfg["lint"]["disabled_codes"] = sc["disabled"]
  out = ""
  for section, values in cfg.items():
    out += "with section(%r):\n" % section + "".join("  %s = %r\n" % kv for kv in values.items())
  return out


def order(sc):
  names = sorted(sc["files"], reverse=sc["order"])
  if sc["missing"]:
    names.insert(sc["where"], sc["missing"])
  return names


def job(sc):
  files = {k: {"hex": v.encode("utf-8").hex(), "mode": 0o644} for k, v in sc["files"].items()}
  files["cfg.py"] = {"hex": config_text(sc).encode().hex(), "mode": 0o644}
  files["latin.cmake"] = {"hex": b"foo(\xe9)\n".hex(), "mode": 0o644}
  argv = ["-c", "cfg.py"]
  if sc["how"] == "cli" and sc["disabled"]:
    argv = ["--disabled-codes"] + sc["disabled"] + argv
  if not sc["deco"]:
    argv.append("--suppress-decorations")
  if sc["outfile"]:
    argv += ["-o", "report.txt"]
  out = dict(module=MODULE, files=files, argv=(["-"] if sc["stdin"] else order(sc)) + argv)
  if sc["stdin"]:
    out["stdin"] = list(sc["files"].values())[0].encode("utf-8").hex()
  return out


MSG = re.compile(r"^(.*?):(?:(\d+)(?:,(\d+))?)?: \[(\w\d{4})\] (.*)$")


def to_case(sc, bases, out):
  report = bytes.fromhex(out["out"]).decode("utf-8", "replace")
  stray = 0
  if sc["outfile"]:
    stray = int(report != "")
    report = bytes.fromhex(out["final"].get("report.txt", {}).get("hex", "")).decode("utf-8", "replace")
  names = order(sc)
  shown = {k: ("-" if sc["stdin"] else k) for k in names}
  lines = report.split("\n")
  got = {k: [] for k in names}
  heads = []
  scanned, cats = -1, {}
  for k, line in enumerate(lines):
    m = MSG.match(line)
    if m:
      for name in names:
        if shown[name] == m.group(1):
          got[name].append(dict(id=m.group(4), ln=int(m.group(2) or -1), m=core.cp(m.group(5))))
          break
      else:
        stray = 1
    elif k and line and line == "=" * len(lines[k - 1]) and lines[k - 1] in shown.values():
      heads.append(core.cp(lines[k - 1]))
    m = re.match(r"^files scanned: (\d+)$", line)
    if m:
      scanned = int(m.group(1))
    m = re.match(r"^ +(Convention|Error|Refactor|Warning): (\d+)$", line)
    if m and scanned >= 0:
      cats[m.group(1)[0]] = int(m.group(2))
  files = []
  for name in names:
    rd = int(name != sc["missing"])
    files.append(dict(p=core.cp(shown[name]), rd=rd, x=core.cp(sc["files"][name]) if rd else [],
                      base=[dict(id=b[0], ln=b[1], m=core.cp(b[3].split("\n")[0])) for b in bases[name]] if rd else [], got=got[name]))
  return dict(files=files, off=sc["disabled"], deco=int(sc["deco"]), heads=heads, scanned=scanned,
              cats=[cats.get(ch, 0) for ch in "CERW"], rc=out["rc"] if out["rc"] is not None else -9, stray=stray)


def execute(check, scs):
  bases = core.pmap(base, scs)
  check.counts["not-parsed"] += sum(1 for b in bases if b is None)
  todo = [(sc, b) for sc, b in zip(scs, bases) if b is not None]
  outs = tool.run_jobs([job(sc) for sc, _b in todo])
  check.validate(SPEC, [to_case(sc, b, o) for (sc, b), o in zip(todo, outs)],
                 [dict(scenario=sc, rc=o["rc"], out=bytes.fromhex(o["out"]).decode("utf-8", "replace"), err=o["err"][-1500:]) for (sc, _b), o in zip(todo, outs)])
  return todo, outs


def run(check):
  scs = core.pmap(scenario, check.seeds(check.n(1200, 16000)))
  todo, outs = execute(check, scs)
  for (sc, _b), out in list(zip(todo, outs))[:2]:
    check.sample(dict(files=sc["files"], disabled=sc["disabled"], out=bytes.fromhex(out["out"]).decode("utf-8", "replace")))
  return check.finish(LEVEL, "cmake-lint runs over 1-4 files with random pragmas at all depths, disabled ids, output options and unreadable files; non-trivial: a pragma or a disabled id",
                      evaluations=len(todo), distinct=sum(1 for sc, _b in todo if sc["disabled"] or any("cmake-lint: " in t for t in sc["files"].values())))


def replay(check, rec):
  sc = rec["scenario"]
  todo, outs = execute(check, [sc])
  for name, text in sc["files"].items():
    print("---", name)
    for k, line in enumerate(text.split("\n")):
      print("%3d %s" % (k + 1, line))
  print(sc["disabled"], sc["how"])
  for out in outs:
    print(out["rc"], bytes.fromhex(out["out"]).decode("utf-8", "replace"), out["err"][-2000:])
  return check.finish(LEVEL, "replay of one case")
