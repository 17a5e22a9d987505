"""C24: ctest-to."""
import contextlib
import io
import json
import os
import random
import sys
from xml.etree import ElementTree as ET

import core
import cfglib
import gen

SPEC = "CTest.tla"
LEVEL = "model_checking"
NAMES = ["t", "a b", "t2", "T", "unit.x", "x-y", "é", "t;u", "a\"b", "#t", "PROPERTIES", "[t]", "t)", "a/b", "0", "t2 ", "\\t", "$ x", "add_test"]
ARGS = ["/bin/true", "--x", "", "q \"x\"", "a;b", "\\", "a\\;b", "$", "é漢", "#c", "(", ")", "[[x]]", "]]", "a\tb", "a b", "-DX=1", "--y=a b", "<x>&", "'q'", "PROPERTIES",
        "x" * 90, "line\nbreak", "%s", "{0}", " lead"]
KEYS = ["ENVIRONMENT", "WILL_FAIL", "WORKING_DIRECTORY", "DEPENDS", "RUN_SERIAL", "PASS_REGULAR_EXPRESSION", "custom_key", "COST", "FIXTURES_SETUP"]


def quoted(r, s):
  out = []
  for ch in s:
    if ch in "\"\\$" :
      out.append("\\" + ch)
    elif ch == "\t" and r.random() < 0.7:
      out.append("\\t")
    elif ch == "\n" and r.random() < 0.5:
      out.append("\\n")
    elif ch in "#() " and r.random() < 0.05:
      out.append("\\" + ch)
    elif r.random() < 0.01:
      out.append("\\\n" + ch)
    else:
      out.append(ch)
  # an escaped semicolon is the two characters
  return "\"" + "".join(out).replace("\\\\;", "\\;" if r.random() < 0.5 else "\\\\;") + "\""


def bracket(r, s):
  n = r.choice([0, 1, 1, 2])
  while "]" + "=" * n + "]" in s + "]":
    n += 1
  lead = "\n" if s.startswith("\n") or r.random() < 0.1 else ""
  return "[" + "=" * n + "[" + lead + s + "]" + "=" * n + "]"


PLAIN = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-./+=:<>&%{}!*,é漢")


def spell(r, s, prefer=None):
  kinds = ["q", "q", "b"]
  if s and s[0] not in "[=" and all(ch in PLAIN or ch in "#() \"\\\t$" for ch in s):
    kinds += ["u", "u"]
  k = prefer or r.choice(kinds)
  if k == "u" and "u" in kinds:
    return "".join("\\t" if ch == "\t" else ch if ch in PLAIN else "\\" + ch for ch in s)
  if k == "b":
    return bracket(r, s)
  return quoted(r, s)


def sep(r):
  return r.choice([" "] * 12 + ["  ", "\n", "\n  ", "\t", " # note ) \"\n", " #[[ x ) ]] ", "\n\n"])


def call(r, name, args):
  if r.random() < 0.1:
    name = r.choice([name.upper(), name.capitalize(), gen.mixed(r, name)])
  out = name + r.choice(["(", "(", "(", "( ", " (", "(\n", "(# c\n"])
  for k, arg in enumerate(args):
    out += (sep(r) if k else "") + arg
  return out + r.choice([")", ")", ")", " )", "\n)", " # last\n)"]) + r.choice(["\n", "\n", "\n\n", " # c\n"])


def props(r, names):
  out = []
  for _ in range(r.choice([0, 1, 1, 2, 4])):
    k = r.random()
    if k < 0.2:
      key, val = "LABELS", ";".join(r.sample(["unit", "slow", "a b", "é", "x&y"], r.randint(1, 3)))
    elif k < 0.35:
      key, val = "TIMEOUT", r.choice(["1", "30", "12.5", "0", "1500", "0.25", "060"])
    elif k < 0.5:
      key, val = "_BACKTRACE_TRIPLES", "/src/CMakeLists.txt;4;add_test"
    else:
      key, val = r.choice(KEYS), r.choice(ARGS + ["TRUE", "A=1;B=2"])
    out += [spell(r, key, r.choice(["u", None])), spell(r, val)]
  return [spell(r, n) for n in names] + ["PROPERTIES"] + out


def statements(r, names, subs):
  out = []
  used = []
  n = r.choice([0, 1, 1, 2, 3, 6])
  for k in range(n):
    name = r.choice(names)
    used.append(name)
    one = call(r, "add_test", [spell(r, name)] + [spell(r, r.choice(ARGS)) for _ in range(r.choice([1, 1, 2, 3, 7]))])
    if r.random() < 0.75:
      one += call(r, "set_tests_properties", props(r, [name]))
    if r.random() < 0.12:
      one = "if(\"${CTEST_CONFIGURATION_TYPE}\" MATCHES \"^([Rr][Ee][Ll])$\")\n%s%s" % (one, r.choice([
          "endif()\n", "else()\n%sendif()\n" % call(r, "add_test", [spell(r, name), "NOT_AVAILABLE"])]))
    out.append(one)
  if used and r.random() < 0.4:
    out.append(call(r, "set_tests_properties", props(r, r.sample(used, r.randint(1, len(used))) + ([r.choice(names)] if r.random() < 0.3 else []))))
  for s in subs:
    if r.random() < 0.8 or len(subs) == 1:
      out.insert(r.randint(0, len(out)), call(r, "subdirs", [spell(r, s)]))
    else:
      out.append(call(r, "SUBDIRS", [spell(r, x, "u") for x in [s]]))
  for _ in range(r.choice([0, 0, 1, 2])):
    out.insert(r.randint(0, len(out)), r.choice(["# CMake generated Testfile for \n# Source directory: /x\n", "set(CTEST_X \"add_test(\")\n", "\n", "#[[ add_test(no no) ]]\n",
                                                 "message(STATUS add_test)\n", "include(\"x.cmake\")\n", "# add_test(no no)\n", "\tset(y (add_test))\n"]))
  return "".join(out)


def scenario(seed):
  r = random.Random(seed)
  names = r.sample(NAMES, r.choice([1, 2, 4, 8]))
  dirs = [""]
  for _ in range(r.choice([0, 0, 1, 2, 4])):
    base = r.choice(dirs)
    cand = (base + "/" if base else "") + r.choice(["sub", "a", "b c", "é", "x/y", "sub2", "#d"])
    if cand not in dirs:
      dirs.append(cand)
  files = []
  for k, d in enumerate(dirs):
    subs = []
    for m, e in enumerate(dirs):
      # every directory is named once, by one listed before it
      if m > k and parent(seed, m, dirs) == k:
        rel = e[len(d) + 1:] if d and e.startswith(d + "/") else e if not d else "../" * (d.count("/") + 1) + e
        subs.append(r.choice([rel] * 4 + ["@ROOT@/" + e, "./" + rel]))
    if r.random() < 0.1:
      subs.append("nowhere%d" % k)
    text = statements(r, names, subs)
    if r.random() < 0.15:
      text = text.replace("\n", "\r\n")
    files.append([d, text])
  if len(dirs) > 1 and r.random() < 0.1:
    files[-1][1] = None
  return dict(seed=seed, files=files, arg=r.choice(["abs", "dot", "none", "rel", "slash", "link", "dots"]))


def parent(seed, m, dirs):
  return random.Random("%s/%s" % (seed, m)).randrange(m)


def number(text):
  return ["number", text]


def run_tool(argv, cwd):
  """main() of the tool in this process: what it writes"""
  from cmakelang import ctest_to
  out = io.StringIO()
  old = sys.argv, os.getcwd()
  try:
    sys.argv = ["ctest-to"] + argv
    os.chdir(cwd)
    with contextlib.redirect_stdout(out):
      ctest_to.main()
  finally:
    sys.argv = old[0]
    os.chdir(old[1])
  return out.getvalue()


def prop(k, v):
  if isinstance(v, list) and len(v) == 2 and v[0] == "number":
    text = v[1]
    head, _, tail = text.partition(".")
    tail = tail.rstrip("0")
    return dict(k=core.cp(k), t="n", v=[core.cp((head.lstrip("0") or "0") + ("." + tail if tail else ""))])
  if isinstance(v, list):
    return dict(k=core.cp(k), t="l", v=[core.cp(str(x)) for x in v])
  return dict(k=core.cp(k), t="s" if isinstance(v, str) else "?", v=[core.cp(str(v))])


def record(sc):
  with cfglib.Scratch() as tmp:
    dirs = []
    root = tmp.path
    if sc["arg"] == "link":
      # the tree is named through a link
      root = os.path.join(tmp.path, "via", "link")
      os.mkdir(os.path.dirname(root))
      os.symlink("..", root)
    for d, text in sc["files"]:
      rel = (d.split("/") if d else []) + ["CTestTestfile.cmake"]
      if text is not None:
        text = text.replace("@ROOT@", root)
        tmp.put(rel, text)
        dirs.append(dict(d=core.cp(root + ("/" + d if d else "")), x=core.cp(text)))
      else:
        os.makedirs(os.path.join(tmp.path, d), exist_ok=True)
    arg, cwd = {"abs": ([tmp.path], "/"), "slash": ([tmp.path + "/"], "/"), "link": ([root], "/"), "dots": (["x/.././/" + os.path.basename(tmp.path)], os.path.dirname(tmp.path)),
                "dot": (["."], tmp.path), "none": ([], tmp.path), "rel": ([os.path.basename(tmp.path)], os.path.dirname(tmp.path))}[sc["arg"]]
    case = dict(dirs=dirs, err=[], json=[], xml=[])
    text, err = core.guarded(run_tool, ["--json"] + arg, cwd)
    xml = ""
    if err is None:
      xml, err = core.guarded(run_tool, ["--xml"] + arg, cwd)
    if err is None:
      try:
        for t in json.loads(text, parse_int=number, parse_float=number):
          case["json"].append(dict(n=core.cp(t["name"]), d=core.cp(t["cwd"]), v=[core.cp(a) for a in t["argv"]], p=[prop(k, v) for k, v in t["props"].items()]))
        root = ET.fromstring(xml)
        for t in root:
          case["xml"].append(dict(n=core.cp(t.get("name")), d=core.cp(t.get("cwd")), v=[core.cp(a.get("value")) for a in t.findall("argv/arg")],
                                  p=[dict(k=core.cp(k), v=core.cp(v)) for k, v in t.attrib.items() if k not in ("name", "cwd")],
                                  l=[core.cp(x.get("value")) for x in t.findall("labels/label")]))
      except (ValueError, KeyError, TypeError, AttributeError, ET.ParseError) as ex:
        err = "output: %s %s" % (type(ex).__name__, ex)
    case["err"] = core.cp((err or "").encode("ascii", "replace").decode())
  return case, text, xml, err


def run(check):
  scs = core.pmap(scenario, check.seeds(check.n(3000, 20000)))
  recs = core.pmap(record, scs)
  check.validate(SPEC, [x[0] for x in recs], [dict(sc, err=x[3]) for sc, x in zip(scs, recs)])
  for sc in scs[:2]:
    check.sample(sc["files"])
  return check.finish(LEVEL, "random trees of test files: every argument spelling, escapes, comments, several directories, redefinitions; non-trivial: at least one test in the output",
                      evaluations=len(recs), distinct=len(set(json.dumps(x[0]["json"]) for x in recs if x[0]["json"])))


def replay(check, rec):
  case, text, xml, err = record(rec)
  check.validate(SPEC, [case], [rec])
  for d, t in rec["files"]:
    print("---", d)
    print(t)
  print(text, xml, err)
  return check.finish(LEVEL, "replay of one case")
