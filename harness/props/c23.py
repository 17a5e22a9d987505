"""C23: cmake-annotate."""
import io
import random

import core
import gen
import lexgen
import tool
from cmakelang import configuration
from cmakelang import lex
from cmakelang import parse
from cmakelang.parse.common import TreeNode

SPEC = "Annotate.tla"
LEVEL = "model_checking"
MODULE = "cmakelang.annotate"
FMT = {"stub": 0, "page": 1, "iframe": 2}
MARKUP = ["<b>", "</span>", "&amp;", "&", "<", ">", "a<b>c", "\"<!--\"", "&lt;script&gt;", "$<IF:$<BOOL:x>,\"a\",b>", "\"</span>\"", "'<'", "<span class=\"cmf-BODY\">",
          "&#60;", "\"&quot;\"", "[[<x>]]", "[=[&]]&]=]", "$<$<CONFIG:Debug>:-g>", "{{content}}", "{%x%}", "%s", "{}", "{0}"]
SPEC_EXTRA = {"my_cmd": {"flags": ["FLAG"], "kwargs": {"SRC": "*", "ONE": 1}, "pargs": 1}, "other_fn": {"kwargs": {"A": {"kwargs": {"B": 1}}}}}


def text_of(r):
  k = r.random()
  if k < 0.5:
    t = gen.Gen(r, crlf=r.random() < 0.2, onoff=r.random() < 0.4, max_items=4).file()
  elif k < 0.8:
    out = []
    for _ in range(r.randint(1, 5)):
      args = " ".join(r.choice(MARKUP + ["a", "SRC", "FLAG", "ONE", "A B", "x.cc", "\n"]) for _ in range(r.randint(0, 5)))
      out.append(r.choice(["%s(%s)\n", "# <&> %s\n%s(x)\n", "if(%s)\n%s(y)\nendif()\n", "%s(%s) # </span> &\n"]) % (
          (r.choice(["set", "my_cmd", "other_fn", "message", "foo"]), args) if r.random() < 0.7 else ("foo", "bar")))
      if "if(" in out[-1] and ("<" in out[-1].split("\n")[1] or not out[-1].split("\n")[1].split("(")[0].isidentifier()):
        out[-1] = "if(%s)\n  foo(\"<\")\nendif()\n" % args
      if r.random() < 0.2:
        out.append("#[[ <i> & %s ]]\n" % r.choice(MARKUP))
    t = "".join(out)
  elif k < 0.95:
    t = lexgen.piece_text(r, sep=0.9)
  else:
    t = r.choice(["", "\n", "  ", "# x", "foo()", "\r\n", "foo(\n)\n\n\n"])
  if r.random() < 0.3:
    t = t.replace("a", r.choice(["<", "&", ">", "é", "漢"]), 1) if "a" in t else t
  if r.random() < 0.08:
    t = "\ufeff" + t
  return t


def events(node, out):
  out.append(node.node_type.name if isinstance(node, TreeNode) else node.type.name)
  if isinstance(node, TreeNode):
    for ch in node.children:
      events(ch, out)
  out.append("")
  return out


def tree(text, conf):
  cfg = configuration.Configuration(**conf)
  db = parse.funs.get_parse_db()
  db.update(parse.funs.get_funtree(cfg.parse.fn_spec))
  return events(parse.parse(lex.tokenize(text), parse.ParseContext(db, config=cfg)), [])


def encodings(r, files):
  """encodings that the texts can be written in, mostly the default ones"""
  if r.random() < 0.7:
    return {}
  names = ["latin-1", "utf-8", "utf-16-le", "cp1252"]
  enc = {"input_encoding": r.choice(names), "output_encoding": r.choice(names)}
  try:
    if any(t.encode(e).decode(e) != t for t, _e in files for e in enc.values()):
      return {}
  except UnicodeError:
    return {}
  return enc


def prepare(job):
  """-> record with texts and trees, or None where the parser refuses"""
  seed, how = job
  r = random.Random(seed)
  conf = {}
  if r.random() < 0.4:
    conf = {"additional_commands": SPEC_EXTRA}
  fmt = r.choice(["stub", "stub", "page", "iframe"])
  files = []
  want = r.choice([1, 1, 1, 2, 3])
  while len(files) < want:
    t = text_of(r)
    got, err = core.guarded(tree, t, {"parse": dict(conf)} if conf else {})
    if err is None:
      files.append([t, got])
  enc = encodings(r, files)
  return dict(seed=seed, enc=enc, fmt=fmt, conf=conf, files=files, mode=r.choice(["stdout", "stdout", "out", "stdin"]) if want == 1 else "stdout",
              given=r.random() < 0.5)


def job_of(rec):
  import json
  argv = []
  files = {}
  stdin = b""
  enc = rec["enc"].get("input_encoding", "utf-8")
  if rec["fmt"] != "stub" or rec["seed"] % 2:
    argv += ["--format" if rec["seed"] % 3 else "-f", rec["fmt"]]
  if rec["conf"] or rec["enc"]:
    name = "c.json" if rec["given"] else ".cmake-format.json"
    files[name] = dict(hex=tool.hexs(json.dumps({"parse": rec["conf"], "encode": rec["enc"]})), mode=0o644)
    if rec["given"]:
      argv = argv + ["-c", name] if rec["seed"] % 2 else ["-c", name] + (argv or ["-f", "stub"])
  paths = []
  for k, (t, _e) in enumerate(rec["files"]):
    if rec["mode"] == "stdin":
      stdin = t.encode(enc)
      paths.append("-")
    else:
      files["f%d.cmake" % k] = dict(hex=tool.hexs(t.encode(enc)), mode=0o644)
      paths.append("f%d.cmake" % k)
  if rec["mode"] == "out":
    argv += ["-o", "out.html"]
  argv += (["--"] if argv and argv[-2] == "-c" else []) + paths
  return dict(module=MODULE, files=files, argv=argv, stdin=tool.hexs(stdin))


def finish_rec(rec, out):
  hexed = out["final"].get("out.html", {}).get("hex", "") if rec["mode"] == "out" else out["out"]
  rec["html"] = bytes.fromhex(hexed).decode(rec["enc"].get("output_encoding", "utf-8"), "surrogateescape")
  rec["err"] = "" if out["rc"] == 0 else "exit %s" % out["rc"]
  rec["said"] = str(out["err"])[-500:]
  return rec


def to_case(rec):
  return dict(src=[core.cp(t) for t, _e in rec["files"]], html=core.cp(rec["html"]), fmt=FMT[rec["fmt"]], err=core.cp(rec["err"]),
              tree=[[core.cp(n) for n in e] for _t, e in rec["files"]])


def run(check):
  recs = core.pmap(prepare, [(s, 0) for s in check.seeds(check.n(900, 6000))], chunksize=16)
  outs = tool.run_jobs([job_of(r) for r in recs])
  recs = [finish_rec(r, o) for r, o in zip(recs, outs)]
  check.validate(SPEC, [to_case(r) for r in recs], recs)
  for r in recs[:2]:
    check.sample(r["files"][0][0])
  return check.finish(LEVEL, "runs of cmake-annotate over random listfiles rich in markup characters x output format x destination x configuration; "
                      "non-trivial: a statement with an argument", evaluations=len(recs),
                      distinct=len(set(r["files"][0][0] for r in recs if "ARGUMENT" in r["files"][0][1])))


def replay(check, rec):
  conf = {"parse": dict(rec["conf"])} if rec["conf"] else {}
  rec = dict(rec, files=[[t, tree(t, conf)] for t, _e in rec["files"]])
  rec = finish_rec(rec, tool.run_jobs([job_of(rec)])[0])
  check.validate(SPEC, [to_case(rec)], [rec])
  print(repr(rec["files"][0][0]), "\n", rec["html"], rec["said"])
  return check.finish(LEVEL, "replay of one case")
