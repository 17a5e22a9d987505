"""C26: lint messages about the arguments of a statement."""
import json
import random

import core
import gen
import lintlib
from cmakelang import lex
from props import c18

SPEC = "LintArgs.tla"
LEVEL = "model_checking"
IDS = ["C0113", "C0114", "E1120", "E1121", "E1122", "E1125", "E1126", "W0104"]
# commands the messages are about, apart from every command's counts and keywords
FORMS = ["file", "list", "add_custom_command", "cmake_policy", "build_command", "set", "add_custom_target", "break",
         "continue", "return", "enable_testing", "install", "foreach"]


def places(text):
  """(line, column) of the tokens that c18.tokens reports, and of what follows
  the first parenthesis"""
  out = []
  depth = 0
  after = None
  for tok in lex.tokenize(text):
    kind = tok.type.name
    if after == "next" and kind not in ("WHITESPACE", "NEWLINE"):
      after = list(tok.get_location())[:2]
    if kind in c18.SKIP:
      continue
    if kind == "LEFT_PAREN":
      depth += 1
      if depth == 1:
        after = "next"
        continue
    if kind == "RIGHT_PAREN":
      depth -= 1
    if depth == 0 and kind != "RIGHT_PAREN":
      continue
    out.append(list(tok.get_location())[:2])
    if depth == 0:
      break
  return out, after


def doubled(r, args):
  """the same arguments with one of them, or a run of them, again"""
  if not args:
    return args
  k = r.randrange(len(args))
  n = r.choice([1, 1, 2, 3])
  at = r.randrange(len(args) + 1)
  return args[:at] + args[k:k + n] + args[at:]


def balanced(args):
  """the arguments without parentheses that have no counterpart"""
  out = []
  stack = []
  for a in args:
    if a == "(":
      stack.append(len(out))
    elif a == ")":
      if not stack:
        continue
      stack.pop()
    out.append(a)
  return [a for k, a in enumerate(out) if k not in stack]


SURE = {
    "set": lambda r: ["x"] + ["y"] * r.choice([0, 1, 2]) + [c18.respell(r, "CACHE")] + r.choice([[], ["STRING"], ["BOOL", '"doc"'], ["PATH", "d", "FORCE"],
                       ["PATH", "d", "force", "z"], ["PATH", "d", "z"], ["INTERNAL", "d", "z", "FORCE"], ["STRING", "d", "FORCE", "FORCE"],
                       ["STRING", "d", "FORCE", "a", "b"]]) + r.choice([[], [], [], ["CACHE", "STRING", "d"], ["PARENT_SCOPE"]]),
    "add_custom_target": lambda r: ["x"] + r.choice([[], ["ALL"], ["ALL", "cmd", "a"]]) + sum((r.sample(
        [["COMMENT", "c"], ["VERBATIM"], ["COMMAND", "a", "b"], ["COMMAND", "d"], ["DEPENDS", "x", "y"], ["DEPENDS", "z"], ["COMMENT", "d"], ["VERBATIM", "zz"],
         ["WORKING_DIRECTORY", "a", "b"], ["JOB_POOL", "a"], ["SOURCES", "s"]], r.choice([0, 1, 2, 3, 5]))), []),
    "add_custom_command": lambda r: r.choice([["OUTPUT", "o"], ["output", "o"], ["TARGET", "t", "POST_BUILD"], ["Target", "t"], ["COMMAND", "x"], ["${x}"], ["o"], ['"OUTPUT"', "x"]])
                          + sum(r.sample([["COMMENT", "c"], ["VERBATIM"], ["COMMAND", "a", "b"], ["COMMAND", "d"], ["DEPENDS", "x", "y"], ["DEPENDS", "z"], ["comment", "d"],
                                          ["WORKING_DIRECTORY", "a", "b"], ["command", "a"], ["BYPRODUCTS", "s"], ["MAIN_DEPENDENCY", "m"], ["IMPLICIT_DEPENDS", "C", "a", "CXX"]],
                                         r.choice([0, 1, 2, 3, 5])), []),
}


def work(job):
  seed, kind, name = job
  r = random.Random(seed)
  if kind == "user":
    return measure(c18.user_case(r))
  x = r.random()
  if name is None:
    name = r.choice(FORMS) if x < 0.45 else r.choice(c18.HEAVY) if x < 0.7 else r.choice(c18.BUILTIN)
  if name in SURE and r.random() < 0.5:
    args = SURE[name](r)
    if r.random() < 0.3:
      args = [c18.respell(r, a) if a.isupper() else a for a in args]
  else:
    args = c18.arguments(r, c18.DB[name], name)
  y = r.random()
  if y < 0.15:
    args = args[:r.choice([0, 1, 1, 2, 3])]
  elif y < 0.35:
    args = doubled(r, args)
  elif y < 0.5 and args:
    del args[r.randrange(len(args))]
  elif y < 0.57:
    args = [r.choice(["${x}", "FOO", '"READ"', "${x}y", "(", "[[SET]]", "-OUTPUT"])] + args[1:]
    if args[0] == "(":
      args.insert(r.randrange(1, len(args) + 1), ")")
  args = balanced(args)
  spell = name if r.random() < 0.8 else r.choice([name.upper(), gen.mixed(r, name)])
  return measure(dict(name=name, text=c18.wrap(name, c18.layout(r, spell, args)), user={}, over=[]))


def measure(rec):
  cfgd = {"parse": {"additional_commands": rec["user"], "override_spec": {c18.over_key(o): o["v"] for o in rec["over"]}}}
  val, err = core.guarded(lintlib.lint_text, cfgd, rec["text"])
  return dict(rec, err=err, msgs=val or [])


def to_case(rec):
  locs, after = places(rec["text"])
  toks = c18.tokens(rec["text"])
  for tok, loc in zip(toks, locs):
    tok["ln"], tok["col"] = loc
    del tok["s"], tok["cm"]
  last = tuple(locs[-1])
  rejected = rec["err"] is not None
  return dict(cmd=rec["name"], t=toks, after=after, err=int(rejected),
              msgs=[dict(id=m[0], ln=m[1], col=m[2], m=m[3]) for m in rec["msgs"] if m[0] in IDS and (m[1], m[2]) <= last],
              user=[dict(name=k.lower(), sp=core.cp(k), v=c18.tagged(v)) for k, v in rec["user"].items()],
              over=[dict(cmd=o["cmd"], path=o["path"], idx=o["idx"], attr=o["attr"], v=c18.tagged(o["v"])) for o in rec["over"]])


def commented(check):
  """the enumerated statements (all that have few arguments, some of the
  others) with comments among the arguments"""
  r = random.Random(check.seed)
  out = []
  for rec in c18.each(check):
    line = rec["text"].split("\n")[0]
    args = line[len(rec["name"]) + 1:-1].split(" ")
    if r.random() < (0.8 if len(args) < 4 else 0.25):
      text = r.choice(["", "", "# zero\n", "\n# zero\n\n"])
      for k, arg in enumerate(args):
        text += arg
        if k + 1 < len(args):
          text += r.choice([" ", " # one\n  ", "\n  # two\n  ", "\n  # two\n\n  # three\n  ", " #[[ four ]] ", "\n\n"])
      text += r.choice(["", "\n  # five\n", " # six\n", "\n\n  # seven\n\n  # eight\n"])
      out.append(dict(rec, text=rec["name"] + "(" + text + ")" + rec["text"][len(line):]))
  return out


def run(check):
  jobs = [(s, "builtin", None) for s in check.seeds(check.n(4000, 40000), "builtin")]
  jobs += [(s, "builtin", name) for name in c18.BUILTIN for s in check.seeds(check.n(2, 25), "each" + name)]
  jobs += [(s, "user", None) for s in check.seeds(check.n(2500, 15000), "user")]
  recs = core.pmap(work, jobs) + core.pmap(measure, c18.each(check)) + core.pmap(measure, commented(check))
  check.validate(SPEC, [to_case(r) for r in recs], recs)
  some = [r for r in recs if any(m[0] in IDS for m in r["msgs"])]
  for r in some[:3]:
    check.sample({k: r[k] for k in ("text", "msgs")})
  return check.finish(LEVEL, "statements of every built-in command and of commands with random specifications whose arguments are too few, too many, repeated or of no form; "
                      "non-trivial: at least one message about the arguments",
                      evaluations=len(recs), distinct=len(set((r["text"], json.dumps(r["user"])) for r in some)))


def replay(check, rec):
  rec = measure(rec)
  check.validate(SPEC, [to_case(rec)], [rec])
  print(rec["text"], json.dumps(rec["user"]), rec["over"], *rec["msgs"], rec["err"], sep="\n")
  return check.finish(LEVEL, "replay of one case")
