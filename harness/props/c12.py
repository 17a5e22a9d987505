"""C12: comment markup."""
import json
import random

import core
import fmt

SPEC = "Markup.tla"
LEVEL = "model_checking"
WORDS = ["a", "the", "of", "and", "word", "comment", "formatting", "x", "library", "http://example.com/some/very/long/path/that/does/not/fit/anywhere/at/all", "foo()", "é", "漢字", "1", "42.", "12",
         "*", "-", "i.e.", "(see", "above)", "\"quoted\"", "'s", "a/b", "#", "TODO", "NOTE(x):", "++", "---", "===", "~", "`code`", "end.", "\\n", "${x}", "[[x]]", "a-b-c", "1:", "3."]


def sentence(r, n=None):
  n = n or r.choice([1, 2, 3, 5, 9, 14, 25])
  out = ""
  for k in range(n):
    out += (r.choice([" "] * 12 + ["  ", "   ", "      "]) if k else "") + r.choice(WORDS)
  return out


def ruler(r, cfg):
  k = r.random()
  if k < 0.3:
    return r.choice("-=*+~#") * r.choice([3, 5, 6, 7, 9, 10, 20, 78, 90])
  if k < 0.5:
    return "#" * r.choice([1, 2, 3, 8, 9, 10, 11, 30, 79])
  a = r.choice(["---", "====", "***", "###", "-----", "~~~", "!!!", "+++++"])
  return a + r.choice([" ", ""]) + sentence(r, r.choice([1, 2, 4, 14])) + r.choice([" ", ""]) + r.choice([a, a[::-1], "---", ":::"])


def para(r):
  return [r.choice([" ", " ", " ", "", "  ", "   "]) + sentence(r) for _ in range(r.choice([1, 1, 2, 3]))]


def blist(r, depth=0, ind=None):
  ind = " " * r.choice([0, 1, 1, 1, 2, 3, 5]) if ind is None else ind
  kind = r.choice(["*", "-", "n", "n"])
  out = []
  n = r.choice([1, 2, 3, 5, 9, 10, 11, 12] if kind == "n" else [1, 2, 3, 4])
  width = r.choice([0, len(str(n))])
  start = r.choice([1, 1, 1, 0, 5, 98])
  punct = r.choice([".", ".", ":"])
  for k in range(n):
    label = kind if kind != "n" else str(start + (k if r.random() < 0.95 else 0)).rjust(width) + (punct if r.random() < 0.95 else r.choice(".:)"))
    out.append(ind + label + r.choice([" ", " ", " ", "  ", "   "]) + sentence(r, r.choice([1, 2, 4, 12])))
    while r.random() < 0.2:
      out.append(ind + r.choice(["  ", "   ", "", " ", "    "]) + r.choice(["", "", "12 ", "* ", "- ", "1. "]) + sentence(r, r.choice([1, 3, 6])))
    if r.random() < 0.12 and depth < 5:
      out.append("")
      out += blist(r, depth + 1, ind + r.choice(["  ", "  ", " ", "    ", ""]))
      if r.random() < 0.7:
        out.append("")
  return out


def fence(r, cfg):
  f = r.choice(cfg["fences"])
  body = []
  for _ in range(r.choice([0, 1, 2, 4])):
    body.append(r.choice(["", " ", "  ", "      "]) + r.choice([sentence(r, 3), "", "* x", "1. y", "-----------", "TODO(x): a", "   indented    text"]))
  out = [r.choice([" ", "", "  "]) + f + r.choice(["", "", " cmake", f])] + body
  if r.random() < 0.85:
    out.append(r.choice([" ", "", "  "]) + (f if r.random() < 0.8 else r.choice(cfg["fences"])) + r.choice(["", "", "", " tail text"]))
  return out


def body_lines(r, cfg):
  out = []
  for _ in range(r.choice([1, 1, 2, 3, 5])):
    k = r.random()
    if k < 0.3:
      out += para(r)
    elif k < 0.55:
      out += blist(r)
    elif k < 0.65:
      out.append(r.choice([" ", "", "  "]) + r.choice(["TODO(josh): ", "NOTE(x):", "FIX_ME(a b): ", "todo(x): ", "TODO: "]) + sentence(r))
    elif k < 0.8:
      out.append(r.choice([" ", "", " "]) + ruler(r, cfg))
    elif k < 0.9:
      out += fence(r, cfg)
    else:
      out += r.choice([[""], ["", ""], ["#"], [" Copyright someone  (c)"], [" nofmt   x"]])
    if r.random() < 0.6:
      out += [""] * r.choice([1, 1, 1, 2])
  return out


def comment(r, cfg, ind, prefix="#"):
  lines = body_lines(r, cfg)
  out = []
  for k, line in enumerate(lines):
    extra = r.choice([""] * 20 + ["#", "##"]) if prefix == "#" else ""
    text = (prefix + extra + line).rstrip() if r.random() < 0.9 else prefix + extra + line + "  "
    if prefix == "#":
      # neither a bracket comment nor an explicit trailing comment
      if text[1:2] in ("[", "<", ">"):
        text = "# " + text[1:]
      if "cmake-format" in text or "cmf:" in text:
        text = "#"
    out.append(" " * (ind if r.random() < 0.98 else ind + 1) + text)
  return "\n".join(out)


def config(r):
  m = {}
  f = {}
  o = dict(lw=80, bc="*", ec=".", first=0, lk=0, lt="", fch="`~", tf=1, rcs="", rn=3, et="#<", hm=10, canon=1, on=1)
  fences = ["~~~", "```", "~~~~~~", "`````"]

  def maybe(p):
    return r.random() < p
  if maybe(0.7):
    f["line_width"] = o["lw"] = r.choice([20, 30, 40, 50, 60, 72, 80, 100, 120])
  if maybe(0.3):
    m["bullet_char"] = o["bc"] = r.choice(["*", "-", "+"])
  if maybe(0.3):
    m["enum_char"] = o["ec"] = r.choice([".", ":", ")"])
  if maybe(0.2):
    m["first_comment_is_literal"] = True
    o["first"] = 1
  if maybe(0.2):
    o["lk"] = r.choice([1, 2])
    o["lt"] = r.choice([" Copyright", " nofmt", " *", " a"]) if o["lk"] == 1 else r.choice(["nofmt", "the", "TODO"])
    esc = o["lt"].replace("*", "\\*")
    m["literal_comment_pattern"] = esc if o["lk"] == 1 else ".*" + esc
  if maybe(0.15):
    o["fch"] = r.choice(["+", "!", "~"])
    m["fence_pattern"] = r"^\s*([%s]{3}[%s]*)(.*)$" % (o["fch"], o["fch"])
    o["tf"] = int("~" in o["fch"])
    fences = [o["fch"] * 3, o["fch"] * 5, "~~~"]
  if maybe(0.15):
    o["rcs"], o["rn"] = r.choice([("=-", 4), ("#", 5), ("*=", 3)])
    cls = "[%s]" % o["rcs"].replace("-", "\\-")
    m["ruler_pattern"] = r"^\s*%s{%d}.*%s{%d}$" % (cls, o["rn"], cls, o["rn"])
  if maybe(0.15):
    m["explicit_trailing_pattern"] = o["et"] = "#>"
  if maybe(0.25):
    m["hashruler_min_length"] = o["hm"] = r.choice([2, 3, 5, 20])
  if maybe(0.3):
    m["canonicalize_hashrulers"] = False
    o["canon"] = 0
  if maybe(0.06):
    m["enable_markup"] = False
    o["on"] = 0
  return {"format": f, "markup": m}, o, dict(fences=fences, et=o["et"])


def block(r, cfg, ind, depth):
  """statements and comments of a body"""
  pad = " " * (ind if r.random() < 0.9 else 0)
  out = []
  for _ in range(r.choice([1, 1, 2, 3])):
    k = r.random()
    if k < 0.55:
      out.append(comment(r, cfg, len(pad)))
      if r.random() < 0.6:
        out.append("" if r.random() < 0.5 else pad + "foo()")
    elif k < 0.7:
      stmt = pad + r.choice(["foo()", "set(x y)", "foo(a b cccccc)", "message(STATUS \"a message\")"])
      com = comment(r, cfg, len(stmt) + 1, r.choice(["#", "#", cfg["et"]])).lstrip(" ")
      out.append(stmt + " " + com)
      out.append("")
    elif k < 0.8:
      arg = pad + "foo(aaa"
      com = comment(r, cfg, len(arg) + 1, r.choice(["#", "#", cfg["et"]])).lstrip(" ")
      out.append("%s %s\n%s  bbb)" % (arg, com, pad))
    elif k < 0.87:
      out.append("%sfoo(\n%s\n%s  bbb)" % (pad, comment(r, cfg, len(pad) + 2), pad))
    elif k < 0.9:
      out.append(pad + "#[[ bracket  comment ]]")
    elif depth < 3:
      out.append(pad + "if(x)\n" + block(r, cfg, ind + 2, depth + 1) + ("\n" + pad + "else()\n" + block(r, cfg, ind + 2, depth + 1) if r.random() < 0.3 else "") + "\n" + pad + "endif()")
  return "\n".join(out)


def work(seed):
  r = random.Random(seed)
  cfgd, o, cfg = config(r)
  text = block(r, cfg, 0, 0) + "\n"
  if r.random() < 0.05:
    text = "#!/usr/bin/cmake   -P\n" + text
  if r.random() < 0.1:
    text = text.replace("\n", "\r\n")
  if r.random() < 0.05:
    text = "foo()\n" + text
  if r.random() < 0.05:
    text = "\ufeff" + text
  out, _valid, err = fmt.run_format(cfgd, text)
  return dict(text=text, cfg=cfgd, o=o, out=out, err=err)


def to_case(rec):
  o = dict(rec["o"])
  for k in ("bc", "ec", "lt", "fch", "rcs", "et"):
    o[k] = core.cp(o[k])
  return dict(x=core.cp(rec["text"].replace("\r\n", "\n")), y=core.cp(rec["out"].replace("\r\n", "\n")), o=o, err=core.cp((rec["err"] or "").encode("ascii", "replace").decode()))


def run(check):
  recs = core.pmap(work, check.seeds(check.n(3200, 20000)))
  check.validate(SPEC, [to_case(r) for r in recs], recs)
  for r in recs[:2]:
    check.sample({k: r[k] for k in ("text", "out")})
  return check.finish(LEVEL, "random comments (prose, nested lists, rulers, notes, fences) as blocks, trailing comments and between arguments x markup options x widths; "
                      "non-trivial: formatting changed a comment", evaluations=len(recs), distinct=len(set(r["text"] for r in recs if r["out"] != r["text"])))


def replay(check, rec):
  out, _valid, err = fmt.run_format(rec["cfg"], rec["text"])
  rec = dict(rec, out=out, err=err)
  check.validate(SPEC, [to_case(rec)], [rec])
  print(rec["text"], "-----", out, err, json.dumps(rec["cfg"]), sep="\n")
  return check.finish(LEVEL, "replay of one case")
