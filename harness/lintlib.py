"""Running the linter under test on generated listfiles (C20, C21, C22, C27)."""
import copy
import random
import re

import core
import gen
from cmakelang import configuration
from cmakelang.lint import __main__ as lm
from cmakelang.lint import lint_util

SPEC = "LintChecks.tla"
LAYOUT = ["C0301", "C0303", "C0304", "C0305", "C0306", "C0321", "C0327"]
NAMES = ["C0103", "C0111", "C0112", "C0202", "E0108", "E0109"]
HINTS = ["C0201", "C0307", "W0105", "W0106"]
FLOW = ["E0103", "R0911", "R0912", "R0913", "R0915", "W0101"]

UP, LO, DI, US = (65, 90), (97, 122), (48, 57), (95, 95)


def it(ranges, mn=1, mx=1):
  return dict(r=[list(x) for x in ranges], mn=mn, mx=mx)


def pat(text, *alts):
  re.compile(text)
  return dict(text=text, alts=list(alts))


END = it([], -1, 0)
PATTERNS = [
    pat("[A-Z][0-9A-Z_]+", [it([UP]), it([DI, UP, US], 1, 0)]),
    pat("_[A-Z][0-9A-Z_]+", [it([US]), it([UP]), it([DI, UP, US], 1, 0)]),
    pat("[a-z][a-z0-9_]+", [it([LO]), it([LO, DI, US], 1, 0)]),
    pat("_[0-9a-z_]+", [it([US]), it([DI, LO, US], 1, 0)]),
    pat("[0-9a-z_]+", [it([DI, LO, US], 1, 0)]),
    pat("[0-9A-Z_]+", [it([DI, UP, US], 1, 0)]),
    pat("[a-z]+$", [it([LO], 1, 0), END]),
    pat("g_[a-z0-9]*$", [it([(103, 103)]), it([US]), it([LO, DI], 0, 0), END]),
    pat("[A-Z][a-z]{1,3}$|[a-z]$", [it([UP]), it([LO], 1, 3), END], [it([LO]), END]),
    pat("[a-z_]{2,}[A-Z]?$", [it([LO, US], 2, 0), it([UP], 0, 1), END]),
    pat("[A-Za-z]+_?[0-9]+$|_.*", [it([UP, LO], 1, 0), it([US], 0, 1), it([DI], 1, 0), END], [it([US])]),
]
DEFAULTS = dict(function=4, macro=5, argument=2, **{"global": 0}, internal=1, local=2, private=3, public=0)
FIELDS = dict(function="function_pattern", macro="macro_pattern", argument="argument_var_pattern",
              internal="internal_var_pattern", local="local_var_pattern", private="private_var_pattern",
              public="public_var_pattern", **{"global": "global_var_pattern"})


def lint_text(cfgd, text):
  cfg = configuration.Configuration(**copy.deepcopy(cfgd))
  ctx = lint_util.GlobalContext(None).get_file_ctx("x.cmake", cfg)
  lm.process_file(cfg, ctx, text)
  out = []
  for rec in ctx.get_lint():
    loc = list(rec.location or [])[:2]
    out.append([rec.spec.idstr, loc[0] if loc else -1, loc[1] if len(loc) > 1 else -1, rec.msg])
  return out


def make_cfg(opts):
  """configuration dictionary from the options of a case"""
  return {"format": dict(line_width=opts["width"], line_ending=opts["ending"], use_tabchars=opts["tabs"],
                         fractional_tab_policy=opts["policy"], tab_size=opts["tab"]),
          "lint": dict([("max_statement_spacing", opts["max"]), ("min_statement_spacing", opts["min"]),
                        ("max_returns", opts["maxret"]), ("max_branches", opts["maxbr"]),
                        ("max_arguments", opts["maxarg"]), ("max_statements", opts["maxst"]),
                        ("max_conditionals_custom_parser", opts["maxcond"])]
                       + [(FIELDS[k], PATTERNS[v]["text"]) for k, v in opts["pat"].items()])}


def gen_opts(r, limits=False, names=False, layout=False):
  opts = dict(width=80, ending="unix", tabs=False, policy="use-space", min=1, max=2, maxret=6, maxbr=12, maxarg=5,
              maxst=50, tab=2, maxcond=2, pat=dict(DEFAULTS))
  if layout:
    opts.update(width=r.choice([10, 20, 40, 60, 80, 80, 120]), ending=r.choice(["unix", "unix", "windows", "auto"]),
                tabs=r.random() < 0.5, policy=r.choice(["use-space", "round-up"]), min=r.choice([1, 1, 1, 2, 3]),
                max=r.choice([1, 2, 2, 3, 4]))
  if limits:
    opts.update(maxret=r.choice([0, 1, 2, 6]), maxbr=r.choice([0, 1, 2, 3, 12]), maxarg=r.choice([0, 1, 2, 5]),
                maxst=r.choice([0, 1, 3, 5, 8, 50]))
  if names:
    for k in opts["pat"]:
      if r.random() < 0.3:
        opts["pat"][k] = r.randrange(len(PATTERNS))
  return opts


def hint_opts(r):
  opts = gen_opts(r)
  opts.update(tab=r.choice([1, 2, 2, 3, 4, 8]), maxcond=r.choice([0, 1, 2, 2, 3]))
  return opts


def measure(rec):
  val, err = core.guarded(lint_text, make_cfg(rec["opts"]), rec["text"])
  return dict(rec, err=err, msgs=val or [])


def to_case(rec, ids):
  o = rec["opts"]
  cfg = {k: v for k, v in o.items() if k != "pat"}
  cfg["pat"] = {k: dict(text=core.cp(PATTERNS[v]["text"]), alts=PATTERNS[v]["alts"]) for k, v in o["pat"].items()}
  return dict(x=core.cp(rec["text"]), ids=ids, cfg=cfg,
              msgs=[dict(id=m[0], ln=m[1], col=m[2], m=[] if m[0] == "C0307" else core.cp(m[3])) for m in rec["msgs"] if m[0] in ids])


def validate(check, recs, ids):
  good = []
  for rec in recs:
    if rec["err"] is None:
      good.append(rec)
    elif rec["err"].startswith(("UserError", "InternalError")):
      check.counts["not-parsed"] += 1
    else:
      # the linter fails on a listfile: it reports nothing
      if rec.get("may_fail"):
        check.counts["not-parsed"] += 1
      else:
        check.counts["crashed"] += 1
        check.fail("crashed", rec, extra=rec["err"])
  check.validate(SPEC, [to_case(r, ids) for r in good], good)
  for rec in [r for r in good if any(m[0] in ids for m in r["msgs"])][:2]:
    check.sample(dict(text=rec["text"], opts=rec["opts"], msgs=[m for m in rec["msgs"] if m[0] in ids]))
  return sum(1 for r in good if any(m[0] in ids for m in r["msgs"]))


# ------------------------------------------------------------------ generators
VARS = ["foo", "FOO", "Foo", "_foo", "_FOO", "_Foo", "fooBar", "f", "F", "_", "foo1", "FOO_BAR", "1x", "x-y", "${foo}", "${a}_bar",
        "x_${b}", "${a}${b}", "g_x", "Abc", "abcD", "A${x}b", "${a.b/c}X", '"quoted"', "é", "foo_", "${un", "$x", "_x1", "ab1",
        "${a_${b}}", "${${a}}", "x_${A_${b}_c}", "${a${b}${c}}D", "_${${${a}}}x", "${a_${b}",
        "\\${a}b", "A\\\\${x}B"]
ARGS = ["a", "aa", "ab", "AB", "Ab", "a1", "foo", "FOO", "_x", "x_", "bar", "Bar", "1", '"q"', "a.b", "${x}", "ok", "name", "ARGN"]
FUNS = ["foo", "FOO", "Foo", "do_it", "DO_IT", "_x", "doIt", "x1", "${p}_f", "a", "A"]


class LintGen(object):
  def __init__(self, r, depth=3, comments=True, names=False, jumps=False, size=4):
    self.r = r
    self.depth = depth
    self.comments = comments
    self.names = names
    self.jumps = jumps
    self.size = size

  def case(self, name):
    r = self.r
    return name if r.random() < 0.8 else r.choice([name.upper(), name.title(), gen.mixed(r, name)])

  def sep(self):
    r = self.r
    x = r.random()
    if x < 0.85:
      return " "
    if x < 0.97 or not self.comments:
      return "\n    "
    return " # c\n  "

  def args(self, words):
    out = ""
    for k, w in enumerate(words):
      out += (self.sep() if k else "") + w
    return out

  def trail(self):
    r = self.r
    if self.comments and r.random() < 0.12:
      if r.random() < 0.2:
        return r.choice([" ", ""]) + r.choice(["#[[x]]", "#[[a\nb]]"]) + "\n"
      return r.choice([" # c\n", "  # c\n  # d\n", " # c\n # d\n", "# x\n"])
    return "\n" * r.choice([1, 1, 1, 2, 3])

  def stmt(self):
    r = self.r
    x = r.random()
    v = r.choice(VARS)
    if self.jumps and x < 0.35:
      return self.case(r.choice(["return", "break", "continue", "return"])) + "()"
    if self.names and x < 0.75:
      k = r.randrange(9)
      a = self.args
      if k <= 1:
        return self.case("set") + "(" + a([v, r.choice(["x", "1", '"y z"'])]) + ")"
      if k == 2:
        return "set(" + a([v, "x", r.choice(["CACHE", "cache"]), r.choice(["STRING", "BOOL", "INTERNAL", "internal", "Internal"]), '"doc"'] + r.choice([[], ["FORCE"]])) + ")"
      if k == 3:
        return "set(" + a([v, "x", "PARENT_SCOPE"]) + ")"
      if k == 4:
        return "set(" + a([v] + r.choice([[], ["PARENT_SCOPE"], ["parent_scope"]])) + ")"
      if k == 5:
        return self.case("list") + "(" + a(r.choice([["LENGTH", "lst", v], ["length", "lst", v], ["GET", "lst", "0", v], ["GET", "lst", "0", "1", "2", v],
                                           ["JOIN", "lst", "x", v], ["SUBLIST", "lst", "0", "1", v], ["SUBLIST", "lst", "0", v]])) + ")"
      if k == 6:
        return "list(" + a(r.choice([["APPEND", v, "a"], ["FIND", "lst", "a", v], ["SORT", v], ["REVERSE", v]])) + ")"
      return "set(" + a([v, "a", "b"]) + ")"
    return self.case(r.choice(["message", "foo", "bar", "string_x", "if_x"])) + "(" + self.args([r.choice(["a", "b", '"c d"', "(x)"]) for _ in range(r.choice([0, 1, 2]))]) + ")"

  def doc(self):
    r = self.r
    x = r.random()
    if not self.comments or x < 0.35:
      return ""
    return r.choice(["# doc\n", "# doc\n", "#\n", "#\n# doc\n", "# doc\n#\n", "##\n", "# doc\n\n", "#[[ doc ]]\n", "#[[  ]]\n", "#\n  # doc\n",
                     "##########\n", "#####\n", "  # doc\n#\n", "#[=[\n]=]\n", "# \n", "  # doc\n  # x\n"])

  def items(self, d):
    r = self.r
    out = ""
    for _ in range(r.choice([0, 1, 2, self.size])):
      x = r.random()
      ind = r.choice(["", "  " * d])
      if self.comments and x < 0.15:
        out += ind + r.choice(["# hello\n", "# a\n# b\n", "#[[x]]\n", "# a\n\n"])
      elif d < self.depth and x < 0.5:
        out += self.block(d, ind)
      else:
        out += ind + self.stmt() + self.trail()
    return out

  def block(self, d, ind):
    r = self.r
    k = r.choice(["if", "foreach", "while", "function", "macro", "function", "if"])
    if k in ("function", "macro"):
      n = r.choice([0, 1, 2, 2, 3, 6])
      words = [r.choice(FUNS)] + [r.choice(ARGS) for _ in range(n)]
      out = self.doc() + ind + self.case(k) + "(" + self.args(words) + ")" + self.trail()
    elif k == "foreach":
      out = ind + self.case(k) + "(" + self.args([r.choice(VARS), r.choice(["a b", "IN LISTS x", "RANGE 3"])]) + ")" + self.trail()
    else:
      out = ind + self.case(k) + "(" + r.choice(["a", "NOT b", "a AND (b OR c)"]) + ")" + self.trail()
    out += self.items(d + 1)
    if k == "if":
      for _ in range(r.choice([0, 0, 1, 2])):
        out += ind + self.case("elseif") + "(b)" + self.trail() + self.items(d + 1)
      if r.random() < 0.4:
        out += ind + self.case("else") + "()" + self.trail() + self.items(d + 1)
    out += ind + self.case("end" + k) + "()" + self.trail()
    return out

  def file(self):
    out = self.items(0)
    while not out.strip():
      out = self.items(0) + self.stmt() + "\n"
    return out


BUILTIN = ["CMAKE_CXX_STANDARD", "WIN32", "UNIX", "ENV", "APPLE", "MSVC", "CMAKE_INSTALL_PREFIX", "BUILD_SHARED_LIBS", "CMAKE_MODULE_PATH", "PROJECT_NAME",
           "CMAKE_BUILD_TYPE", "GHS-MULTI", "MSVC10", "CMAKE_VERSION", "CTEST_SITE", "CMAKE_SOURCE_DIR", "XCODE", "CMAKE_ARGC"]
PARTS = ["x_VERSION", "foo_SOURCE_DIR", "CMAKE_CXX_FLAGS", "CMAKE_C_COMPILER", "CMAKE_MATCH_1", "a_BINARY_DIR", "CMAKE_Fortran_FLAGS_INIT"]
OTHERS = ["FOO", "foo", "ENVIRONMENT", "WIN32_LIBS", "MY_UNIX", "env_x", "ARGN", "x", "UNIX2", "unixes", "CMAKE_CXX_STANDARD_X"]


def near(r):
  """the name of a built-in variable, or nearly"""
  x = r.random()
  if x < 0.3:
    return r.choice(OTHERS)
  name = r.choice(BUILTIN if x < 0.85 else PARTS)
  x = r.random()
  return name if x < 0.4 else name.lower() if x < 0.65 else name.title() if x < 0.8 else gen.mixed(r, name)


def reference(r, depth=0):
  """text with something like references to variables"""
  name = near(r)
  x = r.random()
  if x < 0.35:
    return "${%s}" % name
  if x < 0.45:
    return "$ENV{%s}" % name
  if x < 0.5 and depth < 2:
    return "${%s%s}" % (r.choice(["", "a_", "A"]), reference(r, depth + 1))
  return r.choice(["$%s", "{%s", "{%s}", "${%s", "$%s}", "\\${%s}", "\\$%s", "\\\\${%s}", "$$%s", "${{%s}", "\\{%s}", "%s", "$%s/x", "${%s/x", "$-%s", "%s}", "\\\\$%s",
                   "\\${%s", "${ %s}", "$${a}%s"]) % name


class HintGen(LintGen):
  """listfiles of indented statements, (near) references and loops over the arguments"""

  def __init__(self, r, tab, **kw):
    super(HintGen, self).__init__(r, **kw)
    self.tab = tab
    self.pad = ""
    self.sloppy = r.choice([0, 0.05, 0.3])
    self.loops = []
    self.plain = r.random() < 0.4

  def indent(self, d):
    r = self.r
    n = d * self.tab
    x = r.random()
    if x < self.sloppy:
      n = r.choice([0, n - 1, n + 1, n + self.tab, n - self.tab, n * 2])
    n = max(n, 0)
    if r.random() < self.sloppy and n:
      k = r.randint(0, n // self.tab)
      return r.choice(["\t" * k + " " * (n - k * self.tab), " " * (n - k * self.tab) + "\t" * k, " " * k + "\t"])
    return " " * n

  def arg(self):
    r = self.r
    if self.plain or r.random() < 0.3:
      return r.choice(["a", "b", "FOO", '"c d"', "1", "[[x]]", '"a\n   b"', "[=[\n  x\n   ]=]"])
    out = "".join(r.choice([reference(r), r.choice(["a", "/", "-", "=", ".", "x"])]) for _ in range(r.choice([1, 1, 2, 3])))
    x = r.random()
    if '"' in out or "{ " in out or x < 0.4:
      return '"%s"' % r.choice([out, out, out + " " + reference(r), out + "\n  " + reference(r)])
    if x < 0.5:
      return "[[%s]]" % out
    return out

  def gap(self, d):
    r = self.r
    x = r.random()
    if x < 0.7:
      return " "
    pad = self.indent(d + 1)
    return r.choice(["\n", "\n", " # c\n", "\n%s# c\n" % self.indent(d), "\n\n", " \n  \n", " #[[c]] \n", " # c\n%s# d\n" % self.indent(d + 2)]) + pad

  def call(self, name, words, d):
    r = self.r
    out = self.case(name) + r.choice(["(", "(", "( ", "(\n" + self.indent(d + 1)])
    for k, w in enumerate(words):
      out += (self.gap(d) if k else "") + w
    return out + r.choice([")", ")", ")", " )", "\n%s)" % self.indent(d), "\n%s# c\n%s)" % (self.indent(d + 1), self.indent(d))])

  def end(self, d):
    """what comes behind a statement"""
    r = self.r
    x = r.random()
    if x < 0.8:
      return "\n" * r.choice([1, 1, 1, 2])
    if x < 0.9:
      return r.choice([" # c\n", "  # c\n    # d\n", " # c\n" + self.indent(d + 1) + "# d\n", " #[[c]]\n"])
    return r.choice(["\n   \n", " \n", "\n\t\n", "\n" + self.indent(d + 1) + "# c\n"])

  def simple(self, d):
    r = self.r
    x = r.random()
    if x < 0.3:
      name = near(r) if not self.plain else r.choice(["FOO", "x"])
      words = [name if r.random() < 0.9 else reference(r)] + [self.arg() for _ in range(r.choice([0, 1, 2]))] + r.choice([[], [], ["PARENT_SCOPE"], ["CACHE", "STRING", '"x"']])
      return self.call("set", words, d)
    if x < 0.45:
      return self.call("list", [r.choice(["APPEND", "append", "LENGTH", "REMOVE_ITEM", "GET", "FIND", "SORT", "INSERT"]), near(r)] + [self.arg() for _ in range(r.choice([0, 1, 2]))], d)
    if x < 0.5:
      return self.call("cmake_parse_arguments", ["x", '""', '""', '""', "${ARGN}"], d)
    return self.call(r.choice(["message", "foo", "add_library", "target_link_libraries", "install_x", "return", "include"]), [self.arg() for _ in range(r.choice([0, 1, 2, 3]))], d)

  def cond(self):
    r = self.r
    v = r.choice(self.loops) if self.loops and r.random() < 0.8 else r.choice(["a", "arg", "FOO", "x"])
    one = r.choice(["%s STREQUAL y", "%s STREQUAL y", "%s MATCHES z", "%s MATCHES z", "%s EQUAL 1", "NOT %s STREQUAL y", "%s", "%s strequal y", "y STREQUAL %s", '"%s" STREQUAL y', "DEFINED %s"]) % v
    if r.random() < 0.15:
      one = r.choice(['"%s" STREQUAL x', "%s"]) % reference(r).replace("{ ", "{") if not self.plain else one
    x = r.random()
    if x < 0.2:
      one += r.choice([" AND ", " OR ", " and "]) + self.cond()
    elif x < 0.3:
      one = "(%s)%s" % (one, r.choice(["", " OR " + self.cond()]))
    elif x < 0.35:
      one = "NOT (%s)" % one
    return one

  def items(self, d, n=None):
    r = self.r
    out = ""
    for _ in range(n or r.choice([0, 1, 2, self.size])):
      x = r.random()
      if x < 0.12:
        out += self.indent(d) + r.choice(["# hello", "# a\n" + self.indent(d) + "# b", "#[[x]]", "#[[x\n   y\n ]]", "# a\n"]) + "\n"
      elif d < self.depth and x < 0.55:
        out += self.block(d, None)
      else:
        out += self.indent(d) + self.simple(d) + self.end(d)
    return out

  def block(self, d, ind):
    r = self.r
    k = r.choice(["if", "if", "foreach", "foreach", "while", "function", "macro"])
    loop = None
    if k in ("function", "macro"):
      out = self.indent(d) + self.call(k, [r.choice(["foo", "bar"])] + r.sample(["a", "b", "c"], r.randint(0, 2)), d)
    elif k == "foreach":
      loop = r.choice(["arg", "a", "x"])
      out = self.indent(d) + self.call(k, [loop] + r.choice([["${ARGN}"], ["${ARGN}"], ["${ARGN}", "y"], ["IN", "LISTS", "ARGN"], ["IN", "ITEMS", "${ARGN}"], ["y", "z"], ["x${ARGN}"], ['"${ARGN}"'], ["${argn}"]]), d)
    else:
      out = self.indent(d) + self.call(k, [r.choice([self.cond(), self.cond(), "${ARGN}", "arg IN_LIST ${ARGN}"]) if k == "while" else self.cond()], d)
    out += self.end(d)
    if loop:
      self.loops.append(loop)
    # a loop with many comparisons
    if loop and r.random() < 0.6:
      for _ in range(r.randint(1, 3)):
        out += self.indent(d + 1) + self.call("if", [self.cond()], d + 1) + "\n" + self.items(d + 2, 1)
        if r.random() < 0.4:
          out += self.indent(d + 1) + self.call("elseif", [self.cond()], d + 1) + "\n"
        out += self.indent(d + 1) + self.call("endif", r.choice([[], [], [self.cond()]]), d + 1) + self.end(d + 1)
    else:
      out += self.items(d + 1)
    if k == "if":
      for _ in range(r.choice([0, 0, 1])):
        out += self.indent(d) + self.call("elseif", [self.cond()], d) + self.end(d) + self.items(d + 1)
      if r.random() < 0.4:
        out += self.indent(d) + self.call("else", r.choice([[], [], [self.cond()]]), d) + self.end(d) + self.items(d + 1)
    if loop:
      self.loops.pop()
    out += self.indent(d) + self.call("end" + k, [self.cond()] if k in ("while", "if") and r.random() < 0.15 else [], d) + self.end(d)
    return out

  def file(self):
    out = self.items(0, 3)
    return out if out.strip() else "foo()\n"
