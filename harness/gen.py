"""Random listfile / configuration generator (inputs only: no oracle in here)."""
import gzip
import json
import os
import random

WORDS = ["alpha", "beta", "gamma", "delta", "foo", "bar", "baz", "qux", "src",
         "main.cc", "foo_bar", "a", "b", "Z", "util.h", "lib/x.cc", "x-y",
         "longish_identifier_name", "another/very/long/path/to/some/file.cpp",
         "1", "42", "-3", "3.14", "OFF_X", "MyTarget", "é_uni", "x=y", "-DFOO=1",
         "-Wall", "--flag", "a;b;c", "*.cc", "c++17", "x.y.z", "\\;", "a\\ b",
         "$<TARGET_FILE:foo>", "$<$<CONFIG:Debug>:-g>", "${VAR}", "${a_b}",
         "@AT@", "$ENV{HOME}", "${A}/${B}", "$(MAKE)", "-I\"x y\"", "a@b@c", "foo\\.bar", "\\(x", "\\ x", "a\\[b", "a[1]", "]"]
QUOTED = ['"hello"', '"two words"', '""', '"a;b"', '"esc \\" q"', '"re\\.gex \\( x"', '"${VAR} x"',
          '"multi\nline"', '"multi\n  line   \n x"', '"has # hash"', '"( paren"',
          '"c:\\\\"', '"tab\tx"', '"é"', '"a fairly long quoted string literal that takes room"']
BRACKET = ["[[raw]]", "[=[a ]] b]=]", "[[multi\n  raw # x\n]]", "[==[ ( ]==]", "[[]]"]
BCOMMENTS = ["#[[bc]]", "#[=[ multi\n line bc ]=]", "#[[ x ) ]]"]
COMMENT_WORDS = ["this", "is", "a", "comment", "with", "some", "words", "that",
                 "goes", "on", "TODO(x):", "http://example.com/a/b", "(paren)",
                 "\"quoted\"", "é", "x" * 30, "end.", "foo_bar(1)"]
KW_CMDS = {
    "set": ["CACHE", "PARENT_SCOPE", "STRING", "FORCE", "BOOL"],
    "list": ["APPEND", "REMOVE_ITEM", "LENGTH", "GET"],
    "add_library": ["STATIC", "SHARED", "EXCLUDE_FROM_ALL", "IMPORTED", "ALIAS", "INTERFACE"],
    "add_executable": ["WIN32", "MACOSX_BUNDLE", "EXCLUDE_FROM_ALL", "IMPORTED"],
    "target_link_libraries": ["PUBLIC", "PRIVATE", "INTERFACE"],
    "target_include_directories": ["PUBLIC", "PRIVATE", "SYSTEM", "BEFORE", "INTERFACE"],
    "target_sources": ["PUBLIC", "PRIVATE"],
    "target_compile_definitions": ["PUBLIC", "PRIVATE", "INTERFACE"],
    "add_custom_command": ["OUTPUT", "COMMAND", "DEPENDS", "WORKING_DIRECTORY", "COMMENT", "VERBATIM", "TARGET", "POST_BUILD", "ARGS"],
    "add_custom_target": ["ALL", "COMMAND", "DEPENDS", "COMMENT", "SOURCES"],
    "add_test": ["NAME", "COMMAND", "CONFIGURATIONS", "WORKING_DIRECTORY"],
    "install": ["TARGETS", "FILES", "DESTINATION", "RUNTIME", "LIBRARY", "ARCHIVE", "COMPONENT", "EXPORT", "DIRECTORY", "PROGRAMS", "OPTIONAL"],
    "message": ["STATUS", "FATAL_ERROR", "WARNING"],
    "file": ["GLOB", "WRITE", "READ", "COPY", "DESTINATION", "RELATIVE", "APPEND", "GLOB_RECURSE"],
    "find_package": ["REQUIRED", "COMPONENTS", "QUIET", "CONFIG"],
    "set_target_properties": ["PROPERTIES", "CXX_STANDARD", "FOLDER"],
    "set_property": ["TARGET", "PROPERTY", "APPEND", "DIRECTORY"],
    "get_filename_component": ["NAME_WE", "DIRECTORY", "CACHE"],
    "execute_process": ["COMMAND", "WORKING_DIRECTORY", "RESULT_VARIABLE", "OUTPUT_VARIABLE"],
    "configure_file": ["@ONLY", "COPYONLY"],
    "string": ["REGEX", "REPLACE", "TOUPPER", "MATCH"],
    "cmake_minimum_required": ["VERSION", "FATAL_ERROR"],
    "project": ["VERSION", "LANGUAGES"],
    "cmake_parse_arguments": [],
    "return": [], "include": ["OPTIONAL", "RESULT_VARIABLE"], "option": [],
    "add_subdirectory": ["EXCLUDE_FROM_ALL"],
    "foo": ["BAR", "BAZ", "HEADERS", "SOURCES", "DEPENDS"],
    "unknown_fn": ["KEY", "WORD"], "another_custom_function_name": [],
    "ExternalProject_Add": ["GIT_REPOSITORY", "GIT_TAG", "CMAKE_ARGS", "PREFIX"],
    "fetchcontent_declare": ["GIT_REPOSITORY", "GIT_TAG", "URL"],
    "break": [], "source_group": ["FILES", "TREE"], "export": [],
}
NEED_FIRST = ("set", "list", "option", "string", "add_library", "add_executable",
              "fetchcontent_declare", "ExternalProject_Add", "source_group",
              "project", "export")
# every command of the standard database that is not written out above
_ALL = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "cmds.json")))
MORE_CMDS = {k: (v or []) for k, v in _ALL.items() if k not in KW_CMDS}
COND = ["AND", "OR", "NOT", "DEFINED", "STREQUAL", "EXISTS", "MATCHES", "VERSION_LESS", "TARGET", "IN_LIST"]


# statements, conditions and comments of the modules that come with CMake
with gzip.open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "corpus.json.gz")) as _infile:
  CORPUS = json.loads(_infile.read().decode("ascii"))
# characters which some notion of whitespace or of line ends includes, but not that of CMake
ODD = ["a\x0cb", "a\x0bb", "a\u2028b", "a\x85b", "a\xa0b", "a\u3000b", "a\x1cb", "x\ufeff", "\U0001f600", "e\u0301"]

KW_LIST = sorted(KW_CMDS)
MORE_LIST = sorted(MORE_CMDS)


def mixed(r, word):
  """the word with some letters in upper case"""
  return "".join(r.choice([ch.lower(), ch.upper()]) for ch in word)


class Gen(object):
  """opts: dict of feature switches (see DEFAULTS)."""
  DEFAULTS = dict(comments=True, bracket=True, multiline=True, onoff=False,
                  atstmt=True, tags=False, tabs=True, crlf=False, flow=True,
                  trailing_comments=True, inner_comments=True, caps=True,
                  cmds=None, tidy=False, more=0.3, markup=True, unicode=True, max_items=8, endc=0.04, inner=0.07, words=14, parens=2,
                  corpus=0.15, odd=0.01)

  def __init__(self, rng, **opts):
    self.r = rng
    self.o = dict(self.DEFAULTS)
    self.o.update(opts)

  # --- lexical bits
  def ws(self):
    r = self.r
    x = r.random()
    if x < 0.6:
      return " "
    if x < 0.7:
      return "  "
    if x < 0.75 and self.o["tabs"]:
      return "\t"
    return "\n" * r.choice([1, 1, 1, 2, 3]) + " " * r.choice([0, 2, 4, 7])

  def corpus(self, kind):
    """An element of the corpus that the options allow, or None"""
    o = self.o
    if o["cmds"] is not None or self.r.random() >= o["corpus"]:
      return None
    s = self.r.choice(CORPUS[kind])
    if ((kind != "comments" and "#" in s and not (o["comments"] and o["inner_comments"]))
        or ("[" in s and not o["bracket"]) or ("\t" in s and not o["tabs"])
        or (kind == "comments" and not o["markup"])
        or ('"' in s and "\n" in s and not o["multiline"])):
      return None
    return s

  def arg(self):
    r = self.r
    x = r.random()
    if r.random() < self.o["odd"] and self.o["unicode"]:
      return r.choice(['"%s"', "[[%s]]" if self.o["bracket"] else '"%s"', '"${%s}"']) % r.choice(ODD)
    if x < 0.75:
      return r.choice(WORDS)
    if x < 0.92:
      q = r.choice(QUOTED)
      return q if self.o["multiline"] or "\n" not in q else '"q"'
    if self.o["bracket"]:
      q = r.choice(BRACKET)
      return q if self.o["multiline"] or "\n" not in q else '[[q]]'
    return r.choice(WORDS)

  def comment_text(self):
    r = self.r
    x = r.random()
    if not self.o["markup"] or x < 0.6:
      return " " * r.choice([0, 1, 1, 1, 3]) + " ".join(
          r.choice(COMMENT_WORDS) for _ in range(r.randint(0, self.o["words"])))
    return r.choice([
        " * item one two", " - item", "   * nested item", " 1. first", " 2) second",
        " 10. tenth item", " note: something here", "###########", "----------", " ==========",
        "##########################", " ~~~", " ~~~~", " ```", " .. foo", "", " ",
        "!tag", "  verbatim   spaced", " -*- x -*-", " [[x", "# double", " * ", "======= x ======",
        " NOTE(foo): hello world foo bar", " - a " + "long " * 20])

  def line_comment(self):
    out = "#" + self.comment_text().replace("\n", " ")
    if self.r.random() < self.o["odd"] and self.o["unicode"]:
      out += " " + self.r.choice(ODD)
    return out

  def offswitch(self):
    r = self.r
    return "#%s%s: off%s" % (r.choice(["", " ", "  "]), r.choice(["cmake-format", "cmf"]),
                             r.choice(["", "", "", " <x>", " # y", "  "]))

  def onswitch(self):
    r = self.r
    return "#%s%s: on%s" % (r.choice(["", " ", "  "]), r.choice(["cmake-format", "cmf"]),
                            r.choice(["", "", "", " <x>"]))

  def args(self, cmd, n=None, depth=0):
    r = self.r
    kws = KW_CMDS.get(cmd) or MORE_CMDS.get(cmd, [])
    out = []
    n = r.choice([0, 1, 2, 2, 3, 4, 6, 9]) if n is None else n
    parts = []
    for i in range(n):
      x = r.random()
      if kws and x < 0.35:
        k = r.choice(kws)
        if self.o["caps"] and r.random() < 0.1:
          k = k.lower()
        parts.append(k)
        if cmd in MORE_CMDS:
          # most of these keywords require an argument
          parts.append(self.arg())
      elif depth < self.o["parens"] and x < 0.04:
        parts.append(("(", self.args(cmd, r.randint(0, 3), depth + 1), ")"))
      else:
        parts.append(self.arg())
      if self.o["onoff"] == "mark" and r.random() < 0.05:
        parts.append(("lc", self.offswitch() + "\x02" + self.onswitch()))
      if self.o["comments"] and self.o["inner_comments"] and r.random() < self.o["inner"]:
        if self.o["bracket"] and r.random() < 0.3:
          c = r.choice(BCOMMENTS)
          parts.append(("bc", c))
        else:
          parts.append(("lc", self.line_comment()))
        while r.random() < 0.3:
          parts.append(("lc", self.line_comment()))
    if self.o["comments"] and self.o["inner_comments"] and r.random() < self.o["endc"]:
      for _ in range(r.choice([1, 1, 2, 3])):
        parts.append(("lc", self.line_comment()))
    return self.join(parts)

  def join(self, parts):
    out = ""
    cind = " " * self.r.choice([0, 2, 4])
    for i, p in enumerate(parts):
      if isinstance(p, tuple) and p[0] == "lc" and self.r.random() < 0.5:
        # a comment of its own, at the same column as the one before
        if not out.rstrip(" \t").endswith("\n"):
          out += "\n"
        out = out.rstrip(" \t") + cind + p[1] + "\n" + cind
        continue
      if i and not (out.rstrip(" ").endswith("\n")):
        out += self.ws()
      elif i == 0 and self.r.random() < 0.2:
        out += self.ws()
      if isinstance(p, tuple):
        if p[0] == "(":
          out += "(" + p[1] + ")"
        elif p[0] == "lc":
          out += p[1] + "\n" + " " * self.r.choice([0, 2])
        else:
          out += p[1]
      else:
        out += p
    if self.r.random() < 0.2:
      out += self.ws()
    return out

  def name(self, n):
    if self.o["caps"] and self.r.random() < 0.12:
      return self.r.choice([n.upper(), n.title(), n.capitalize(), mixed(self.r, n)])
    return n

  def stmt(self, cmd=None):
    r = self.r
    given = None if cmd else self.corpus("stmts")
    if given:
      return given
    cmd = cmd or r.choice(self.o["cmds"] or (MORE_LIST if r.random() < self.o["more"] else KW_LIST))
    sp = r.choice(["", "", "", " ", "  "])
    body = self.args(cmd)
    if cmd in ("list", "option", "string", "add_library",
               "add_executable") and r.random() < 0.1:
      pass
    elif cmd in MORE_CMDS:
      body = "nm x1" + (" " + body if body else "")
    elif cmd in NEED_FIRST or cmd.startswith("target_") or r.random() < 0.3:
      # most commands require a leading positional argument
      body = r.choice(["tgt", "VAR_x", "nm", "${PROJ}", '"quoted name"']) + (
          " " + body if body else "")
    if cmd == "export":
      body = "TARGETS " + body
    return self.name(cmd) + sp + "(" + body + ")"

  def cond(self):
    return self.corpus("conds") or self.join(self.cond_parts(0))

  def cond_parts(self, depth):
    r = self.r
    parts = []
    for i in range(r.randint(1, 5) if depth == 0 else r.randint(0, 3)):
      x = r.random()
      if x < 0.35:
        parts.append(r.choice(COND))
      elif x < 0.45 and depth < self.o["parens"]:
        parts.append(("(", self.join(self.cond_parts(depth + 1)), ")"))
      else:
        parts.append(self.arg())
      if self.o["comments"] and self.o["inner_comments"] and r.random() < self.o["inner"]:
        for _ in range(r.choice([1, 1, 1, 2])):
          parts.append(("lc", self.line_comment()))
    return parts

  def indent(self, d):
    r = self.r
    return r.choice(["", "  " * d, " " * r.randint(0, 6), "\t" if self.o["tabs"] else " "])

  def eol(self, stmt=False):
    r = self.r
    out = ""
    if stmt and self.o["comments"] and self.o["trailing_comments"] and r.random() < 0.15:
      out += r.choice(["", " ", "  "]) + r.choice([self.line_comment(), "#< " + self.comment_text().strip()])
    elif r.random() < 0.05:
      out += "  "
    return out + "\n" * r.choice([1, 1, 1, 1, 2, 3, 5])

  def items(self, depth=0, n=None):
    r = self.r
    out = ""
    n = r.randint(1, self.o["max_items"]) if n is None else n
    for _ in range(n):
      x = r.random()
      ind = self.indent(depth)
      if self.o["comments"] and x < 0.15:
        if self.o["tidy"] and out and not out.endswith("\n\n"):
          out += "\n"
        given = self.corpus("comments")
        if given:
          out += "".join(ind + line + "\n" for line in given.split("\n"))
        else:
          for _ in range(r.randint(1, 4)):
            out += ind + self.line_comment() + "\n"
        if self.o["tidy"] or r.random() < 0.4:
          out += "\n"
      elif self.o["comments"] and self.o["bracket"] and x < 0.18:
        out += ind + r.choice(BCOMMENTS) + "\n"
      elif self.o["atstmt"] and x < 0.20:
        out += ind + "@ATSTMT@" + self.eol()
      elif self.o["onoff"] == "mark" and x < 0.32:
        out += ind + self.offswitch() + "\x01" + self.onswitch() + self.eol()
      elif self.o["onoff"] and x < 0.30:
        k = r.choice(["cmake-format", "cmf"])
        out += ind + "# %s: off\n" % k
        for _ in range(r.randint(0, 3)):
          out += self.indent(depth) + self.stmt() + self.eol(True)
        out += self.indent(depth) + "# %s: on\n" % k
      elif self.o["flow"] and depth < 3 and x < 0.45:
        out += self.flow(depth)
      else:
        out += ind + self.stmt() + self.eol(True)
    return out

  def flow(self, depth):
    r = self.r
    k = r.choice(["if", "foreach", "while", "function", "macro"])
    ind = self.indent(depth)
    nm = self.name
    if k == "if":
      out = ind + nm("if") + r.choice(["", " "]) + "(" + self.cond() + ")" + self.eol(True)
      out += self.items(depth + 1, r.randint(0, 2))
      for _ in range(r.choice([0, 0, 1])):
        out += ind + nm("elseif") + "(" + self.cond() + ")" + self.eol(True)
        out += self.items(depth + 1, r.randint(0, 2))
      if r.random() < 0.4:
        out += ind + nm("else") + "()" + self.eol(True)
        out += self.items(depth + 1, r.randint(0, 2))
      out += ind + nm("endif") + "(" + r.choice(["", "", "FOO"]) + ")" + self.eol(True)
      return out
    if k == "foreach":
      head = "x " + r.choice(["a b c", "RANGE 10", "IN LISTS foo bar", "IN ITEMS a b", "RANGE 1 10 2"])
    elif k == "while":
      head = self.cond()
    else:
      head = "myfun" + r.choice(["", " arg1", " arg1 arg2"])
    out = ind + nm(k) + r.choice(["", " "]) + "(" + head + ")" + self.eol(True)
    out += self.items(depth + 1, r.randint(0, 3))
    out += ind + nm("end" + k) + "()" + self.eol(True)
    return out

  def file(self):
    s = self.items()
    r = self.r
    if r.random() < 0.1:
      s = s.rstrip("\n")
    if r.random() < 0.1:
      s = "\n" * r.randint(1, 3) + s
    if not self.o["unicode"]:
      s = s.encode("ascii", "replace").decode().replace("?", "u")
    if self.o["crlf"]:
      s = s.replace("\n", "\r\n")
    return s


def format_cfg(r):
  """random values for the format section of the configuration"""
  c = {}
  def maybe(k, vals, p=0.35):
    if r.random() < p:
      c[k] = r.choice(vals)
  maybe("line_width", [20, 30, 40, 60, 80, 100, 120])
  maybe("tab_size", [1, 2, 3, 4, 8])
  maybe("max_subgroups_hwrap", [0, 1, 2, 3, 5])
  maybe("max_pargs_hwrap", [1, 2, 4, 6, 10])
  maybe("max_rows_cmdline", [1, 2, 3])
  maybe("separate_ctrl_name_with_space", [True, False])
  maybe("separate_fn_name_with_space", [True, False])
  maybe("dangle_parens", [True, False], 0.5)
  maybe("dangle_align", ["prefix", "prefix-indent", "child"])
  maybe("min_prefix_chars", [2, 4, 8])
  maybe("max_prefix_chars", [2, 6, 10, 20])
  maybe("max_lines_hwrap", [1, 2, 3, 5])
  maybe("command_case", ["lower", "upper", "canonical", "unchanged"])
  maybe("keyword_case", ["lower", "upper", "unchanged"])
  maybe("always_wrap", [["set"], ["foo", "message"]], 0.15)
  maybe("enable_sort", [True, False])
  maybe("autosort", [True, False], 0.4)
  return c


def markup_cfg(r):
  c = {}
  def maybe(k, vals, p=0.2):
    if r.random() < p:
      c[k] = r.choice(vals)
  maybe("bullet_char", ["*", "-", "+"])
  maybe("enum_char", [".", ")", ":"])
  maybe("first_comment_is_literal", [True])
  maybe("hashruler_min_length", [3, 10, 20])
  maybe("canonicalize_hashrulers", [False])
  maybe("enable_markup", [False], 0.15)
  return c
