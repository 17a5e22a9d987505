"""Write specs/cmddb.json: the grammar of every built-in command (run once on
the pinned tree; the file is part of the specification and is not regenerated
by the checks). The forms which are not plain declarations (set, foreach,
add_library, ...) are written by hand here and in Grouping.tla."""
import json
import os
import sys

import core

from cmakelang import lex
from cmakelang.parse import funs
from cmakelang.parse import argument_nodes as an
from cmakelang.parse import additional_nodes as dn
from cmakelang.parse.util import PositionalSpec, normalize_keyword

capture = []


def nargs(n):
  if isinstance(n, int):
    return [n, 1]
  if n == "?":
    return [1, 0]
  if n in ("*", "+") or n.endswith("+"):
    return [-1, 0]
  return [int(n), 0]


def least(n):
  """the least number of arguments"""
  if isinstance(n, int):
    return n
  return 0 if n in "?*" else 1 if n == "+" else int(n.rstrip("+"))


def pspec(p):
  n, x = nargs(p.nargs)
  return {"n": n, "x": x, "mn": least(p.nargs), "f": sorted(p.flags), "leg": int(bool(p.legacy)), "so": int(bool(p.sortable))}


def std(pargs, kwargs):
  return {"t": "std", "p": [pspec(p) for p in pargs], "kw": [{"k": k, "u": k.upper(), "s": node(v)} for k, v in sorted(kwargs.items())]}


def old(npargs, kwargs, flags):
  if isinstance(npargs, (int, str)):
    pargs = [PositionalSpec(npargs, flags=flags, legacy=True)]
  else:
    pargs = npargs
  return std(pargs, kwargs)


def fake_parse(cls, ctx, tokens, npargs, kwargs, flags, breakstack):
  n = old(npargs, kwargs, flags)
  capture.append(n)
  return an.StandardArgTree()


def fake_parse2(cls, ctx, tokens, cmdspec, kwargs, breakstack):
  capture.append(std(cmdspec.pargs, kwargs))
  return an.StandardArgTree()


def fake_node(kind):
  def fun(cls, *args, **kwargs):
    raise RuntimeError("special " + kind)
  return classmethod(fun)


class Lint(object):
  def record_lint(self, *args, **kwargs):
    pass


class Ctx(object):
  lint_ctx = Lint()
  argstack = []


def toks(text):
  return [t for t in lex.tokenize("x(" + text + ")")][2:]


def call(fun, text="a b c d e f g"):
  del capture[:]
  try:
    fun(Ctx(), toks(text), [])
  except RuntimeError as ex:
    return {"t": str(ex)}
  assert len(capture) == 1, (fun, capture)
  return capture[0]


ORIG = {
    an.ConditionalGroupNode.parse: "cond",
}


def node(v):
  if isinstance(v, an.StandardParser2):
    return std(v.cmdspec.pargs, v.funtree)
  if isinstance(v, an.StandardParser):
    return old(v.npargs, v.kwargs, v.flags)
  if isinstance(v, an.PositionalParser):
    n, x = nargs(v.npargs)
    return {"t": "pos", "n": n, "x": x, "mn": least(v.npargs), "f": sorted(v.flags), "so": int(bool(v.sortable))}
  if isinstance(v, dn.TupleParser):
    n, x = nargs(v.npargs)
    return {"t": "tuple", "n": n, "nt": v.ntup, "f": sorted(v.flags)}
  if v == an.ConditionalGroupNode.parse:
    return {"t": "cond"}
  if v == dn.ShellCommandNode.parse:
    out = old("+", {}, [])
    out["p"][0]["cl"] = 1
    return out
  if v == dn.PatternNode.parse:
    return old("+", {"PERMISSIONS": an.PositionalParser("+")}, ["EXCLUDE"])
  name = v.__name__
  if name == "null_parser":
    return {"t": "null"}
  return call(v)


def disp(fun, i, keys, fmt, otherwise="a b c d e f g", **kw):
  out = {"t": "disp", "i": i, "map": [{"u": k, "s": call(fun, fmt % k)} for k in keys], "els": call(fun, otherwise)}
  out["deref"] = kw.get("deref", out["els"])
  out["none"] = kw.get("none", out["els"])
  return out


STAR = {"t": "std", "p": [{"n": -1, "x": 0, "f": [], "leg": 1, "so": 0}], "kw": []}


def special(db):
  import cmakelang.parse.funs.install as inst
  import cmakelang.parse.funs.add_library as al
  import cmakelang.parse.funs.add_executable as ae
  import cmakelang.parse.funs.file as fi
  import cmakelang.parse.funs.list as li
  out = {}
  for k in ("set", "add_custom_target"):
    out[k] = {"t": k}
  for k in ("break", "continue", "return", "enable_testing"):
    out[k] = {"t": "empty"}
  import cmakelang.parse.funs.foreach as fe
  out["foreach"] = {"t": "disp", "i": 1, "els": {"t": "foreachstd"}, "none": STAR, "deref": {"t": "foreachstd"},
                    "map": [{"u": "RANGE", "s": call(fe.parse_foreach_range)}, {"u": "IN", "s": {"t": "foreachin"}}]}
  out["install"] = {"t": "disp", "i": 0, "els": STAR, "none": STAR, "deref": STAR, "map": [
      {"u": "TARGETS", "s": {"t": "install_targets"}},
      {"u": "FILES", "s": call(inst.parse_install_files)}, {"u": "PROGRAMS", "s": call(inst.parse_install_files)},
      {"u": "DIRECTORY", "s": call(inst.parse_install_directory)}, {"u": "SCRIPT", "s": call(inst.parse_install_script)},
      {"u": "CODE", "s": call(inst.parse_install_script)}, {"u": "EXPORT", "s": call(inst.parse_install_export)}]}
  third = {"t": "disp", "i": 2, "els": {"t": "lib_std"}, "none": {"t": "lib_std"}, "deref": {"t": "lib_std"},
           "map": [{"u": "IMPORTED", "s": call(al.parse_add_library_imported)}]}
  out["add_library"] = {"t": "disp", "i": 1, "els": third, "none": STAR, "deref": third, "map": [
      {"u": "OBJECT", "s": {"t": "lib_object"}}, {"u": "ALIAS", "s": call(al.parse_add_library_alias)},
      {"u": "INTERFACE", "s": call(al.parse_add_library_interface)},
      {"u": "IMPORTED", "s": call(al.parse_add_library_imported)}]}
  out["add_executable"] = {"t": "disp", "i": 1, "els": {"t": "exe_std"}, "none": STAR, "deref": {"t": "exe_std"}, "map": [
      {"u": "ALIAS", "s": call(ae.parse_add_executable_alias)},
      {"u": "IMPORTED", "s": call(ae.parse_add_executable_imported)}]}
  fkeys = ("READ STRINGS TIMESTAMP TOUCH TOUCH_NOCREATE GENERATE GLOB GLOB_RECURSE RENAME REMOVE REMOVE_RECURSE "
           "MAKE_DIRECTORY COPY INSTALL SIZE READ_SYMLINK CREATE_LINK RELATIVE_PATH TO_CMAKE_PATH TO_NATIVE_PATH "
           "DOWNLOAD UPLOAD LOCK").split() + list(fi.HASH_STRINGS)
  out["file"] = disp(fi.parse_file, 0, fkeys, "%s a b c d")
  out["file"]["map"] += [{"u": k, "s": {"t": "file_write"}} for k in ("WRITE", "APPEND")]
  lkeys = ("LENGTH GET JOIN SUBLIST FIND APPEND FILTER INSERT POP_BACK POP_FRONT PREPEND REMOVE_ITEM REMOVE_AT "
           "REMOVE_DUPLICATES TRANSFORM REVERSE SORT").split()
  out["list"] = disp(li.parse_list, 0, lkeys, "%s a b c d")
  out["cmake_policy"] = disp(db["cmake_policy"], 0, "VERSION SET GET PUSH POP".split(), "%s a b c d")
  out["cmake_policy"]["deref"] = call(db["cmake_policy"], "${a} b")
  out["cmake_parse_arguments"] = disp(db["cmake_parse_arguments"], 0, ["PARSE_ARGV"], "%s a b c d")
  out["get_filename_component"] = disp(db["get_filename_component"], 2, ["PROGRAM"], "a b %s c d")
  out["install_files"] = disp(db["install_files"], 1, ["FILES"], "a %s b c d")
  out["install_programs"] = disp(db["install_programs"], 1, ["FILES"], "a %s b c d")
  std1 = call(db["source_group"], "a FILES b")
  sg = {"t": "disp", "i": 1, "els": call(db["source_group"], "a b c"), "map": [{"u": k, "s": std1} for k in ("FILES", "REGULAR_EXPRESSION")]}
  sg["none"] = sg["deref"] = sg["els"]
  out["source_group"] = {"t": "disp", "i": 0, "els": sg, "none": sg, "deref": sg, "map": [{"u": "TREE", "s": call(db["source_group"], "TREE a b")}]}
  bc = {"t": "disp", "i": 1, "els": call(db["build_command"], "a b c"), "map": [{"u": k, "s": call(db["build_command"], "a TARGET b")} for k in ("CONFIGURATION", "TARGET", "PROJECT_NAME")]}
  bc["none"] = bc["deref"] = bc["els"]
  bc["rp"] = bc["map"][0]["s"]
  out["build_command"] = bc
  acc = {"t": "disp", "i": 0, "els": call(db["add_custom_command"], "OUTPUT b c"), "map": [{"u": "TARGET", "s": call(db["add_custom_command"], "TARGET b c")}]}
  acc["none"] = acc["deref"] = acc["els"]
  out["add_custom_command"] = acc
  return out


def main():
  core.quiet_logging()
  db = funs.get_parse_db()
  saved = an.StandardArgTree.__dict__["parse"], an.StandardArgTree.__dict__["parse2"]
  an.StandardArgTree.parse = classmethod(fake_parse)
  an.StandardArgTree.parse2 = classmethod(fake_parse2)
  orig_pos = an.PositionalGroupNode.__dict__["parse"]
  an.PositionalGroupNode.parse = fake_node("positional")
  an.StandardArgTree.check_required_kwargs = lambda *a: None
  spec = special(db)
  out = {}
  odd = []
  for name, fun in sorted(db.items()):
    if name in spec:
      out[name] = spec[name]
      continue
    out[name] = node(fun)
    if out[name]["t"].startswith("special"):
      odd.append(name)
  print("odd", odd, len(out))
  path = os.path.join(core.SPECS, "cmddb.json")
  with open(path, "w") as o:
    for name in sorted(out):
      o.write(json.dumps({"name": name, "s": out[name]}, sort_keys=True, separators=(",", ":")) + "\n")


if __name__ == "__main__":
  main()
