"""C18: arguments are grouped as the specification of the command declares."""
import json
import os
import random
import re

import core
import fmt
import gen
from cmakelang import lex, parse
from cmakelang.parse import funs

SPEC = "Grouping.tla"
LEVEL = "model_checking"

ROLE = {"ARGUMENT": "a", "KEYWORD": "k", "FLAG": "f", "LPAREN": "(", "RPAREN": ")"}
GROUP = {"ARGGROUP": "A", "PARGGROUP": "P", "KWARGGROUP": "K", "PARENGROUP": "G", "FLAGGROUP": "P"}

DB = {}
with open(os.path.join(core.SPECS, "cmddb.json")) as _infile:
  for _line in _infile:
    _rec = json.loads(_line)
    DB[_rec["name"]] = _rec["s"]


# ----------------------------------------------------------------- real code
def parse_tree(cfgd, text):
  cfg = fmt.make_config(cfgd)
  db = funs.get_parse_db()
  db.update(funs.get_funtree(cfg.parse.fn_spec))
  return parse.parse(lex.tokenize(text), parse.ParseContext(db, config=cfg))


def find(node):
  """the first statement of the tree"""
  if isinstance(node, lex.Token):
    return None
  if node.node_type.name == "STATEMENT":
    return node
  for ch in node.children:
    out = find(ch)
    if out is not None:
      return out
  return None


COMMENTS = ("COMMENT", "BRACKET_COMMENT", "FORMAT_ON", "FORMAT_OFF")
SKIP = ("WHITESPACE", "NEWLINE") + COMMENTS


def events(node):
  """pre-order events of a subtree, without what holds no argument"""
  name = node.node_type.name
  if name in ROLE:
    toks = [ch for ch in node.children if isinstance(ch, lex.Token) and ch.type.name not in SKIP]
    return [ROLE[name]] * len(toks)
  out = []
  for ch in node.children:
    if isinstance(ch, lex.Token):
      if ch.type.name not in SKIP:
        out.append("?" + ch.spelling)
    elif ch.node_type.name not in ("COMMENT", "ONOFFSWITCH", "WHITESPACE"):
      out += events(ch)
  if not out:
    return out
  return [GROUP.get(name, "?" + name) + limits(node, name)] + out + [">"]


def limits(node, name):
  """limits of the layout that belong to the group itself"""
  if name == "PARGGROUP":
    limit = getattr(getattr(node, "spec", None), "max_pargs_hwrap", None)
    return ("" if limit is None else "/%d" % limit) + ("!" if "cmdline" in getattr(node, "tags", ()) else "")
  if name == "ARGGROUP":
    limit = getattr(getattr(node, "cmdspec", None), "max_subgroups_hwrap", None)
    return "" if limit is None else "/%d" % limit
  return ""


def record(cfgd, text):
  tree = parse_tree(cfgd, text)
  stmt = find(tree)
  seen = 0
  out = []
  for ch in stmt.children:
    if isinstance(ch, lex.Token):
      continue
    name = ch.node_type.name
    if name == "LPAREN":
      seen = 1
    elif name == "RPAREN":
      seen = 2
    elif seen == 1 and name not in ("COMMENT", "ONOFFSWITCH", "WHITESPACE"):
      out += events(ch)
  return out


TAG = re.compile(r"(?:#\s*(?:cmake-format|cmf): |#\[\[(?:cmake-format|cmf):)\s*(un)?sort(?:able)?\s*(?:\]\])?", re.I)


def tag_of(comments):
  """1 or 2 if the comment is an annotation to sort or not to sort"""
  hit = TAG.fullmatch(comments[0]) if len(comments) == 1 else None
  return 0 if hit is None else 2 if hit.group(1) else 1


def tokens(text):
  """the argument tokens of the first statement of the text"""
  out = []
  depth = 0
  com = []
  for tok in lex.tokenize(text):
    kind = tok.type.name
    if kind in COMMENTS:
      com.append(tok.spelling)
    if kind in SKIP:
      continue
    if kind == "LEFT_PAREN":
      depth += 1
      if depth == 1:
        continue
    if kind == "RIGHT_PAREN":
      depth -= 1
    if depth == 0 and kind != "RIGHT_PAREN":
      continue
    spell = tok.spelling
    norm = ""
    if kind == "UNQUOTED_LITERAL" and spell.startswith("-"):
      norm = spell.lower()
    elif kind == "WORD":
      norm = spell.upper()
    out.append(dict(s=core.cp(spell), k="(" if kind == "LEFT_PAREN" else ")" if kind == "RIGHT_PAREN" else "w",
                    u=spell.upper(), n=norm, d=int(kind == "DEREF"), v=int("${" in spell),
                    m=int(bool(com)), g=tag_of(com), cm=[core.cp(x) for x in com]))
    com = []
    if depth == 0:
      break
  return out


# ----------------------------------------------------------------- generator
WORDS = ["a", "b", "foo.cc", "x", "bar", "alpha", "src/x.cc", "1", "2.0", "lib-x", "zed"]
OTHER = ['"q s"', '"COMMAND"', "${var}", "[[br]]", "-flag", "--long", "-DX=1", "$<x:y>", "@at@", "${a}/b", "a;b", "TRUE", "ON", "NOT"]


def walk(node, keys, flags, depth=0):
  """the words that mean something somewhere in a grammar"""
  for p in node.get("p", []):
    flags.extend(p["f"])
  if "f" in node:
    flags.extend(node["f"])
  for kw in node.get("kw", []):
    keys.append(kw["u"] if not kw["k"].startswith("-") else kw["k"])
    walk(kw["s"], keys, flags, depth + 1)
  for kw in node.get("map", []):
    keys.append(kw["u"])
    walk(kw["s"], keys, flags, depth + 1)
  for k in ("els", "none", "deref"):
    if k in node:
      walk(node[k], keys, flags, depth + 1)


SPECIAL = {
    "set": (["CACHE"], ["PARENT_SCOPE", "FORCE", "STRING"]),
    "add_custom_target": (["BYPRODUCTS", "COMMAND", "COMMENT", "DEPENDS", "JOB_POOL", "SOURCES", "WORKING_DIRECTORY"],
                          ["VERBATIM", "USES_TERMINAL", "COMMAND_EXPAND_LISTS", "ALL"]),
    "install": (["TARGETS", "EXPORT", "INCLUDES", "DESTINATION", "PERMISSIONS", "CONFIGURATIONS", "COMPONENT",
                 "NAMELINK_COMPONENT", "ARCHIVE", "LIBRARY", "RUNTIME", "OBJECTS", "FRAMEWORK", "BUNDLE",
                 "PRIVATE_HEADER", "PUBLIC_HEADER", "RESOURCE"], ["OPTIONAL", "EXCLUDE_FROM_ALL", "NAMELINK_ONLY", "NAMELINK_SKIP"]),
    "add_library": ([], ["STATIC", "SHARED", "MODULE", "OBJECT", "EXCLUDE_FROM_ALL", "IMPORTED", "GLOBAL"]),
    "add_executable": ([], ["WIN32", "MACOSX_BUNDLE", "EXCLUDE_FROM_ALL"]),
    "foreach": (["LISTS", "ITEMS"], []),
    "if": (["AND", "OR"], ["COMMAND", "DEFINED", "EQUAL", "EXISTS",
            "GREATER", "LESS", "IS_ABSOLUTE", "IS_DIRECTORY", "IS_NEWER_THAN", "IS_SYMLINK", "MATCHES", "NOT", "POLICY", "STRLESS", "STRGREATER",
            "STREQUAL", "TARGET", "TEST", "VERSION_EQUAL", "VERSION_GREATER", "VERSION_LESS"]),
}
for _k in ("elseif", "while", "else", "endif", "endwhile"):
  SPECIAL[_k] = SPECIAL["if"]


def respell(r, word):
  x = r.random()
  if x < 0.1:
    return word.lower()
  if x < 0.15:
    return word.title()
  if x < 0.17:
    return gen.mixed(r, word)
  if x < 0.2:
    return '"%s"' % word
  return word


def plain(r, parens, depth=0):
  x = r.random()
  if x < 0.72:
    return [r.choice(WORDS)]
  if x < 0.95 or not parens or depth > 2:
    return [r.choice(OTHER)]
  out = ["("]
  for _ in range(r.choice([0, 1, 2, 3])):
    out += plain(r, parens, depth + 1) if r.random() < 0.8 else [r.choice(["AND", "OR", "and", "NOT"])]
  return out + [")"]


def follow(r, node, parens):
  """arguments as the grammar suggests"""
  out = []
  if not isinstance(node, dict):
    return out
  kind = node["t"]
  if kind == "disp":
    m = node["map"]
    pick = r.choice(m + [None])
    if pick is not None:
      for _ in range(node["i"]):
        out.append(r.choice(WORDS))
      out.append(respell(r, pick["u"]))
      return out + follow(r, pick["s"], parens)
    return out + follow(r, node["els"], parens)
  specs = node.get("p") or ([node] if kind == "pos" else [])
  for p in specs:
    n = p["n"]
    if n < 0:
      n = r.choice([0, 1, 2, 3])
    n = max(0, n + r.choice([0, 0, 0, 0, -1, 1, 2]))
    for _ in range(n):
      if p["f"] and r.random() < 0.35:
        out.append(respell(r, r.choice(p["f"])))
      else:
        out += plain(r, parens)
  kws = list(node.get("kw", []))
  r.shuffle(kws)
  for kw in kws[:r.choice([0, 1, 1, 2, 2, 3])]:
    word = kw["k"]
    out.append(respell(r, word))
    out += follow(r, kw["s"], parens)
    if specs and r.random() < 0.2:
      fl = [f for p in specs for f in p["f"]]
      out.append(respell(r, r.choice(fl)) if fl else r.choice(WORDS))
  return out


def arguments(r, node, name):
  parens = r.random() < 0.25
  keys, flags = [], []
  walk(node, keys, flags)
  if name in SPECIAL:
    keys = keys + SPECIAL[name][0]
    flags = flags + SPECIAL[name][1]
    if name == "install" and r.random() < 0.7:
      keys = SPECIAL[name][0]
      flags = SPECIAL[name][1]
  out = follow(r, node, parens)
  if r.random() < (0.8 if name in SPECIAL else 0.4):
    if name not in SPECIAL and r.random() < 0.5:
      out = []
    if name == "install" and r.random() < 0.6:
      out = ["TARGETS"]
    for _ in range(r.choice([1, 2, 4, 6, 9])):
      x = r.random()
      if x < 0.3 and keys:
        out.append(respell(r, r.choice(keys)))
      elif x < 0.5 and flags:
        out.append(respell(r, r.choice(flags)))
      else:
        out += plain(r, parens)
  return out


def _pos(n, flags=()):
  return {"t": "pos", "n": n, "f": list(flags)}


def _kw(**kws):
  return [{"k": k, "u": k, "s": v} for k, v in kws.items()]


_INST = _kw(DESTINATION=_pos(1), PERMISSIONS=_pos(-1), CONFIGURATIONS=_pos(-1), COMPONENT=_pos(1), NAMELINK_COMPONENT=_pos(1))
_INSTF = SPECIAL["install"][1]
_SUB = {"t": "std", "p": [{"n": -1, "f": _INSTF}], "kw": _INST}
# the forms that are no plain declarations, for the enumeration
FORMS = {
    "set": {"t": "std", "p": [{"n": 1, "f": []}, {"n": -1, "f": ["PARENT_SCOPE"]}], "kw": _kw(CACHE=_pos(-1, ["FORCE"]))},
    "add_custom_target": {"t": "std", "p": [{"n": 1, "f": ["ALL"]}, {"n": -1, "f": ["VERBATIM", "USES_TERMINAL", "COMMAND_EXPAND_LISTS"]}],
                          "kw": _kw(BYPRODUCTS=_pos(-1), COMMAND=_pos(-1), COMMENT=_pos(1), DEPENDS=_pos(-1), JOB_POOL=_pos(1), SOURCES=_pos(-1), WORKING_DIRECTORY=_pos(1))},
    "install_targets": {"t": "std", "p": [{"n": -1, "f": _INSTF}],
                        "kw": _INST + _kw(EXPORT=_pos(1), INCLUDES=_pos(-1, ["DESTINATION"])) +
                        [{"k": k, "u": k, "s": _SUB} for k in SPECIAL["install"][0] if k not in ("TARGETS", "EXPORT", "INCLUDES") and k not in [x["k"] for x in _INST]]},
    "lib_std": {"t": "std", "p": [{"n": 1, "f": []}, {"n": -1, "f": ["STATIC", "SHARED", "MODULE", "OBJECT", "EXCLUDE_FROM_ALL"]}], "kw": []},
    "exe_std": {"t": "std", "p": [{"n": 1, "f": []}, {"n": -1, "f": SPECIAL["add_executable"][1]}], "kw": []},
    "foreachin": {"t": "std", "p": [], "kw": _kw(LISTS=_pos(-1), ITEMS=_pos(-1))},
    "cond": {"t": "std", "p": [{"n": -1, "f": SPECIAL["if"][1]}], "kw": _kw(AND=_pos(-1, ["NOT"]), OR=_pos(-1))},
}


def each_part(node, prefix, out, depth=0):
  """one statement's arguments for each count, flag and keyword of a grammar"""
  if not isinstance(node, dict) or depth > 4:
    return
  node = FORMS.get(node["t"], node)
  kind = node["t"]
  if kind == "disp":
    lead = prefix + ["w%d" % k for k in range(node["i"])]
    for kw in node["map"]:
      each_part(kw["s"], lead + [kw["u"]], out, depth + 1)
    each_part(node["els"], prefix + ["e"] * node["i"], out, depth + 1)
    return
  specs = node.get("p") if kind == "std" else [node] if kind in ("pos", "tuple") else []
  lead = list(prefix)
  for p in specs or []:
    n = p["n"]
    out.append(lead + ["n%d" % k for k in range(max(n, 1) - 1)])
    out.append(lead + ["n%d" % k for k in range(n + 2 if n >= 0 else 3)])
    for f in p["f"]:
      out.append(lead + [f, "x", f, "y"])
      out.append(lead + ["n%d" % k for k in range(max(n, 1))] + [f, "z"])
    lead += ["p%d" % k for k in range(n if n >= 0 else 1)]
  words = [kw["k"] for kw in node.get("kw", [])]
  for k, kw in enumerate(node.get("kw", [])):
    each_part(kw["s"], lead + [kw["k"]], out, depth + 1)
    # the keyword is followed by another one of its level
    out.append(lead + [kw["k"], "v1", "v2", "v3", words[(k + 1) % len(words)], "u1", "u2"])


def each(check, change=lambda args: args):
  """every count, flag and keyword of every built-in command"""
  recs = []
  for name in sorted(BUILTIN):
    args = []
    each_part(DB[name], [], args)
    if name == "install":
      args = [["TARGETS", "t"] + a[1:] if a[:1] == ["TARGETS"] else a for a in args]
    for k, a in enumerate(args):
      recs.append(dict(name=name, text=wrap(name, "%s(%s)\n" % (name, " ".join(change(a)))), user={}, over=[]))
  return recs


def layout(r, name, args):
  """the statement as text"""
  quiet = r.random() < 0.6
  text = name + "("
  prev = "("
  for arg in args:
    if prev == "(" or arg == ")":
      sep = r.choice(["", "", " "])
    else:
      sep = r.choice([" ", " ", "  ", "\n", "\n  "])
    if not quiet and r.random() < 0.12:
      sep = (sep or " ") + r.choice(["# note\n", "# COMMAND\n    ", "#[[ bracket ]] ", "# a\n  # b\n", "\n# low\n"])
    text += sep + arg
    prev = arg
  if not quiet and r.random() < 0.15:
    text += r.choice([" # end\n", "\n  # end\n"])
  return text + r.choice(["", "", "\n"]) + ")\n"


# user-supplied specifications
UKEYS = ["ALPHA", "BETA", "GAMMA", "COMMAND", "delta", "Eps", "-zeta", "SOURCES", "FLAG", "BAR"]
UFLAGS = ["FLAG", "OPT", "quiet", "BETA", "-v", "ALPHA", "LAST"]


def u_nargs(r, zero=True):
  return r.choice([0, 1, 1, 2, 3, "*", "+", "?", "1+", "2+", "2", "1"][0 if zero else 1:])


def u_flags(r):
  return r.sample(UFLAGS, r.choice([1, 1, 2, 3]))


def u_pargs(r):
  x = r.random()
  if x < 0.3:
    return u_nargs(r)
  if x < 0.45:
    return u_dict(r)
  out = []
  for _ in range(r.choice([0, 1, 2, 2, 3])):
    y = r.random()
    if y < 0.35:
      out.append(u_nargs(r))
    elif y < 0.7:
      out.append(u_dict(r))
    elif y < 0.85:
      out.append([u_nargs(r), r.random() < 0.5, r.choice([[], [], ["cmdline"]]), u_flags(r)])
    else:
      out.append([u_nargs(r), {"flags": u_flags(r)}])
  return out


def u_dict(r):
  out = {}
  if r.random() < 0.85:
    out["nargs"] = u_nargs(r)
  if r.random() < 0.5:
    out["flags"] = u_flags(r)
  if r.random() < 0.2:
    out["sortable"] = True
  if r.random() < 0.2:
    out["max_pargs_hwrap"] = r.choice([0, 1, 3, 12])
  if r.random() < 0.1:
    out["tags"] = r.choice([["cmdline"], ["other"], ["file-list", "cmdline"]])
  return out


def u_spec(r, depth=0):
  out = {}
  if r.random() < 0.8:
    out["pargs"] = u_pargs(r)
  if r.random() < 0.5 and not isinstance(out.get("pargs"), (list, dict)):
    out["flags"] = u_flags(r)
  if r.random() < 0.85 - depth * 0.25:
    kws = []
    for k in r.sample(UKEYS, r.choice([1, 2, 3, 4])):
      x = r.random()
      if x < 0.5:
        v = u_nargs(r)
      elif x < 0.7:
        v = dict(u_dict(r), nargs=u_nargs(r))
      else:
        v = u_spec(r, depth + 1) if depth < 2 else {"pargs": u_nargs(r)}
        v.pop("nargs", None)
      kws.append([k, v])
    if r.random() < 0.2:
      out["max_subgroups_hwrap"] = r.choice([0, 1, 2, 5])
    out["kwargs"] = kws if r.random() < 0.15 else dict((k, v) for k, v in kws)
  return out


def tagged(v):
  """a configuration value as the specification reads it"""
  if isinstance(v, bool):
    return {"t": "bool", "v": int(v)}
  if isinstance(v, int):
    return {"t": "int", "v": v}
  if isinstance(v, str):
    return {"t": "str", "s": v, "up": v.upper(), "lo": v.lower(), "c": core.cp(v)}
  if isinstance(v, (list, tuple)):
    return {"t": "list", "v": [tagged(x) for x in v]}
  return {"t": "dict", "v": [{"k": tagged(k), "v": tagged(x)} for k, x in v.items()]}


def count_pargs(spec):
  """how many positional specifications it declares"""
  p = spec.get("pargs", "*")
  if isinstance(p, (int, str, dict)):
    return 1
  return len(p)


def u_over(r, name, spec):
  """an override of one of the positional specifications"""
  path = []
  node = spec
  while True:
    kws = node.get("kwargs", {})
    kws = list(kws.items()) if isinstance(kws, dict) else kws
    kws = [(k, v) for k, v in kws if k != "COMMAND" and not k.startswith("parg")]
    if not kws or r.random() < 0.5:
      break
    k, node = r.choice(kws)
    path.append(k)
    if not isinstance(node, dict) or "nargs" in node:
      node = {"pargs": node}
      break
  n = count_pargs(node)
  if n == 0:
    return None
  idx = r.randrange(n)
  if r.random() < 0.2:
    return dict(cmd=name, path=path, idx=-1, attr="max_subgroups_hwrap", v=r.choice([0, 1, 3, 8]))
  attr = r.choice(["nargs", "nargs", "flags", "sortable", "max_pargs_hwrap", "tags"])
  if attr == "tags":
    return dict(cmd=name, path=path, idx=idx, attr=attr, v=r.choice([["cmdline"], [], ["other"], ["other", "cmdline"]]))
  val = r.choice([0, 1, 2, 7]) if attr == "max_pargs_hwrap" else u_nargs(r) if attr == "nargs" else u_flags(r) if attr == "flags" else r.random() < 0.7
  return dict(cmd=name, path=path, idx=idx, attr=attr, v=val)


ENDS = {"if": "endif()", "foreach": "endforeach()", "while": "endwhile()", "function": "endfunction()", "macro": "endmacro()"}


def wrap(name, text):
  """make a whole listfile of the statement"""
  low = name.lower()
  if low in ENDS:
    return text + ENDS[low] + "\n"
  return text


BUILTIN = sorted(k for k in DB if k not in ("elseif", "else", "endif", "endwhile", "endforeach", "endfunction", "endmacro"))
HEAVY = ["set", "foreach", "add_custom_target", "install", "add_library", "add_executable", "if", "while", "file", "list",
         "cmake_policy", "add_custom_command", "source_group", "get_filename_component", "set_target_properties",
         "target_link_libraries", "externalproject_add", "string", "export", "add_test"]


def builtin_case(r, name=None):
  name = name or (r.choice(HEAVY) if r.random() < 0.45 else r.choice(BUILTIN))
  args = arguments(r, DB[name], name)
  vt = []
  if name == "set":
    if args and r.random() < 0.5:
      args[0] = r.choice(SETVARS)
    if r.random() < 0.4:
      vt = [[r.choice(VARPATS), r.choice([["cmdline"], ["cmdline"], ["other"], ["other", "cmdline"], []])] for _ in range(r.choice([1, 1, 2]))]
  spell = name if r.random() < 0.8 else r.choice([name.upper(), gen.mixed(r, name)])
  return dict(name=name, text=wrap(name, layout(r, spell, args)), user={}, over=[], vt=vt)


# variables and patterns of variables whose values are laid out as a command line
SETVARS = ["FOO_COMMAND", "foo_command", "_COMMAND", "X_COMMANDS", "COMMAND_X", "TEST_ARGS", "my_args", "ARGS_X", "CMD_LINE", "cmd", '"FOO_COMMAND"', "${p}_COMMAND",
           "${FOO_COMMAND}", "PRE_CMD_X", "FOO-COMMAND", "Foo_Command_2"]
VARPATS = [".*_ARGS", "CMD_", ".*ARGS", "cmd", "TEST", ".*_cmd_"]


def as_node(spec):
  """rough grammar of a user specification, to generate arguments from"""
  def num(n):
    if isinstance(n, int):
      return n
    return 1 if n == "?" else -1 if n[-1] in "*+" else int(n)

  def one(d):
    if isinstance(d, (int, str)):
      return {"n": num(d), "f": []}
    if isinstance(d, dict):
      return {"n": num(d.get("nargs", "*")), "f": list(d.get("flags", []))}
    d = list(d)
    last = d.pop() if isinstance(d[-1], dict) else {}
    return {"n": num(d[0]), "f": list(d[3] if len(d) > 3 else last.get("flags", []))}

  p = spec.get("pargs", "*")
  specs = [one(p)] if isinstance(p, (int, str, dict)) else [one(x) for x in p]
  if spec.get("flags") and specs:
    specs[0]["f"] = list(spec["flags"])
  kws = spec.get("kwargs", {})
  kws = list(kws.items()) if isinstance(kws, dict) else kws
  kw = []
  for k, v in kws:
    sub = v if isinstance(v, dict) and "nargs" not in v else {"pargs": v}
    kw.append({"k": k, "u": k, "s": as_node(sub)})
  return {"t": "std", "p": specs, "kw": kw}


def user_case(r):
  user = {}
  for name in r.sample(["my_fn", "Foo", "other_cmd", "target_link_libraries", "add_test"], r.choice([1, 2])):
    user[name] = u_spec(r)
  name = r.choice(sorted(user))
  over = []
  if r.random() < 0.35:
    o = u_over(r, name.lower(), user[name])
    if o:
      over.append(o)
  args = arguments(r, as_node(user[name]), name.lower())
  return dict(name=name.lower(), text=layout(r, r.choice([name, name.lower(), name.upper(), gen.mixed(r, name)]), args), user=user, over=over)


def over_key(o):
  return "/".join([o["cmd"]] + o["path"] + (["parg[%d]" % o["idx"]] if o["idx"] >= 0 else [])) + "." + o["attr"]


def measure(rec):
  cfgd = {"parse": {"additional_commands": rec["user"], "override_spec": {over_key(o): o["v"] for o in rec["over"]}, "vartags": rec.get("vt", [])}}
  val, err = core.guarded(record, cfgd, rec["text"])
  rec["err"] = err
  rec["ev"] = val or []
  return rec


def work(job):
  seed, kind, name = job
  r = random.Random(seed)
  return measure(user_case(r) if kind == "user" else builtin_case(r, name))


def to_case(rec, text=None):
  vt = [dict(l=p.replace(".*", "").upper(), a=int(p.startswith(".*"))) for p, tags in rec.get("vt", []) if "cmdline" in tags]
  return dict(cmd=rec["name"], t=tokens(text or rec["text"]), vt=vt, ev=rec.get("ev", []), err=int(rec["err"] is not None),
              user=[dict(name=k.lower(), sp=core.cp(k), v=tagged(v)) for k, v in rec["user"].items()],
              over=[dict(cmd=o["cmd"], path=o["path"], idx=o["idx"], attr=o["attr"], v=tagged(o["v"])) for o in rec["over"]])


def run(check):
  jobs = [(s, "builtin", None) for s in check.seeds(check.n(3000, 20000), "builtin")]
  jobs += [(s, "builtin", name) for name in BUILTIN for s in check.seeds(check.n(2, 25), "each" + name)]
  jobs += [(s, "user", None) for s in check.seeds(check.n(4500, 24000), "user")]
  recs = core.pmap(work, jobs) + core.pmap(measure, each(check))
  check.validate(SPEC, [dict(to_case(r), lm=1) for r in recs], recs)
  for r in recs[:2]:
    check.sample({k: r[k] for k in ("text", "ev")})
  check.sample({k: recs[-1][k] for k in ("text", "user", "ev")})
  return check.finish(LEVEL, "statements of every built-in command and of commands with random user-supplied specifications and overrides; arguments follow or defy the grammar; non-trivial: a keyword or flag is recognised",
                      evaluations=len(recs), distinct=len(set((r["text"], json.dumps(r["user"])) for r in recs if "k" in r["ev"] or "f" in r["ev"])))


def replay(check, rec):
  rec = measure(rec)
  check.validate(SPEC, [dict(to_case(rec), lm=1)], [rec])
  print(rec["text"], json.dumps(rec["user"]), rec["over"], rec["ev"], rec["err"], sep="\n")
  return check.finish(LEVEL, "replay of one case")
