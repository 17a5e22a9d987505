"""Recording the trees that the real parser builds, for the layout machine."""
import random

import core
import fmt
import gen
from cmakelang import lex, parse
from cmakelang.parse import funs

KIND = {"BODY": "body", "FLOW_CONTROL": "block", "STATEMENT": "stmt", "ATWORDSTATEMENT": "atstmt", "WHITESPACE": "blank",
        "FUNNAME": "name", "ARGUMENT": "arg", "KEYWORD": "kw", "FLAG": "flag", "ATWORD": "at", "LPAREN": "(", "RPAREN": ")",
        "ARGGROUP": "args", "PARGGROUP": "pargs", "FLAGGROUP": "pargs", "KWARGGROUP": "kwgroup", "PARENGROUP": "paren",
        "ONOFFSWITCH": "switch"}
DEFAULT_PASSES = dict(stmt=[[0, 0], [1, 1], [2, 1], [3, 1], [4, 1], [5, 1]], args=[[0, 0], [1, 0], [2, 0], [3, 0], [4, 1], [5, 1]],
                      pargs=[[0, 0], [1, 0], [2, 0], [3, 0], [4, 1]], kw=[[0, 0], [1, 0], [2, 0], [3, 0], [4, 0], [5, 1]],
                      paren=[[0, 0], [1, 0], [2, 0], [3, 0], [4, 0], [5, 1]])
CLASS = dict(stmt="StatementNode", args="ArgGroupNode", pargs="PargGroupNode", kw="KwargGroupNode", paren="ParenGroupNode")


def node(t, x="", c=(), n=-1, f=0, first=0, ls=()):
  return dict(t=t, x=core.cp(x), c=list(c), n=n, f=f, first=first, ls=[core.cp(l) for l in ls])


def record(pnode, first):
  """the subtree of a parse node as data"""
  name = pnode.node_type.name
  toks = [ch for ch in pnode.children if isinstance(ch, lex.Token)]
  subs = [record(ch, first) for ch in pnode.children if not isinstance(ch, lex.Token)]
  if name == "COMMENT":
    if toks[0].type.name == "BRACKET_COMMENT":
      return node("bc", toks[0].spelling)
    return node("lc", ls=[t.spelling.strip() for t in toks if t.type.name == "COMMENT"], f=int(bool(getattr(pnode, "is_explicit_trailing", False))),
                first=int(toks[0] is first))
  kind = KIND[name]
  if kind == "blank":
    return node(kind, n=pnode.count_newlines(), f=int(pnode.get_location().offset == 0))
  if kind in ("name", "arg", "kw", "flag", "at", "(", ")"):
    return node(kind, toks[0].spelling, subs, n=int("\n" in toks[0].spelling or "\r" in toks[0].spelling))
  if kind == "switch":
    return node(kind, "# cmake-format: " + toks[0].type.name[len("FORMAT_"):].lower())
  if kind == "pargs":
    limit = getattr(getattr(pnode, "spec", None), "max_pargs_hwrap", None)
    return node(kind, c=subs, n=-1 if limit is None else limit, f=int("cmdline" in getattr(pnode, "tags", ())))
  if kind == "args":
    limit = getattr(getattr(pnode, "cmdspec", None), "max_subgroups_hwrap", None)
    return node(kind, c=subs, n=-1 if limit is None else limit)
  return node(kind, c=subs)


def tree(cfgd, text):
  cfg = fmt.make_config(cfgd)
  db = funs.get_parse_db()
  db.update(funs.get_funtree(cfg.parse.fn_spec))
  toks = lex.tokenize(text)
  first = [t for t in toks if t.type.name not in ("WHITESPACE", "NEWLINE", "BYTEORDER_MARK")]
  return record(parse.parse(toks, parse.ParseContext(db, config=cfg)), first[0] if first else None)


def elements(m, depth, out):
  """the elements of bodies and blocks in the order of the file"""
  if m["t"] == "body":
    out.append(dict(d=depth, m=node("{")))
    for ch in m["c"]:
      elements(ch, depth, out)
    out.append(dict(d=depth, m=node("}")))
  elif m["t"] == "block":
    for ch in m["c"]:
      elements(ch, depth + int(ch["t"] == "body"), out)
  else:
    out.append(dict(d=depth, m=m))
  return out


# ------------------------------------------------------------------ inputs
LIMITS = [0, 1, 2, 3, 4, 8, 12]


def group_spec(r, nargs):
  """a positional group with limits of its own"""
  out = {"nargs": nargs}
  if r.random() < 0.6:
    out["max_pargs_hwrap"] = r.choice(LIMITS)
  if r.random() < 0.25:
    out["tags"] = ["cmdline"]
  if r.random() < 0.3:
    out["flags"] = ["BAR", "BAZ"]
  return out


def foo_spec(r):
  """a specification of foo with limits of its own"""
  pargs = [group_spec(r, r.choice([1, 2, 3])) for _ in range(r.choice([0, 0, 1, 2]))] + [group_spec(r, "*")]
  out = {"pargs": pargs if len(pargs) > 1 or r.random() < 0.5 else pargs[0], "kwargs": {"DEPENDS": r.choice([1, 2, "+"])}}
  out["kwargs"]["HEADERS"] = {"pargs": group_spec(r, r.choice(["+", "*", 3]))} if r.random() < 0.6 else "*"
  if r.random() < 0.7:
    out["kwargs"]["SOURCES"] = {"pargs": group_spec(r, r.choice(["*", "+", 1])), "kwargs": {"BAR": 1, "BAZ": r.choice(["+", 2])}}
    if r.random() < 0.5:
      out["kwargs"]["SOURCES"]["max_subgroups_hwrap"] = r.choice(LIMITS[:5])
  if r.random() < 0.5:
    out["max_subgroups_hwrap"] = r.choice(LIMITS[:5])
  return out


WRAPS = ["set", "foo", "message", "if", "elseif", "foo/HEADERS", "install", "add_library/PargGroupNode[0]", "install/TARGETS/PargGroupNode[0]", "set/PargGroupNode[1]", "foreach", "target_link_libraries",
         "target_link_libraries/PUBLIC", "add_custom_command/COMMAND", "add_custom_command", "while", "if/ParenGroupNode", "foo/SOURCES/PargGroupNode[0]", "set_target_properties/PROPERTIES"]


def passes(r, kind):
  """random decisions for the passes of one kind of node"""
  out = [[0, int(r.random() < 0.15)]]
  for no in range(1, 6):
    if r.random() < 0.8:
      out.append([no, int(r.random() < 0.25 + 0.15 * no)])
  return out


def config(r, narrow=False):
  """-> configuration, options of the specification"""
  f = gen.format_cfg(r)
  f.pop("enable_sort", None)
  f["autosort"] = False
  if narrow and r.random() < 0.8:
    f["line_width"] = r.choice([10, 15, 20, 25, 30, 40])
  f.pop("always_wrap", None)
  if r.random() < 0.25:
    f["always_wrap"] = r.sample(WRAPS, r.choice([1, 2, 4]))
  tabs = 0
  if r.random() < 0.1:
    f["use_tabchars"] = True
    f["fractional_tab_policy"] = r.choice(["use-space", "round-up"])
    tabs = 1 + int(f["fractional_tab_policy"] == "round-up")
  steps = dict(DEFAULT_PASSES)
  if r.random() < 0.15:
    f["layout_passes"] = {}
    for kind in r.sample(sorted(CLASS), r.choice([1, 1, 2, 5])):
      steps[kind] = passes(r, kind)
      f["layout_passes"][CLASS[kind]] = [(no, bool(wrap)) for no, wrap in steps[kind]]
  cfgd = {"format": f}
  if r.random() < 0.25:
    cfgd["parse"] = {"additional_commands": {"foo": foo_spec(r)}}
  if r.random() < 0.6:
    cfgd["markup"] = {"enable_markup": False}
  return cfgd, options(cfgd, steps, tabs)


def options(cfgd, steps, tabs):
  f = cfgd["format"]
  return dict(lw=f.get("line_width", 80), bc=core.cp("*"), ec=core.cp("."), first=0, lk=0, lt=[], fch=core.cp("`~"), tf=1, rcs=[], rn=3, et=core.cp("#<"), hm=10,
              canon=1, on=int(cfgd.get("markup", {}).get("enable_markup", True)),
              tab=f.get("tab_size", 2), sub=f.get("max_subgroups_hwrap", 2), pargs=f.get("max_pargs_hwrap", 6), rows=f.get("max_rows_cmdline", 2),
              lines=f.get("max_lines_hwrap", 2), minp=f.get("min_prefix_chars", 4), maxp=f.get("max_prefix_chars", 10),
              sfn=int(f.get("separate_fn_name_with_space", False)), sctl=int(f.get("separate_ctrl_name_with_space", False)),
              dp=int(f.get("dangle_parens", False)), da=f.get("dangle_align", "prefix"), aw=[core.cp(w) for w in f.get("always_wrap", [])],
              tabs=tabs, passes=steps)


OPTS = dict(tags=False, max_items=4, unicode=True)


def gen_case(seed, narrow=False, **opts):
  r = random.Random(seed)
  cfgd, o = config(r, narrow)
  # filling comments is costly (and C12): short ones where they are filled;
  # so are nested parentheses that do not fit
  if "parse" in cfgd:
    opts = dict(opts, cmds=["foo"] * 60 + gen.KW_LIST, corpus=0.05)
  return gen.Gen(r, **dict(OPTS, words=14 if o["on"] == 0 else 5, parens=2 if o["lw"] > 60 and r.random() < 0.3 else 1, **opts)).file(), cfgd, o


def case(text, cfgd, o):
  """formats the listfile with the real code -> recorded run"""
  out, valid, err = fmt.run_format(cfgd, text)
  t = None
  if err is None:
    t, err = core.guarded(tree, cfgd, text)
  return dict(text=text, cfg=cfgd, o=o, out=out, valid=int(valid), err=err, tree=t)


def to_case(rec):
  return dict(els=elements(rec["tree"] or node("body"), 0, []), y=core.cp(rec["out"]), valid=rec["valid"], err=core.cp((rec["err"] or "").encode("ascii", "replace").decode()), o=rec["o"])
