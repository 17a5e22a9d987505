"""C05: exactly the sortable lists are sorted, stably, and nothing is lost."""
import random

import core
import fmt
import gen
from props import c11, c18

SPEC = "Sorting.tla"
LEVEL = "model_checking"

NAMES = ["b.cc", "A.cc", "a.cc", "B.cc", "Z", "z", "_x", "10", "9", "a", "ab", "a-b", "a_b", "src/a.cc", "src/B.cc",
         "z.h", "Zz", "c", "d", "e.cc", "E.cc", "\u00e9.cc", "a.cc", "b.cc"]
TAGS = ["# cmake-format: sort", "# cmf: sort", "# cmf: sortable", "#cmake-format: sortable", "#[[cmf:sort]]",
        "#[[cmake-format: sortable]]", "# cmf: SORT"]
UNTAGS = ["# cmf: unsort", "# cmake-format: unsortable", "#[[cmf:unsort]]", "# cmf: unsortable"]
OTHERTAGS = ["# cmf: other", "#[[cmf:x]]", "# cmf:sort", "# sort", "# cmf sort"]
SOURCES = ["add_library", "add_executable"]
LISTS = ["set", "target_sources", "foreach", "list", "target_link_libraries", "install", "add_custom_target",
         "add_custom_command", "set_property", "unknown_cmd", "message", "add_library", "string", "source_group"]


def source_args(r, name):
  out = [r.choice(["foo", "${name}", '"x"'])]
  if name == "add_library":
    if r.random() < 0.6:
      out.append(c18.respell(r, r.choice(["STATIC", "SHARED", "MODULE", "OBJECT", "INTERFACE"] + ["STATIC"] * 4)))
    if r.random() < 0.2:
      out.append("EXCLUDE_FROM_ALL")
  else:
    for f in ("WIN32", "MACOSX_BUNDLE", "EXCLUDE_FROM_ALL"):
      if r.random() < 0.2:
        out.append(f)
  for _ in range(r.choice([0, 1, 2, 3, 4, 6, 9])):
    x = r.random()
    if x < 0.88:
      out.append(r.choice(NAMES))
    elif x < 0.93:
      out.append(r.choice(["${SRCS}", '"q s"', "$<x:y>", "[[b]]", '"A.cc"', "@X@"]))
    elif x < 0.95:
      out.append(r.choice(["STATIC", "shared", "WIN32", "EXCLUDE_FROM_ALL", "UNKNOWN", "Interface", '"STATIC"']))
    else:
      out.append(r.choice(NAMES))
  return out


def layout(r, name, args):
  """the statement as text, with annotations and comments"""
  mode = r.choice(["none", "tag", "tag", "comments", "both", "both"])
  text = name + "("
  prev = "("
  n = 0
  spots = [k for k in range(len(args)) if args[k] != ")"]
  tagat = set()
  if mode in ("tag", "both") and spots:
    first = [k for k in spots if k == 0 or args[k - 1].isupper()] or spots
    for _ in range(r.choice([1, 1, 1, 2])):
      tagat.add(r.choice(first if r.random() < 0.4 else spots[:3] if r.random() < 0.5 else spots))
  for k, arg in enumerate(args):
    sep = r.choice(["", "", " "]) if prev == "(" or arg == ")" else r.choice([" ", " ", "  ", "\n", "\n  "])
    if k in tagat:
      tag = r.choice(TAGS if r.random() < 0.7 else UNTAGS if r.random() < 0.7 else OTHERTAGS)
      sep = r.choice([" ", "\n  ", " "]) + tag + (r.choice([" ", "\n"]) if tag.startswith("#[[") else "\n") + "  "
    elif mode in ("comments", "both") and r.random() < 0.3:
      for _ in range(r.choice([1, 1, 1, 2])):
        n += 1
        sep = (sep or " ") + r.choice(["# n%d\n" % n, "# n%d\n    " % n, "#[[b%d]] " % n, "\n# m%d\n" % n, "\n    # m%d\n    " % n])
    text += sep + arg
    prev = arg
  if mode in ("comments", "both") and r.random() < 0.3:
    n += 1
    text += r.choice([" # n%d\n", "\n  # n%d\n", " #[[b%d]]"]) % n
  return text + r.choice(["", "", "\n"]) + ")\n"


def names(r, args):
  return [r.choice(NAMES) if a in c18.WORDS else a for a in args]


def make(r):
  x = r.random()
  if x < 0.45:
    name = r.choice(SOURCES)
    rec = dict(name=name, user={}, over=[])
    stmt = layout(r, name, source_args(r, name))
  elif x < 0.75:
    rec = c18.user_case(r)
    args = names(r, c18.arguments(r, c18.as_node(rec["user"][[k for k in rec["user"] if k.lower() == rec["name"]][0]]), rec["name"]))
    stmt = layout(r, rec["name"], args)
  else:
    name = r.choice(LISTS) if r.random() < 0.7 else r.choice(c18.BUILTIN)
    rec = dict(name=name, user={}, over=[])
    node = c18.DB.get(name, {"t": "std", "p": [{"n": -1, "f": []}], "kw": []})
    stmt = layout(r, name, names(r, c18.arguments(r, node, name)))
  before, after, skip = c11.AROUND.get(rec["name"], ("", "", 0))
  rec.update(stmt=stmt, text=before + stmt + after, skip=skip)
  return rec


def configure(r, rec):
  f = gen.format_cfg(r)
  f.update(keyword_case="unchanged")
  x = r.random()
  if x < 0.8:
    f.update(enable_sort=True, autosort=True)
  rec["cfg"] = {"format": f, "markup": {"enable_markup": False},
                "parse": {"additional_commands": rec["user"],
                          "override_spec": {c18.over_key(o): o["v"] for o in rec["over"]}}}
  return rec


def work(seed):
  r = random.Random(seed)
  return c11.measure(configure(r, make(r)))


def each_work(job):
  rec, seed = job
  return c11.measure(configure(random.Random(seed), c11.around(rec)))


def falling(args):
  """the plain words in falling order"""
  n = 0
  out = []
  for a in args:
    if a[1:].isdigit() and a.islower():
      n += 1
      a = "%c%d.cc" % (ord("z") - n % 24, n)
    out.append(a)
  return out


def to_case(rec):
  f = rec["cfg"]["format"]
  case = c18.to_case(rec, rec["stmt"])
  del case["ev"]
  case.update(y=core.cp(rec["out"]), skip=rec["skip"], on=int(f.get("enable_sort", True) and f.get("autosort", False)))
  return case


def run(check):
  recs = core.pmap(work, check.seeds(check.n(6000, 40000), "sort"))
  recs += core.pmap(each_work, [(rec, check.seed * 100003 + k) for k, rec in enumerate(c18.each(check, falling))])
  check.validate(SPEC, [to_case(r) for r in recs], recs, cfg="Sorting.cfg")
  moved = [r for r in recs if r["cfg"]["format"].get("autosort") and r["out"].split() != r["text"].split()]
  for r in moved[:3]:
    check.sample({k: r[k] for k in ("text", "cfg", "out")})
  return check.finish(LEVEL, "statements of built-in and user-specified commands with annotations, comments, duplicate and differently cased names, sorting on and off; non-trivial: autosort is on and the text changes",
                      evaluations=len(recs), distinct=len(set((r["text"], repr(r["cfg"])) for r in moved)))


def replay(check, rec):
  rec = c11.measure(rec)
  check.validate(SPEC, [to_case(rec)], [rec], cfg="Sorting.cfg")
  print(rec["text"], rec["cfg"], "-----", rec["out"], rec["err"], sep="\n")
  return check.finish(LEVEL, "replay of one case")
