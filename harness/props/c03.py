"""C03: formatting preserves the commands and arguments CMake reads."""
import re

import core
import fmt
from props import c18

SPEC = "Preserve.tla"
PROFILES = [
    # (name, generator options, fixed configuration, comment comparison)
    ("plain", dict(tags=False), {"format": {"autosort": False}}, "none"),
    ("nocomment", dict(comments=False), {"format": {"autosort": False}}, "none"),
    ("dense", dict(max_items=4, flow=False, crlf=False), {"format": {"autosort": False, "line_width": 30}}, "none"),
    ("comments", dict(max_items=3, inner=0.25, endc=0.3, flow=False), {"format": {"autosort": False}}, "none"),
    ("crlf", dict(crlf=True, max_items=5), {"format": {"autosort": False, "line_ending": "auto"}}, "none"),
]


def work(job):
  seed, (name, opts, fixed, mode) = job
  text, cfgd = fmt.gen_case(seed, opts, None, fixed)
  out, _, err = fmt.run_format(cfgd, text)
  kwc = cfgd["format"].get("keyword_case", "unchanged")
  return dict(profile=name, text=text, cfg=cfgd, out=out, err=err, mode=mode,
              kw=0 if kwc == "unchanged" else 1)


NAME = re.compile(r"\b([A-Za-z_][A-Za-z0-9_]*)[ \t]*\(")


def known(rec):
  """the words of the grammar of each command of a file, as far as they occur"""
  words = set(re.split(r"[\s()#\"]+", rec["text"].lower()))
  user = fmt.make_config(rec["cfg"]).parse.additional_commands
  user = dict((k.lower(), v) for k, v in user.items())
  out = []
  for name in sorted(set(n.lower() for n in NAME.findall(rec["text"]))):
    node = c18.as_node(user[name]) if name in user else c18.DB.get(name)
    if node is None:
      continue
    keys, flags = [], []
    c18.walk(node, keys, flags)
    if name not in user and name in c18.SPECIAL:
      keys += c18.SPECIAL[name][0] + c18.SPECIAL[name][1]
    have = sorted(words & set(w.lower() for w in keys + flags))
    if have:
      out.append(dict(n=core.cp(name), w=[core.cp(w) for w in have]))
  return out


def to_case(rec):
  return dict(rw=known(rec) if rec["kw"] else [], x=core.cp(rec["text"]), y=core.cp(rec["out"]), err=core.cp(rec["err"] or ""),
              kw=rec["kw"], cm=rec["mode"])


def run(check):
  jobs = []
  for prof in PROFILES:
    jobs += [(s, prof) for s in check.seeds(check.n(1000, 8000), prof[0])]
  recs = core.pmap(work, jobs)
  check.validate(SPEC, [to_case(r) for r in recs], recs)
  for r in recs[:2]:
    check.sample({k: r[k] for k in ("profile", "text", "cfg", "out")})
  return check.finish("model_checking",
                      "random listfiles x random configurations, formatted by the real code; non-trivial: at least one argument",
                      evaluations=len(recs), distinct=len(set(r["text"] for r in recs if "(" in r["text"])))


def replay(check, rec):
  out, _, err = fmt.run_format(rec["cfg"], rec["text"])
  rec = dict(rec, out=out, err=err)
  check.validate(SPEC, [to_case(rec)], [rec])
  print(rec["text"], "-----", rec["out"], rec["err"], sep="\n")
  return check.finish("model_checking", "replay of one case")
