"""C09: the layout of statements."""
import json

import core
import layoutlib

SPEC = "Layout.tla"
LEVEL = "model_checking"


def work(seed):
  text, cfgd, o = layoutlib.gen_case(seed)
  return layoutlib.case(text, cfgd, o)


def align_off(seed):
  """a value of dangle_align that the option allows (see known_findings.txt)"""
  text, cfgd, o = layoutlib.gen_case(seed)
  cfgd["format"]["dangle_align"] = "off"
  return layoutlib.case(text, cfgd, dict(o, da="off"))


def known(rec):
  off = rec["cfg"]["format"].get("dangle_align") == "off" and "Unexpected config.format.dangle_align" in (rec["err"] or "")
  return "dangle_align=off" if off else None


def run(check):
  recs = core.pmap(work, check.seeds(check.n(1500, 16000))) + core.pmap(align_off, check.seeds(12))
  check.validate(SPEC, [layoutlib.to_case(r) for r in recs], recs, key=lambda i: known(recs[i]))
  for r in recs[:2]:
    check.sample({k: r[k] for k in ("text", "out")})
  return check.finish(LEVEL, "random listfiles x layout options", evaluations=len(recs), distinct=len(set(r["text"] for r in recs)))


def replay(check, rec):
  new = layoutlib.case(rec["text"], rec["cfg"], rec["o"])
  check.validate(SPEC, [layoutlib.to_case(new)], [new], key=lambda i: known(new))
  print(rec["text"], "-----", new["out"], new["err"], json.dumps(rec["cfg"]), sep="\n")
  return check.finish(LEVEL, "replay of one case")
