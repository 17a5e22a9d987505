"""C10: lines that are too wide are unavoidable, and reported."""
import json

import core
import layoutlib
import tool

SPEC = "Layout.tla"
LEVEL = "model_checking"


def work(seed):
  text, cfgd, o = layoutlib.gen_case(seed, narrow=True, max_items=3)
  cfgd["format"].pop("use_tabchars", None)
  cfgd["format"].pop("fractional_tab_policy", None)
  o["tabs"] = 0
  return layoutlib.case(text, cfgd, o)


def job(rec):
  """the tool in place, told to require an admissible layout"""
  cfgd = dict(rec["cfg"], format=dict(rec["cfg"]["format"], require_valid_layout=True))
  return dict(module="cmakelang.format.__main__", files={"CMakeLists.txt": dict(hex=tool.hexs(rec["text"]), mode=0o644),
                                                         "conf.json": dict(hex=tool.hexs(json.dumps(cfgd)), mode=0o644)},
              argv=["-c", "conf.json", "-i", "CMakeLists.txt"])


def run_tool(recs):
  for rec, out in zip(recs, tool.run_jobs([job(r) for r in recs])):
    rec["tool"] = dict(rc=out["rc"], file=bytes.fromhex(out["final"]["CMakeLists.txt"]["hex"]).decode("utf-8"))


def to_case(rec):
  out = layoutlib.to_case(rec)
  ran = rec.get("tool")
  out.update(x=core.cp(rec["text"]), ran=int(ran is not None), rc=ran["rc"] if ran else 0, file=core.cp(ran["file"]) if ran else [])
  return out


def run(check):
  recs = [r for r in core.pmap(work, check.seeds(check.n(1300, 14000)))]
  run_tool([r for r in recs if r["err"] is None][:check.n(250, 2000)])
  check.validate(SPEC, [to_case(r) for r in recs], recs, cfg="LayoutWidth.cfg")
  for r in recs[:2]:
    check.sample({k: r[k] for k in ("text", "out", "valid")})
  return check.finish(LEVEL, "random listfiles x narrow widths and layout options, some of them through the tool with require_valid_layout", evaluations=len(recs),
                      distinct=len(set(r["text"] for r in recs if not r["valid"])))


def replay(check, rec):
  new = layoutlib.case(rec["text"], rec["cfg"], rec["o"])
  if new["err"] is None:
    run_tool([new])
  check.validate(SPEC, [to_case(new)], [new], cfg="LayoutWidth.cfg")
  print(rec["text"], "-----", new["out"], new["err"], json.dumps(rec["cfg"]), sep="\n")
  return check.finish(LEVEL, "replay of one case")
