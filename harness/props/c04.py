"""C04: comments survive formatting, in their place."""
import core
import fmt
from props import c03

SPEC = "Preserve.tla"
NOSORT = {"autosort": False}
PROFILES = [
    ("exact", dict(), {"format": NOSORT, "markup": {"enable_markup": False}}, "exact"),
    ("exact-dense", dict(max_items=4, flow=False), {"format": dict(NOSORT, line_width=30), "markup": {"enable_markup": False}}, "exact"),
    ("exact-inner", dict(max_items=3, flow=False, inner=0.25, endc=0.3), {"format": NOSORT, "markup": {"enable_markup": False}}, "exact"),
    ("prose-inner", dict(markup=False, max_items=3, flow=False, inner=0.25, endc=0.3), {"format": NOSORT, "markup": {"enable_markup": True}}, "prose"),
    ("prose", dict(markup=False), {"format": NOSORT, "markup": {"enable_markup": True}}, "prose"),
    ("markup", dict(), {"format": NOSORT, "markup": {"enable_markup": True}}, "letters"),
]


def run(check):
  jobs = []
  for prof in PROFILES:
    jobs += [(s, prof) for s in check.seeds(check.n(900, 6000), prof[0])]
  recs = core.pmap(c03.work, jobs)
  check.validate(SPEC, [c03.to_case(r) for r in recs], recs)
  for r in recs[:2]:
    check.sample({k: r[k] for k in ("profile", "text", "cfg", "out")})
  return check.finish("model_checking",
                      "random listfiles with comments in every position x random configurations; non-trivial: at least one comment",
                      evaluations=len(recs), distinct=len(set(r["text"] for r in recs if "#" in r["text"])))


replay = c03.replay
