"""C22: lint messages about complexity and flow."""
import random

import core
import lintlib

LEVEL = "model_checking"
IDS = lintlib.FLOW


def work(seed):
  r = random.Random(seed)
  opts = lintlib.gen_opts(r, limits=True)
  text = lintlib.LintGen(r, names=r.random() < 0.2, jumps=r.random() < 0.8, comments=r.random() < 0.5, depth=r.choice([2, 3, 4])).file()
  return lintlib.measure(dict(text=text, opts=opts))


def run(check):
  recs = core.pmap(work, check.seeds(check.n(4000, 24000)))
  found = lintlib.validate(check, recs, IDS)
  return check.finish(LEVEL, "random nests of definitions, branches, loops and jumps x limits; non-trivial: at least one message of the property",
                      evaluations=len(recs), distinct=found)


def replay(check, rec):
  rec = lintlib.measure(rec)
  print(rec["text"], rec["opts"], *rec["msgs"], rec["err"], sep="\n")
  lintlib.validate(check, [rec], IDS)
  return check.finish(LEVEL, "replay of one case")
