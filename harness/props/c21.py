"""C21: lint messages about names, documentation and definitions."""
import random

import core
import lintlib

LEVEL = "model_checking"
IDS = lintlib.NAMES


def work(seed):
  r = random.Random(seed)
  opts = lintlib.gen_opts(r, names=r.random() < 0.6)
  text = lintlib.LintGen(r, names=True, comments=r.random() < 0.7).file()
  return lintlib.measure(dict(text=text, opts=opts))


def run(check):
  recs = core.pmap(work, check.seeds(check.n(3500, 24000)))
  found = lintlib.validate(check, recs, IDS)
  return check.finish(LEVEL, "random nests of definitions, loops and assignments x naming patterns; non-trivial: at least one message of the property",
                      evaluations=len(recs), distinct=found)


def replay(check, rec):
  rec = lintlib.measure(rec)
  print(rec["text"], rec["opts"], *rec["msgs"], rec["err"], sep="\n")
  lintlib.validate(check, [rec], IDS)
  return check.finish(LEVEL, "replay of one case")
