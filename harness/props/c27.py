"""C27: lint messages about indentation, built-in variables and loops that parse arguments."""
import random

import core
import lintlib

LEVEL = "model_checking"
IDS = lintlib.HINTS


def work(seed):
  r = random.Random(seed)
  opts = lintlib.hint_opts(r)
  text = lintlib.HintGen(r, opts["tab"]).file()
  return lintlib.measure(dict(text=text, opts=opts))


def run(check):
  recs = core.pmap(work, check.seeds(check.n(3500, 24000)))
  found = lintlib.validate(check, recs, IDS)
  return check.finish(LEVEL, "random nests of blocks with all kinds of indentation, near references and loops over arguments; non-trivial: at least one message of the property",
                      evaluations=len(recs), distinct=found)


def replay(check, rec):
  rec = lintlib.measure(rec)
  print(rec["text"], rec["opts"], *rec["msgs"], rec["err"], sep="\n")
  lintlib.validate(check, [rec], IDS)
  return check.finish(LEVEL, "replay of one case")
