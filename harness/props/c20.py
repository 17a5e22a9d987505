"""C20: lint messages about lines, spacing and line endings."""
import random

import core
import gen
import lintlib

LEVEL = "model_checking"
IDS = lintlib.LAYOUT


def dirty(r, text):
  """line endings, blanks and tabs where they do not belong"""
  lines = text.split("\n")
  out = []
  p = r.choice([0, 0, 0.1, 1])
  q = r.choice([0, 0.05, 0.3])
  for k, line in enumerate(lines):
    if r.random() < q:
      line += r.choice([" ", "\t", "  \t", "\x0b", "\u00a0", "\u3000"] if "#" in line else [" ", "\t", "   "])
    if r.random() < q / 2:
      line = r.choice(["\t", " \t", "\t ", "  "]) + line
    if k < len(lines) - 1 and r.random() < p:
      line += "\r"
    out.append(line)
  return "\n".join(out)


def work(job):
  seed, kind = job
  r = random.Random(seed)
  opts = lintlib.gen_opts(r, layout=True)
  if kind == "files":
    text = gen.Gen(r, atstmt=False, more=0, max_items=r.choice([2, 5])).file()
  else:
    text = lintlib.LintGen(r, size=5).file()
    if r.random() < 0.3:
      text = " ".join(text.split("\n", 1)) if ")\n" in text.split("\n", 1)[0] + "\n" and "#" not in text.split("\n", 1)[0] else text
    if r.random() < 0.3:
      # two statements on a line
      spots = [k for k in range(len(text) - 1) if text[k:k + 2] == ")\n"]
      if spots:
        k = r.choice(spots)
        text = text[:k + 1] + r.choice([" ", "  ", "\t"]) + text[k + 2:]
  if r.random() < 0.6:
    text = dirty(r, text)
  if r.random() < 0.15:
    text = text.rstrip("\n")
  if r.random() < 0.1:
    text = r.choice(["\n", "\n\n\n", " ", "\t", "\r\n"]) + text
  if r.random() < 0.2:
    text += r.choice(["\n\n", "  ", " \n", "\r"])
  return lintlib.measure(dict(text=text, opts=opts, may_fail=kind == "files"))


def run(check):
  jobs = [(s, k) for k in ("files", "lint") for s in check.seeds(check.n(1800, 16000), k)]
  recs = [r for r in core.pmap(work, jobs)]
  found = lintlib.validate(check, recs, IDS)
  return check.finish(LEVEL, "random listfiles x line width, line ending, tab policy and spacing options; non-trivial: at least one message of the property",
                      evaluations=len(recs), distinct=found)


def replay(check, rec):
  rec = lintlib.measure(rec)
  print(rec["text"], rec["opts"], *rec["msgs"], rec["err"], sep="\n")
  lintlib.validate(check, [rec], IDS)
  return check.finish(LEVEL, "replay of one case")
