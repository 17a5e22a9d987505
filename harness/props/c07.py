"""C07: formatting is idempotent."""
import random

import core
import fmt
import gen
from props import c08

SPEC = "Fixpoint.tla"
PROFILES = [
    ("nocomment", dict(comments=False)),
    ("nocomment-dense", dict(comments=False, max_items=3, flow=False)),
    ("nocomment-onoff", dict(comments=False, onoff=True)),
    ("tidy", dict(tidy=True, inner_comments=False, markup=False, trailing_comments=False)),
    ("marked", dict(tidy=True, inner_comments=False, trailing_comments=False, max_items=4)),
]
PLAIN = ["a", "the", "of", "and", "word", "comment", "formatting", "x", "library", "foo()", "\u00e9", "http://example.com/some/long/path/to/it",
         "(see", "above)", "'s", "a/b", "end.", "${x}", "a-b-c", "\"quoted\"", "i.e.", "OFF"]


def prose(r):
  return " ".join(r.choice(PLAIN) for _ in range(r.choice([1, 2, 5, 9, 14, 25])))


def items(r, ind, depth):
  """a list whose items are prose, with lists of their own after blank lines"""
  kind = r.choice("*-n")
  out = []
  for k in range(r.choice([1, 2, 3, 4, 11])):
    label = "%d." % (k + 1) if kind == "n" else kind
    out.append(ind + label + " " + prose(r))
    while r.random() < 0.2:
      out.append(ind + " " * (len(label) + 1) + prose(r))
    if depth < 2 and kind != "n" and r.random() < 0.12:
      out += [""] + items(r, ind + "  ", depth + 1)
      if r.random() < 0.5:
        break
      out.append("")
  return out


def marked(r):
  """lines of a comment made of prose, lists, rulers and fenced text"""
  out = []
  for k in range(r.choice([1, 1, 2, 3, 5])):
    x = r.random()
    if out:
      out.append("")
    if x < 0.3:
      out += [" " + prose(r) for _ in range(r.choice([1, 2, 3]))]
    elif x < 0.6:
      out += items(r, " ", 0)
    elif x < 0.7:
      out.append(" " + r.choice(["TODO(x): ", "NOTE(a b): "]) + prose(r))
    elif x < 0.85:
      rule = r.choice(["-" * 20, "=" * 12, "#" * r.choice([10, 12, 40, 79, 90])])
      out += [" " + rule, " " + prose(r), " " + rule] if rule[0] != "#" else [rule[1:], " " + prose(r), rule[1:]]
    else:
      f = r.choice(["~~~", "```"])
      out += [" " + f] + [" " + r.choice(["", "  ", "    "]) + prose(r) for _ in range(r.choice([1, 2, 3]))] + [" " + f]
  return [("#" + line).rstrip() for line in out]


class Marked(gen.Gen):
  """whole-line comments with markup, on their own between statements"""

  def line_comment(self):
    return "\n".join(marked(self.r))

  def items(self, depth=0, n=None):
    out = gen.Gen.items(self, depth, n)
    if self.r.random() < 0.5:
      if out and not out.endswith("\n\n"):
        out += "\n"
      ind = self.indent(depth)
      out += "".join(ind + line + "\n" for line in marked(self.r)) + "\n"
    return out




def run_twice(cfgd, text):
  h = []
  for _ in range(3):
    text, _, err = fmt.run_format(cfgd, text)
    if err:
      return h, err
    h.append(text)
  return h, None


def work(job):
  seed, (name, opts) = job
  text, cfgd = fmt.gen_case(seed, dict(opts, comments=False) if name == "marked" else opts,
                            c08.hygiene_cfg if seed % 3 == 0 else None,
                            cls=Marked if name == "marked" else gen.Gen)
  if seed % 3 == 0:
    cfgd["encode"] = {}
    cfgd["format"]["line_ending"] = "unix"
  r = random.Random(seed + 1)
  if r.random() < 0.1:
    text = text.replace("\n", "\r\n")
    cfgd["format"]["line_ending"] = r.choice(["auto", "windows", "unix"])
  h, err = run_twice(cfgd, text)
  return dict(profile=name, text=text, cfg=cfgd, h=h, err=err, out="\n=====\n".join(h[:2]))


def to_case(rec):
  return dict(h=[core.cp(x) for x in rec["h"]], err=core.cp(rec["err"] or ""))


def run(check):
  jobs = []
  for prof in PROFILES:
    jobs += [(s, prof) for s in check.seeds(check.n(700, 8000), prof[0])]
  recs = core.pmap(work, jobs)
  check.validate(SPEC, [to_case(r) for r in recs], recs)
  for r in recs[:2]:
    check.sample({k: r[k] for k in ("profile", "text", "cfg", "out")})
  return check.finish("model_checking",
                      "random listfiles (without comments, or with whole-line prose comments) x random configurations, formatted three times; "
                      "non-trivial: the first run changes the text",
                      evaluations=len(recs), distinct=len(set(r["text"] for r in recs if r["h"] and r["h"][0] != r["text"])))


def replay(check, rec):
  h, err = run_twice(rec["cfg"], rec["text"])
  rec = dict(rec, h=h, err=err)
  check.validate(SPEC, [to_case(rec)], [rec])
  print(rec["text"], *["-----\n" + x for x in h], err, sep="\n")
  return check.finish("model_checking", "replay of one case")
