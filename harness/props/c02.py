"""C02: token kinds and boundaries follow the CMake grammar."""
import random

import core
import gen
import lexgen
from cmakelang import lex

SPEC = "TokenKinds.tla"


def collect(text):
  out = []
  pos = 1
  for t in lex.tokenize(text):
    pos += len(t.spelling)
    out.append(dict(k=t.type.name, e=pos))
  return out


def make_text(job):
  kind, arg = job
  if kind == "short":
    return arg
  r = random.Random(arg)
  if kind == "pieces":
    return lexgen.piece_text(r, sep=r.choice([0.5, 0.8, 1.0]))
  text = gen.Gen(r, crlf=r.random() < 0.2, onoff=r.random() < 0.4, max_items=5).file()
  return "\ufeff" + text if r.random() < 0.1 else text


def work(job):
  text = make_text(job)
  out, err = core.guarded(collect, text)
  return dict(kind=job[0], text=text, err=err, toks=out or [])


def to_case(r):
  return dict(x=core.cp(r["text"]), err=core.cp(r["err"] or ""), toks=r["toks"])


def run(check):
  jobs = [("short", t) for t in lexgen.short_texts(check.n(3, 4))]
  jobs += [("pieces", s) for s in check.seeds(check.n(20000, 80000), "p")]
  jobs += [("file", s) for s in check.seeds(check.n(3000, 8000), "f")]
  recs = core.pmap(work, jobs, chunksize=64)
  check.validate(SPEC, [to_case(r) for r in recs], [{k: r[k] for k in ("kind", "text", "err")} for r in recs])
  for r in recs[-2:]:
    check.sample(r["text"])
  return check.finish("model_checking",
                      "all texts of length <= %d over %d characters, random concatenations of lexical fragments, random listfiles; "
                      "non-trivial: at least two tokens" % (check.n(3, 4), len(lexgen.ALPHA)),
                      evaluations=len(recs), distinct=len(set(r["text"] for r in recs if len(r["toks"]) > 1)))


def replay(check, rec):
  out, err = core.guarded(collect, rec["text"])
  rec = dict(rec, err=err, toks=out or [])
  check.validate(SPEC, [to_case(rec)], [rec])
  print(repr(rec["text"]), rec["toks"], err)
  return check.finish("model_checking", "replay of one case")
