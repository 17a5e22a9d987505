"""C01: tokens tile the text and are correctly located."""
import random

import core
import gen
import lexgen
from cmakelang import lex, parse, configuration
from cmakelang.lex import Token

SPEC = "Tokens.tla"


def collect(text, with_tree):
  toks = lex.tokenize(text)
  rec = [dict(t=core.cp(t.spelling), l=t.begin[0], c=t.begin[1], o=t.begin[2],
              el=t.end[0], ec=t.end[1], eo=t.end[2]) for t in toks]
  nodes = []
  if with_tree:
    ids = {id(t): i + 1 for i, t in enumerate(toks)}
    db = parse.funs.get_parse_db()
    tree = parse.parse(toks, parse.ParseContext(db, config=configuration.Configuration()))

    def first(node):
      f = 0
      for child in node.children:
        g = ids[id(child)] if isinstance(child, Token) else visit(child)
        f = f or g
      return f

    def visit(node):
      f = first(node)
      loc = node.get_location()
      nodes.append(dict(l=loc[0], c=loc[1], o=loc[2], f=f))
      return f

    visit(tree)
  return rec, nodes


def work(job):
  kind, arg = job
  tree = False
  if kind == "short":
    text = arg
  elif kind == "pieces":
    text = lexgen.piece_text(random.Random(arg))
  else:
    r = random.Random(arg)
    text = gen.Gen(r, crlf=r.random() < 0.2, onoff=r.random() < 0.3, max_items=5).file()
    if r.random() < 0.1:
      text = "\ufeff" + text
    tree = True
  out, err = core.guarded(collect, text, tree)
  return dict(kind=kind, text=text, err=err, toks=out[0] if out else [], nodes=out[1] if out else [])


def to_case(r):
  return dict(x=core.cp(r["text"]), err=core.cp(r["err"] or ""), toks=r["toks"], nodes=r["nodes"])


def run(check):
  jobs = [("short", t) for t in lexgen.short_texts(check.n(3, 4))]
  jobs += [("pieces", s) for s in check.seeds(check.n(16000, 60000), "p")]
  jobs += [("file", s) for s in check.seeds(check.n(2500, 6000), "f")]
  recs = core.pmap(work, jobs, chunksize=64)
  light = [{k: r[k] for k in ("kind", "text", "err")} for r in recs]
  check.validate(SPEC, [to_case(r) for r in recs], light)
  for r in recs[-2:]:
    check.sample(r["text"])
  return check.finish("model_checking",
                      "all texts of length <= %d over %d characters, random concatenations of lexical fragments, random listfiles (with parse tree); "
                      "non-trivial: at least two tokens" % (check.n(3, 4), len(lexgen.ALPHA)),
                      evaluations=len(recs), distinct=len(set(r["text"] for r in recs if len(r["toks"]) > 1)))


def replay(check, rec):
  out, err = core.guarded(collect, rec["text"], rec["kind"] == "file")
  rec = dict(rec, err=err, toks=out[0] if out else [], nodes=out[1] if out else [])
  check.validate(SPEC, [to_case(rec)], [rec])
  return check.finish("model_checking", "replay of one case")
