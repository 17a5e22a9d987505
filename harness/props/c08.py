"""C08: white space, line endings, indentation and blank lines of the output."""
import core
import fmt

SPEC = "Hygiene.tla"


def hygiene_cfg(r, cfgd):
  f = cfgd["format"]
  f["use_tabchars"] = r.random() < 0.4
  f["fractional_tab_policy"] = r.choice(["use-space", "round-up"])
  if r.random() < 0.7:
    f["tab_size"] = r.choice([1, 2, 3, 4, 8])
  f["line_ending"] = r.choice(["unix", "windows", "auto"])
  cfgd["encode"] = {"emit_byteorder_mark": r.random() < 0.15}


PROFILES = [
    ("nocomment", dict(comments=False), 1),
    ("comment", dict(), 0),
    ("nested", dict(max_items=3, comments=False, more=0.1), 1),
    ("onoff", dict(onoff=True, bracket=False), 0),
]
ENDINGS = ["lf", "lf", "crlf", "mixed"]


def endings(r, text, how):
  if how == "crlf":
    return text.replace("\n", "\r\n")
  if how == "mixed":
    return "".join(r.choice(["\r\n", "\n"]) if ch == "\n" else ch for ch in text)
  return text


def work(job):
  import random
  seed, (name, opts, exact) = job
  text, cfgd = fmt.gen_case(seed, opts, hygiene_cfg)
  r = random.Random(seed + 1)
  text = endings(r, text, r.choice(ENDINGS))
  if r.random() < 0.1:
    text = "\ufeff" + text
  out, _, err = fmt.run_format(cfgd, text)
  return dict(profile=name, text=text, cfg=cfgd, out=out, err=err, exact=exact)


def to_case(rec):
  f = rec["cfg"]["format"]
  return dict(x=core.cp(rec["text"]), y=core.cp(rec["out"]), err=core.cp(rec["err"] or ""),
              le=f.get("line_ending", "unix"), tab=f.get("tab_size", 2), tabs=int(f.get("use_tabchars", False)),
              frac=f.get("fractional_tab_policy", "use-space"),
              bom=int(rec["cfg"].get("encode", {}).get("emit_byteorder_mark", False)), exact=rec["exact"])


def run(check):
  jobs = []
  for prof in PROFILES:
    jobs += [(s, prof) for s in check.seeds(check.n(1300, 8000), prof[0])]
  recs = core.pmap(work, jobs)
  check.validate(SPEC, [to_case(r) for r in recs], recs)
  for r in recs[:2]:
    check.sample({k: r[k] for k in ("profile", "text", "cfg", "out")})
  return check.finish("model_checking",
                      "random listfiles with LF, CR LF or mixed line endings x random whitespace options; non-trivial: more than one line",
                      evaluations=len(recs), distinct=len(set(r["text"] for r in recs if "\n" in r["text"].strip())))


def replay(check, rec):
  out, _, err = fmt.run_format(rec["cfg"], rec["text"])
  rec = dict(rec, out=out, err=err)
  check.validate(SPEC, [to_case(rec)], [rec])
  print(rec["text"], "-----", rec["out"], rec["err"], sep="\n")
  return check.finish("model_checking", "replay of one case")
