"""C06: regions between off and on switches are copied verbatim."""
import random
import core
import fmt
import gen

SPEC = "Regions.tla"


# what stands before the switch that ends the region
BLANKS = ["", "", "  ", "\t", " ", " " * 7, " " * 15, " " * 40, "\t\t\t", " \t ", " " * 90]


def body_region(r):
  """text for a region between statements, from after 'off' to before 'on'"""
  g = gen.Gen(r, max_items=3, tabs=True)
  out = "\n"
  for _ in range(r.choice([0, 1, 1, 2, 3])):
    out += r.choice([
        lambda: g.items(1, 1), lambda: "foo(  a\t b )  \t\n", lambda: "  \t \n", lambda: "\n\n\n\n",
        lambda: "BAR( a # c\n\n  b)  bar(x)\n", lambda: "# plain   comment  \n", lambda: "#[[ bracket\n # cmf: on\n ]]\n",
        lambda: 'set(x "a\n# cmake-format: on\n b")\n', lambda: "# cmf: off\n", lambda: "foo([=[\n#cmf: on\n]=]   )\n",
        lambda: "if(A)\nfoo(b   )\nelse( )\n  c()\nendif ()\n", lambda: "  @X@\n", lambda: "foo( ü  \U0001F600 ) # €\n",
        lambda: "#cmake-format: off\nx(  )\n", lambda: "# cmake-format: x\n", lambda: "a(b)\n" * 3,
        lambda: "set_target_properties(a PROPERTIES b   c)\n", lambda: "add_library(foo\n x.cc   y.cc)\n"])()
  if r.random() < 0.1:
    out += "foo(  x)   "
  else:
    out += r.choice(BLANKS)
  return out


def args_region(r):
  out = "\n"
  for _ in range(r.choice([0, 1, 1, 2, 3])):
    out += r.choice(["  a    b\n", "X\n\n\n  Y\t \n", "# comment   \n", "\"multi\n  line\"   z\n", "#[[ b\n# cmf: on\n]] \n",
                     "[[\n # cmake-format: on ]]\n", "PROPERTIES  x   y\n", "PUBLIC   a.cc\n", "# cmf: off\n", "é   ü\n",
                     "DEPENDS  a   b\n", "STATIC   SHARED\n"])
  return out + r.choice(BLANKS)


def fill(text, seed, both):
  """the two listfiles of a case; argument regions are the same in both"""
  ra, r1, r2 = (random.Random("%s/%s" % (seed, k)) for k in "a12")
  one, two = [], []
  for ch in text:
    if ch == "\x01":
      a = body_region(r1)
      one.append(a)
      two.append(body_region(r2) if both else a)
    elif ch == "\x02":
      a = args_region(ra)
      one.append(a)
      two.append(a)
    else:
      one.append(ch)
      two.append(ch)
  return "".join(one), "".join(two)


def cfgf(r, cfgd):
  cfgd["format"]["enable_sort"] = False
  f = cfgd["format"]
  if r.random() < 0.2:
    f["use_tabchars"] = True
  f["line_ending"] = r.choice(["unix", "unix", "auto", "windows"])
  cfgd["encode"] = {"emit_byteorder_mark": r.random() < 0.2}


PROFILES = [
    ("body", dict(onoff="mark", max_items=5, inner_comments=False), True),
    ("args", dict(onoff="mark", max_items=3, flow=False, comments=False, more=0.5), True),
    ("open", dict(onoff="mark", max_items=4, flow=False), False),
    ("few", dict(onoff="mark", max_items=2, comments=False), True),
]


def work(job):
  seed, (name, opts, both) = job
  r = random.Random(seed + 7)
  text, cfgd = fmt.gen_case(seed, opts, cfgf)
  one, two = fill(text, seed, both)
  if name == "open":
    # cut after an off switch: never turned on again
    k = text.rfind("\x01")
    if k >= 0:
      tail = r.choice(["\n", "", "\n\n  foo(  a )  \n", "\nbar(x   y)", "\n  # c   \n\n\n", "\n# cmf: off\n a( )\n"])
      one, _ = fill(text[:k], seed, False)
      one += tail
      two = one
  if r.random() < 0.25:
    one, two = one.replace("\n", "\r\n"), two.replace("\n", "\r\n")
  if r.random() < 0.2:
    one, two = "\ufeff" + one, "\ufeff" + two
  y1, _, e1 = fmt.run_format(cfgd, one)
  y2, _, e2 = (y1, True, e1) if one == two else fmt.run_format(cfgd, two)
  return dict(profile=name, text=one, text2=two, cfg=cfgd, out=y1, out2=y2, err=e1, err2=e2)


def to_case(rec):
  return dict(x=core.cp(rec["text"]), y=core.cp(rec["out"]), err=core.cp(rec["err"] or ""),
              x2=core.cp(rec["text2"]), y2=core.cp(rec["out2"]), err2=core.cp(rec["err2"] or ""))


def run(check):
  jobs = []
  for prof in PROFILES:
    jobs += [(s, prof) for s in check.seeds(check.n(900, 6000), prof[0])]
  recs = core.pmap(work, jobs)
  check.validate(SPEC, [to_case(r) for r in recs], recs)
  nontrivial = [r for r in recs if ": off" in r["text"]]
  for r in nontrivial[:2]:
    check.sample({k: r[k] for k in ("profile", "text", "cfg", "out")})
  return check.finish("model_checking",
                      "random listfiles with regions between and inside statements, with two different fillings each; "
                      "non-trivial: at least one off switch",
                      evaluations=len(recs), distinct=len(set(r["text"] for r in nontrivial)))


def replay(check, rec):
  y1, _, e1 = fmt.run_format(rec["cfg"], rec["text"])
  y2, _, e2 = fmt.run_format(rec["cfg"], rec["text2"])
  rec = dict(rec, out=y1, out2=y2, err=e1, err2=e2)
  check.validate(SPEC, [to_case(rec)], [rec])
  print(rec["text"], "-----", rec["out"], rec["err"], sep="\n")
  return check.finish("model_checking", "replay of one case")
