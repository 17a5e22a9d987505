"""C11: letter case of names and keywords, spacing around the parentheses."""
import random

import core
import fmt
import gen
from props import c18

SPEC = "Letters.tla"
LEVEL = "model_checking"

# statements which need others around them: (before, after, commands before)
AROUND = {
    "if": ("", "endif()\n", 0), "while": ("", "endwhile()\n", 0), "foreach": ("", "endforeach()\n", 0),
    "function": ("", "endfunction()\n", 0), "macro": ("", "endmacro()\n", 0),
    "elseif": ("if(a)\n", "endif()\n", 1), "else": ("if(a)\n  foo()\n", "endif()\n", 2),
    "endif": ("if(a)\n", "", 1), "endwhile": ("while(a)\n", "", 1), "endforeach": ("foreach(a b)\n", "", 1),
    "endfunction": ("function(a)\n", "", 1), "endmacro": ("macro(a b)\n", "", 1),
}
MIXED = [
    "ExternalProject_Add", "ExternalProject_Add_Step", "ExternalProject_Add_StepDependencies",
    "ExternalProject_Add_StepTargets", "ExternalProject_Get_Property", "FetchContent_Declare",
    "FetchContent_GetProperties", "FetchContent_MakeAvailable", "FetchContent_Populate",
    "BISON_TARGET_option_defines", "BISON_TARGET_option_extraopts", "BISON_TARGET_option_report_file",
    "BISON_TARGET_option_verbose", "CHECK_Fortran_COMPILER_FLAG", "Check_Fortran_Libraries",
    "CHECK_Fortran_SOURCE_COMPILES", "Check_Lapack_Libraries", "CMAKE_FORCE_Fortran_COMPILER",
    "DetermineVSServicePack", "ExternalData_add_target", "ExternalData_add_test",
    "ExternalData_expand_arguments", "FortranCInterface_HEADER", "FortranCInterface_VERIFY",
    "GetDefaultWindowsPrefixBase", "GNUInstallDirs_get_absolute_install_dir",
    "MPI_search_mpi_prefix_folder", "PrintTestCompilerStatus", "ProcessorCount", "Subversion_WC_INFO",
    "Subversion_WC_LOG"]


def make(r):
  x = r.random()
  if x < 0.35:
    rec = c18.user_case(r)
    stmt = rec["text"]
  elif x < 0.55:
    name = r.choice(sorted(AROUND))
    args = c18.arguments(r, c18.DB["if"] if name.startswith("e") else c18.DB.get(name, c18.DB["if"]), name)
    stmt = c18.layout(r, r.choice([name, name.upper(), name.title(), gen.mixed(r, name)]), args)
    rec = dict(name=name, user={}, over=[])
  elif x < 0.65:
    name = r.choice(MIXED)
    args = c18.arguments(r, c18.DB[name.lower()], name.lower())
    stmt = c18.layout(r, r.choice([name, name.lower(), name.upper(), gen.mixed(r, name)]), args)
    rec = dict(name=name.lower(), user={}, over=[])
  elif x < 0.7:
    name = r.choice(["unknown_thing", "Unknown_Thing", "NOT_KNOWN", "EndThing", "IFX", "end"])
    stmt = c18.layout(r, name, c18.plain(r, True))
    rec = dict(name=name.lower(), user={}, over=[])
  else:
    name = r.choice(c18.HEAVY) if r.random() < 0.5 else r.choice(c18.BUILTIN)
    args = c18.arguments(r, c18.DB[name], name)
    stmt = c18.layout(r, r.choice([name, name, name.upper(), name.title(), gen.mixed(r, name)]), args)
    rec = dict(name=name, user={}, over=[])
  before, after, skip = AROUND.get(rec["name"], ("", "", 0))
  if r.random() < 0.3:
    before, skip = "# first\nproject(x)\n" + before, skip + 1
  rec.update(stmt=stmt, text=before + stmt + after, skip=skip)
  return rec


def configure(r, rec):
  f = gen.format_cfg(r)
  f.update(enable_sort=False, command_case=r.choice(["canonical", "lower", "upper", "unchanged"]),
           keyword_case=r.choice(["lower", "upper", "unchanged", "upper"]),
           separate_ctrl_name_with_space=r.random() < 0.5, separate_fn_name_with_space=r.random() < 0.5)
  pc = {}
  if r.random() < 0.3:
    name = rec["name"] if r.random() < 0.8 else "other_cmd"
    name = r.choice([name, name.upper(), name.title(), gen.mixed(r, name)])
    pc[name] = {r.choice(["command_case", "format.command_case"]): r.choice(["canonical", "lower", "upper", "unchanged"])}
  rec["cfg"] = {"format": f, "markup": gen.markup_cfg(r), "misc": {"per_command": pc},
                "parse": {"additional_commands": rec["user"],
                          "override_spec": {c18.over_key(o): o["v"] for o in rec["over"]}}}
  return rec


def measure(rec):
  out, _, err = fmt.run_format(rec["cfg"], rec["text"])
  rec.update(out=out, err=err)
  return rec


def work(seed):
  r = random.Random(seed)
  return measure(configure(r, make(r)))


def around(rec):
  before, after, skip = AROUND.get(rec["name"], ("", "", 0))
  stmt = rec["text"].split("\n")[0] + "\n"
  return dict(rec, stmt=stmt, text=before + stmt + after, skip=skip)


def each_work(job):
  rec, seed = job
  return measure(configure(random.Random(seed), around(rec)))


def title(args):
  """keywords and flags in another letter case"""
  return [a.title() if a.isupper() else a for a in args]


def to_case(rec):
  f = rec["cfg"]["format"]
  case = c18.to_case(rec, rec["stmt"])
  del case["ev"]
  name = rec["stmt"][:rec["stmt"].index("(")].strip()
  pc = [dict(name=k.lower(), cc=list(v.values())[0]) for k, v in rec["cfg"]["misc"]["per_command"].items()]
  case.update(nm=core.cp(name), y=core.cp(rec["out"]), skip=rec["skip"], cc=f["command_case"], kc=f["keyword_case"],
              sc=int(f["separate_ctrl_name_with_space"]), sf=int(f["separate_fn_name_with_space"]), pc=pc)
  return case


def run(check):
  recs = core.pmap(work, check.seeds(check.n(5000, 30000), "letters"))
  recs += core.pmap(each_work, [(rec, check.seed * 100003 + k) for k, rec in enumerate(c18.each(check, title))])
  check.validate(SPEC, [to_case(r) for r in recs], recs, cfg="Letters.cfg")
  for r in recs[:3]:
    check.sample({k: r[k] for k in ("text", "cfg", "out")})
  return check.finish(LEVEL, "statements of built-in, unknown and user-specified commands x random letter case, spacing and layout options; non-trivial: the name or an argument has letters whose case the options change",
                      evaluations=len(recs), distinct=len(set((r["text"], repr(r["cfg"])) for r in recs)))


def replay(check, rec):
  rec = measure(rec)
  check.validate(SPEC, [to_case(rec)], [rec], cfg="Letters.cfg")
  print(rec["text"], rec["cfg"], "-----", rec["out"], rec["err"], sep="\n")
  return check.finish(LEVEL, "replay of one case")
