"""Running the formatter under test on generated cases."""
import copy
import random

import core
import gen
from cmakelang import configuration
from cmakelang.format import __main__ as fm


def make_config(cfgd):
  return configuration.Configuration(**copy.deepcopy(cfgd))


def format_text(cfgd, text, dump=None):
  return fm.process_file(make_config(cfgd), text, dump)


def run_format(cfgd, text, dump=None):
  """-> (output text, valid, error or None)"""
  out, err = core.guarded(format_text, cfgd, text, dump)
  if err is not None:
    return "", False, err
  return out[0], bool(out[1]), None


def gen_case(seed, opts, cfgf=None, fixed=None, cls=gen.Gen):
  """A listfile and a configuration from a seed."""
  r = random.Random(seed)
  g = cls(r, **opts)
  text = g.file()
  cfgd = {"format": gen.format_cfg(r), "markup": gen.markup_cfg(r)}
  for section, values in (fixed or {}).items():
    cfgd.setdefault(section, {}).update(values)
  if cfgf:
    cfgf(r, cfgd)
  return text, cfgd
