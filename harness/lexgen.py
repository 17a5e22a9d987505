"""Texts for the lexer properties (inputs only)."""
import itertools

ALPHA = ["a", " ", "\n", "\"", "\\", "#", "[", "]", "=", "(", ")", "$", "@", "1", "\r", "'"]

PIECES = [" ", " ", " ", "\n", "\n", "\t", "  ", "\r\n", "\r", "(", ")", "(", ")",
          "foo", "set", "A_B", "x1", "_", "42", "-7", "3.5", "1a", "${v}", "${a_1}", "$ENV{H}", "@W@", "@w", "@1@",
          "$(MK)", "a\\;b", "\\\"", "\\ ", "a\\\\", "-I\"x y\"", "a=\"b(c\"", "x\"y\"z",
          "\"q\"", "\"q q\"", "\"\"", "\"e\\\"x\"", "\"m\nn\"", "\"#n\"", "\"(\"", "\"[[\"", "\"é\"",
          "[[b]]", "[=[b]]]=]", "[[m\nn]]", "[==[]=]]==]", "[[\"]]", "[[#]]", "[[]]", "[=[\r\n]=]",
          "# c", "#", "# c \"q", "## x", "#[ x", "#[=x", "# [[z", "#c\t", "# é ü",
          "#[[bc]]", "#[=[b\n]]c]=]", "#[[#]]", "#[[é\n\"]]",
          "# cmake-format: off", "# cmake-format: on", "#cmf: off", "#\tcmf: on", "# cmf: off x", "# cmf off",
          "x# cmf: on", "# cmake-format: sort", "\"# cmf: off\"", "[[# cmf: on]]",
          "\"a\\.b\"", "\"\\(\\)\"", "\"[^\\\\]\\+\"", "\"\\\n\"", "\"x\\\\\"", "a\\.b", "\\(x", "a\\#b", "a\\[b", "\\$\\{x", "\\t", "a\\@b\\;",
          "[", "]", "[=", "=", "==", "a]", "[a", "]]", "^x", "`x", "é", "日本", "𝒳y", "a b",
          "'s q'", "'", "don't", "'x'y", "$", "$<A:B>", "$<$<C:D>:E;F>", "a.b/c", "*.c", "/", "~", "!", "%", "{", "}", "|",
          ";", ",", "a,b", "+", "&", "<", ">", "?", ":", "--x=y", "0x1F", "١"]


def legacy(r):
  """an unquoted argument put together of the elements the grammar names"""
  out = ""
  for _ in range(r.choice([1, 1, 2, 3, 5])):
    x = r.random()
    if x < 0.3:
      out += r.choice(["a", "-I", "x1", "_", "-D", "é", "/", ".", "=", ";", "a,b", "@", "$", "{", "}", "[", "]", "'"])
    elif x < 0.55:
      out += "$(" + "".join(r.choice("aZ_09b") for _ in range(r.choice([1, 2, 4, 8]))) + ")"
    elif x < 0.7:
      out += "${" + "".join(r.choice("aZ_09b/.+-") for _ in range(r.choice([1, 3, 6]))) + "}"
    elif x < 0.85:
      out += ("a" if not out else "") + '"' + "".join(r.choice(["x", " ", "(", ")", "#", "\\\"", "\\\\", "\n", "[[", "'"]) for _ in range(r.choice([0, 1, 3]))) + '"'
    else:
      out += "\\" + r.choice(list(" ;\"\\()#$@^nrt.[]'") + ["\t"])
  return out


def near_switch(r):
  """a comment that is a switch, or nearly one"""
  return r.choice(["#", "#", "#", "##", "#!", "#-", "# #", "# x"]) + r.choice(["", " ", " ", "  ", "\t"]) + r.choice(
      ["cmake-format", "cmf", "Cmf", "CMAKE-FORMAT", "cmake-format ", "cmake_format", "cmake-lint", "xcmf", "cmff"]) + r.choice(
          [": ", ": ", ": ", ":", " : ", ":  ", " "]) + r.choice(["off", "on", "off", "on", "OFF", "Off", "ON", "o", "of", "sort", "tag"]) + r.choice(
              ["", "", "", " ", "x", " # y", "\t", ".", "=1"])


def short_texts(n):
  """all texts of length <= n over the alphabet"""
  out = []
  for k in range(n + 1):
    out += ["".join(x) for x in itertools.product(ALPHA, repeat=k)]
  return out


def piece_text(r, lo=1, hi=25, sep=0.5):
  out = ""
  if r.random() < 0.08:
    out = "\ufeff"
  for _ in range(r.randint(lo, hi)):
    x = r.random()
    out += legacy(r) if x < 0.12 else near_switch(r) if x < 0.18 else r.choice(PIECES)
    if r.random() < sep:
      out += r.choice([" ", " ", "\n", "\t"])
  return out
