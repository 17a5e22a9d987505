"""Collects statements, conditions and comment blocks from the CMake modules of
the installed CMake into corpus.json.gz: realistic inputs for the generators."""
import collections
import glob
import gzip
import json
import os
import random
import re
import sys

NAME = re.compile(r"[ \t]*([A-Za-z_]\w*)[ \t]*\(")
BR = re.compile(r"\[(=*)\[")


def close(text, pos):
  """The position behind the parenthesis that closes the one before pos, or None"""
  depth = 1
  while pos < len(text):
    ch = text[pos]
    if ch == "\\":
      pos += 2
      continue
    if ch == "#":
      m = BR.match(text, pos + 1)
      if m:
        pos = text.find("]" + m.group(1) + "]", pos) + len(m.group(0))
      else:
        pos = text.find("\n", pos)
        if pos < 0:
          return None
      continue
    if ch == '"':
      pos += 1
      while pos < len(text) and text[pos] != '"':
        pos += 2 if text[pos] == "\\" else 1
      pos += 1
      continue
    if ch == "[":
      m = BR.match(text, pos)
      if m:
        end = text.find("]" + m.group(1) + "]", m.end())
        if end < 0:
          return None
        pos = end + len(m.group(0))
        continue
    if ch == "(":
      depth += 1
    elif ch == ")":
      depth -= 1
      if depth == 0:
        return pos + 1
    pos += 1
  return None


def main():
  stmts = collections.defaultdict(list)
  conds = collections.defaultdict(list)
  comments = collections.defaultdict(list)
  for path in sorted(glob.glob("/usr/share/cmake*/**/*.cmake", recursive=True)):
    with open(path, encoding="utf-8", errors="ignore") as infile:
      text = infile.read()
    pos = 0
    while pos < len(text):
      m = NAME.match(text, pos)
      if m:
        end = close(text, m.end())
        if end is None:
          break
        s = text[m.start(1):end]
        low = m.group(1).lower()
        body = text[m.end():end - 1]
        shape = (low, tuple(re.findall(r"\b[A-Z][A-Z_]+\b", body)[:4]), "\n" in body, "#" in body, '"' in body, len(body) // 60)
        if len(s) <= 700:
          if low in ("if", "elseif", "while"):
            conds[shape].append(body)
          elif not low.startswith(("end", "else")) and low not in ("function", "macro", "foreach", "block"):
            stmts[shape].append(s)
        pos = end
        continue
      nl = text.find("\n", pos)
      nl = len(text) if nl < 0 else nl
      line = text[pos:nl]
      if line.lstrip().startswith("#") and not BR.match(line.lstrip()[1:]):
        block = []
        ind = len(line) - len(line.lstrip())
        while line.lstrip().startswith("#") and len(line) - len(line.lstrip()) == ind:
          block.append(line.lstrip())
          pos = nl + 1
          nl = text.find("\n", pos)
          nl = len(text) if nl < 0 else nl
          line = text[pos:nl]
        b = "\n".join(block[:12])
        comments[(len(block), len(b) // 40)].append(b)
        if not block[1:]:
          pass
        continue
      pos = nl + 1
  r = random.Random(5)

  def pick(groups, per, total):
    out = []
    for key in sorted(groups, key=str):
      vals = sorted(set(groups[key]))
      out.extend(r.sample(vals, min(per, len(vals))))
    r.shuffle(out)
    return sorted(out[:total])
  out = dict(stmts=pick(stmts, 2, 5000), conds=pick(conds, 1, 1200), comments=pick(comments, 5, 600))
  print({k: (len(v), sum(map(len, v))) for k, v in out.items()})
  path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "corpus.json.gz")
  with open(path, "wb") as raw:
    with gzip.GzipFile(fileobj=raw, mode="wb", mtime=0) as f:
      f.write(json.dumps(out, ensure_ascii=True).encode("ascii"))
  print(os.path.getsize(path))


if __name__ == "__main__":
  sys.exit(main())
