#!/usr/bin/env python3
"""Stand-in for scripts/helpers/refactor.exe (a Windows program): renames words and name prefixes in a file as its specification says."""
import re, sys
arg = dict(a.lstrip("-").split("=", 1) for a in sys.argv[1:] if "=" in a)
words, spaces, keep, incl = {}, [], set(), {}
for l in open(arg["spec"], encoding="latin-1"):
    l = l.split("//")[0].strip()
    m = re.match(r"(not\s+)?(word|namespace|include)\s+([^,\s]+)\s*(?:,\s*(\S+))?", l)
    if not m: continue
    no, kind, a, b = m.groups()
    if no: keep.add((kind, a))
    elif kind == "word": words[a] = b
    elif kind == "namespace": spaces.append((a, b))
    else: incl[a] = b
s = open(arg["src"], encoding="latin-1", newline="").read()
def one(m):
    w = m.group(0)
    if ("word", w) in keep: return w
    if w in words: return words[w]
    for a, b in spaces:
        if w.startswith(a): return b + w[len(a):]
    return w
s = re.sub(r"[A-Za-z0-9_]+", one, s)
open(arg["src"], "w", encoding="latin-1", newline="").write(s)
