#!/usr/bin/env python3
"""Writes HARNESSES.md: every harness, its inputs with their bounds, its options. Generated from the harness sources."""
import os, re, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
import json
titles = {}
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l); titles[p["id"]] = p["title"]

def calls(src):
    out = []
    for m in re.finditer(r"\b(vsym|lib)\.(Int|I32|U8|U16|U32|Bool|Bytes|Choice|Pick|Coord)\(", src):
        i, d = m.end(), 1
        while d and i < len(src):
            d += {"(": 1, ")": -1}.get(src[i], 0); i += 1
        out.append(m.group(2) + "(" + src[m.end():i-1] + ")")
    return out

def body(src, start):
    i = src.index("{", start); d = 0; j = i
    while j < len(src):
        if src[j] == "{": d += 1
        if src[j] == "}":
            d -= 1
            if d == 0: break
        j += 1
    return src[i:j+1]

o = ["# Harnesses, inputs and bounds", "",
 "Generated by tools/harnesslist.py. `Choice(n)` inputs are enumerated by forking, every other input is a solver variable over the whole range given.",
 "Inputs of helper functions in the same file are listed with the harness that calls them. `tier=thorough` harnesses run in the thorough command only;",
 "`vsym.Thorough()` widens some ranges further there.", ""]
for d in sorted(glob.glob(os.path.join(root, "harness", "C[0-9][0-9]"))):
    c = os.path.basename(d)
    if c not in titles: continue
    o += ["## " + c + ": " + titles[c], ""]
    srcs = {f: open(f).read() for f in sorted(glob.glob(d + "/*/*.go"))}
    funcs = {}
    for f, s in srcs.items():
        for m in re.finditer(r"((?:^//.*\n)*)^func (?:\([^)]*\) )?([A-Za-z0-9_]+)\(", s, re.M):
            funcs[m.group(2)] = (m.group(1), body(s, m.end()) if "{" in s[m.end():] else "")
    def inputs(name, seen):
        if name in seen: return []
        seen.add(name)
        b = funcs[name][1]
        r = calls(b)
        for h in re.findall(r"\b([a-z][A-Za-z0-9_]*)\(", b):
            if h in funcs: r += inputs(h, seen)
        return r
    for n, (doc, b) in funcs.items():
        if not re.match(r"H[A-Z]", n): continue
        opts = " ".join(re.findall(r"^//vsym:(.*)$", doc, re.M))
        text = " ".join(x[2:].strip() for x in doc.splitlines() if not x.startswith("//vsym:")).strip()
        text = re.sub(r"^" + n + r": ", "", text)
        ins = []
        for i in inputs(n, set()):
            i = re.sub(r"\s+", " ", i)
            if i not in ins: ins.append(i)
        o.append(f"- **{n}** {text}" + (f" [{opts}]" if opts else ""))
        if ins: o.append("  `" + "; ".join(ins) + "`")
    o.append("")
open(os.path.join(root, "HARNESSES.md"), "w").write("\n".join(o) + "\n")
