#!/usr/bin/env python3
"""development aid: automut.py OUT.py BIN:PROP[,BIN:PROP...] N SEED FILE[:a-b]...
writes a specification for mut.py with N mechanical changes (operators, constants,
deleted statements), drawn from the given files (lines a to b) of $VERIF_REPO."""
import os, random, re, sys
out, bins, n, seed = sys.argv[1], [tuple(x.split(":", 1)) if not x.startswith("py:") else (":".join(x.split(":")[:2]), x.split(":")[2]) for x in sys.argv[2].split(",")], int(sys.argv[3]), int(sys.argv[4])
repo = os.environ.get("VERIF_REPO", "/repo")
R = [(r"<=", ["<", ">="]), (r">=", [">", "<="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
     (r"(?<![<\-=>])>(?![>=])(?=\s)", [">=", "<"]), (r"(?<![<])<(?![<=])(?=\s?[\w(\-])", ["<=", ">"]),
     (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["/"]), (r"(?<=\s)/(?=\s)", ["*"]),
     (r"\+=", ["-=", "="]), (r"-=", ["+="]), (r"\*=", ["/=", "="]), (r"\+\+", ["--"]),
     (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]),
     (r"(?<![\w.\"])\d+(?:\.\d+)?(?:e[+-]?\d+)?(?![\w.\"])", ["NUM"]),
     (r"(?<=if \()(?=[^;]*\) ?\{?$)", ["!(0) || ", "!(1) && "]),
     (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"])]
C = []
for f in sys.argv[5:]:
    rng = None
    if ":" in f: f, rng = f.split(":"); rng = tuple(map(int, rng.split("-")))
    s = open(os.path.join(repo, f)).read(); pos = 0; blk = False; call = 0
    for no, ln in enumerate(s.split("\n"), 1):
        st = ln.strip(); p0 = pos; pos += len(ln) + 1
        if blk: blk = "*/" not in st; continue
        if st.startswith("/*"): blk = "*/" not in st; continue
        if rng and not rng[0] <= no <= rng[1]: continue
        if call:  # inside a message
            call += st.count("(") - st.count(")")
            continue
        if re.match(r"(f?printf|std::fprintf|std::printf|assert|std::cerr|std::cout|puts)\b", st):
            call = st.count("(") - st.count(")"); continue
        if not st or st.startswith(("//", "#", "*", "}", "static_assert", "namespace", "using ", "template")) or "operator" in st: continue
        code = ln.split("//")[0]
        for rx, alts in R:
            for m in re.finditer(rx, code):
                if code[:m.start()].count('"') % 2 or code[:m.start()].count("'") % 2: continue
                for a in alts:
                    if a == "NUM":
                        t = m.group(0)
                        a = {"0": "1", "1": "2"}.get(t) or ("(%s+1)" % t if "." not in t and "e" not in t else "(%s*1.5+1e-3)" % t)
                    C.append((f, no, p0 + m.start(), m.group(0), a))
        if f.endswith(".py"):
            if re.match(r"\s+(?!return|break|continue|if |elif|else|for|while|def|try|except|with|raise|import|from)[A-Za-z_][\w.\[\]'\" ,]*(\(|\s*[+]?=)", ln) and code.count("(") == code.count(")") and not code.rstrip().endswith(","):
                C.append((f, no, p0 + len(ln) - len(ln.lstrip()), code.strip(), "pass"))
            m = re.match(r"\s*(?:el)?if (.*):\s*$", code) or re.match(r"\s*while (.*):\s*$", code)
            if m: C += [(f, no, p0 + m.start(1), m.group(1), "not (%s)" % m.group(1)), (f, no, p0 + m.start(1), m.group(1), "False")]
            for rx, a in ((r"\bnot ", ""), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\bbreak\b", "pass"), (r"\bcontinue\b", "pass"), (r"\braise\b.*", "pass"), (r"sys\.exit\(1\)", "sys.exit(0)")):
                for m in re.finditer(rx, code): C.append((f, no, p0 + m.start(), m.group(0), a))
        elif code.rstrip().endswith(";") and not re.match(r"(return|break|continue|case|for|const|constexpr|static|auto|double|int|char|bool|std::size_t|unsigned|long)\b", st) and code.count("(") == code.count(")") and not ln.startswith("}"):
            C.append((f, no, p0 + len(ln) - len(ln.lstrip()), code.strip(), ";"))
random.Random(seed).shuffle(C)
M = []
for f, no, p, a, b in C[:n]:
    s = open(os.path.join(repo, f)).read()
    e = s.index("\n", p); b0 = s.rindex("\n", 0, p) + 1 if "\n" in s[:p] else 0
    old = s[b0:e]; new = s[b0:p] + b + s[p + len(a):e]
    k = s[:b0].count(old)
    M.append((f, old, new, k))
print(len(C), "candidates,", len(M), "drawn")
open(out, "w").write("BINS=%r\nM=[\n%s]\n" % (bins, "".join("%r,\n" % (m,) for m in M)))
