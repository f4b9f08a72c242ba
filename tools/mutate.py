"""Sensitivity study: mechanical mutants of the headers, kept if the repository's own
tests pass, run against the checks until one reports. Development tool, used by no check.
  mutate.py OUT.log FILE_REGEX MAX [SEED]   (works on a clone in /tmp/mut/repo)"""
import json, os, random, re, subprocess, sys
OUT, FRE, MAX = sys.argv[1], re.compile(sys.argv[2]), int(sys.argv[3])
rnd = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUTREPO", "/tmp/mut/repo")
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if not os.path.exists(W):
    sh("git clone -q /repo " + W)
sh("git -C %s fetch -q; git -C %s reset -q --hard origin/HEAD" % (W, W))
etr = W + ".etr.py"
s = open("/opt/vp/etr/etr.py").read().replace('REPO = "/repo"', 'REPO = "%s"' % W).replace('HERE = os.path.dirname(os.path.abspath(__file__))', 'HERE = "/opt/vp/etr"')
open(etr, "w").write(s)
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
RM = os.environ.get("MUTR")  # the code of the R mode
SKIP = re.compile(r"Header|Concepts|Reflection" + ("" if RM else "|SEXP|Distri"))
ORDER = [("", "C27 C28")] if RM else [
    ("BinaryCalc", "C03 C01 C02 C14 C23 C18"), ("UnaryCalc", "C16 C15 C03 C23"), ("Interpol", "C19 C20 C26 C11 C23"),
    ("Coca", "C13 C02 C11 C23"), ("Printing", "C21"), ("Derivatives|DerivativeCalc", "C17 C18 C23 C24"),
    ("Colon|Rep|Matrix.hpp|Allocation/Vector", "C13 C26 C03 C11 C18 C23"), ("AllocationUtils", "C13 C26 C11"),
    ("Subsetting|at.hpp|SubsetClass", "C07 C08 C09 C10 C11 C26 C04 C14"),
    ("BaseStore", "C22 C06 C05 C11 C23 C24"), ("Borrow", "C12 C06 C05 C11 C22 C23"),
    ("", "C05 C03 C06 C12 C09 C18 C01 C11 C14 C21 C23 C26"),
]
REL = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}
def muts(line):
    out = []
    code = line.split("//")[0]
    if not code.strip() or code.lstrip().startswith(("#", "*", "/*", "template", "requires", "using", "static_assert", "concept", "ass(", "warn(")) \
            or "<<" in code or "operator" in code or "concept" in code or "constexpr" in code and "if" not in code:
        return out
    st = re.sub(r'"[^"]*"', lambda m: "~" * len(m[0]), code)
    for m in re.finditer(r" (<=|>=|==|!=|<|>) ", st):
        out.append(line[:m.start(1)] + REL[m[1]] + line[m.end(1):])
    for m in re.finditer(r" ([+\-*/%]) ", st):
        r = {"+": "-", "-": "+", "*": "+", "/": "*", "%": "-"}[m[1]]
        if m[1] == "*" and ("const" in st or "&" in st):
            continue
        out.append(line[:m.start(1)] + r + line[m.end(1):])
    for m in re.finditer(r"(&&|\|\|)", st):
        out.append(line[:m.start()] + ("||" if m[0] == "&&" else "&&") + line[m.end():])
    for m in re.finditer(r"(?<![\w.])(\d+(?:\.\d+)?)(?![\w.])", st):
        v = m[1]
        for r in ({"0": ["1"], "1": ["0", "2"]}.get(v, [v + "+1"]) if "." not in v else [v + "*1.01", "1.0"]):
            out.append(line[:m.start()] + r + line[m.end():])
    for m in re.finditer(r"\b(true|false)\b", st):
        out.append(line[:m.start()] + ("false" if m[0] == "true" else "true") + line[m.end():])
    for m in re.finditer(r"!(?=[\w(])", st):
        out.append(line[:m.start()] + line[m.end():])
    for m in re.finditer(r"\+\+|--", st):
        out.append(line[:m.start()] + ("--" if m[0] == "++" else "++") + line[m.end():])
    if re.match(r"^\s*(?!return|throw|break|continue|using|static|const|auto|std::size_t|int|double|bool|T |friend|default|public|private|else|if|for|while|case)[\w>\-.:\[\]*()]+.*;\s*$", code) and code.count("(") == code.count(")"):
        out.append(re.match(r"^\s*", line)[0] + ";")
    if re.match(r"^\s*(break|continue);", code):
        out.append(re.match(r"^\s*", line)[0] + ";")
    return [x for x in out if x != line]
SWAPS = [("nr", "nc"), ("rows", "cols"), ("row", "col"), ("l", "r"), ("L", "R"), ("TyL", "TyR"), ("nrow", "ncol"), ("nrows", "ncols"), ("sz", "capacity"),
         ("min_", "max_"), ("ceil", "floor"), ("begin", "end"), ("double", "int"), ("idxL", "idxR"), ("start", "end"), ("ismatrix", "false")]
def muts2(line):  # second set of operators: exchanged names, narrower types, weaker conditions
    code = line.split("//")[0]
    if not code.strip() or code.lstrip().startswith(("#", "*", "/*", "template", "requires", "using", "concept")):
        return []
    st = re.sub(r'"[^"]*"', lambda m: "~" * len(m[0]), code)
    out = []
    for a, b in SWAPS:
        for x, y in ((a, b), (b, a)):
            for m in re.finditer(r"(?<![\w:])%s(?!\w)" % re.escape(x), st):
                out.append(line[:m.start()] + y + line[m.end():])
    for m in re.finditer(r"std::size_t (?=\w+ = )", st):
        out.append(line[:m.start()] + "unsigned char " + line[m.end():])
        out.append(line[:m.start()] + "static std::size_t " + line[m.end():])
    for m in re.finditer(r"const (?:auto|std::size_t|double|int|T) (?=\w+ = )", st):
        out.append(line[:m.start()] + "static " + line[m.start():])
    for m in re.finditer(r"static_cast<[\w:]+>", st):
        out.append(line[:m.start()] + line[m.end():])
    for m in re.finditer(r"\.size\(\)", st):
        out.append(line[:m.start()] + ".size() - 1" + line[m.end():])
        out.append(line[:m.start()] + ".size() % 256" + line[m.end():])
    if re.search(r"\b(ass|warn|if)\s*\(", st):
        for m in re.finditer(r"(&&|\|\|) *[^&|]+?(?=(&&|\|\||\) *\{|,))", st):
            y = line[:m.start()] + line[m.end():]
            if y.count("(") == y.count(")"):
                out.append(y)
        for m in re.finditer(r" (<=|>=|==|!=|<|>) ", st):
            out.append(line[:m.start(1)] + REL[m[1]] + line[m.end(1):])
    if code.rstrip().endswith(";") and re.match(r"^\s*(return|ret|res|d|p|sz|temp|capacity|allocated|mp|this)\b", code) and not code.lstrip().startswith("return;"):
        out.append(line + " " + re.match(r"^\s*", line)[0].strip() + line.strip() if "return" not in code and "std::" not in code else line)
    return [x for x in out if x != line]
if os.environ.get("MUT2"):
    muts = muts2
cands = []
for d, _, fs in sorted(os.walk(W + "/include/etr_bits")):
    for f in sorted(fs):
        p = os.path.join(d, f)
        if SKIP.search(p) or not FRE.search(p):
            continue
        skip = 0
        depth = []
        for n, l in enumerate(open(p).read().split("\n")):
            t = l.strip()
            if t.startswith("#if"):
                depth.append("STANDALONE" if "STANDALONE_ETR" in t and "ifdef" in t else "x")
            elif t.startswith("#else") and depth and depth[-1] == "STANDALONE":
                depth[-1] = "R"
            elif t.startswith("#endif") and depth:
                depth.pop()
            if ("R" in depth or bool(re.search("SEXP|Distri", p))) != bool(RM):
                continue
            if t.startswith(("ass(", "warn(")) and t.endswith(";"):
                cands.append((p, n, l, re.match(r"^\s*", l)[0] + ";"))
            for x in muts(l):
                cands.append((p, n, l, x))
rnd.shuffle(cands)
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        done.add(l.split("\t")[1])
log = open(OUT, "a")
cnt = 0
for p, n, l, x in cands:
    key = "%s:%d:%s" % (os.path.relpath(p, W), n + 1, x.strip())
    if key in done:
        continue
    done.add(key)
    cnt += 1
    if cnt > MAX:
        break
    src = open(p).read()
    ls = src.split("\n")
    ls[n] = x
    open(p, "w").write("\n".join(ls))
    def res(s):
        log.write("%s\t%s\twas: %s\n" % (s, key, l.strip()))
        log.flush()
    try:
        b = RM or sh("nice python3 -B %s build" % etr)
        if not RM and b.returncode:
            res("NOBUILD")
            continue
        t = RM or sh("nice timeout 100 python3 -B %s test %s.json" % (etr, W))
        try:
            ok = set(json.load(open(W + ".json"))["passed"])
        except Exception:
            ok = set()
        if not RM and any(q not in ok for q in stable):
            res("TESTS")
            continue
        checks = next(c for r, c in ORDER if re.search(r, p)).split()
        hit = None
        for c in checks:
            r = sh("nice timeout 900 python3 %s/bin/check.py %s --quick" % (V, c), env=dict(os.environ, ETR_REPO=W))
            if r.returncode == 1 and "VIOLATION" in r.stdout:
                hit = c
                break
            if r.returncode:
                hit = c + "?rc%d" % r.returncode
                if "compilation" in r.stdout + r.stderr:
                    hit += "compile"
                break
        res(("CAUGHT " + hit) if hit else "SURVIVED")
        for f in os.listdir(V + "/build"):
            q = os.path.join(V, "build", f)
            if os.path.isfile(q) and ".lock" not in f and f.count(".") == 1 and open("/dev/null") and os.path.getmtime(q) < __import__("time").time() - 1800:
                try:
                    os.unlink(q)
                except OSError:
                    pass
    finally:
        open(p, "w").write(src)
print("done")
