#!/usr/bin/env python3
"""tools/mutate.py PROPERTY N SEED GLOB...: plants N random one-place changes in the files (of a scratch copy of /repo's HEAD),
runs the check of the property on each and lists the changes it does not see, to be judged by hand.
A development tool: no check uses it."""
import glob, os, random, re, subprocess, sys, time

prop, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUT_DIR", "/tmp/mutwork/" + prop)
os.makedirs(W, exist_ok=True)
repo = W + "/repo"
if not os.path.isdir(repo + "/.git"):
    subprocess.check_call(["git", "clone", "-q", "--shared", os.environ.get("MUT_BASE", "/repo"), repo])
subprocess.check_call("git -C %s fetch -q origin && git -C %s reset -q --hard origin/HEAD" % (repo, repo), shell=True)
env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=os.environ.get("MUT_BUILD", "/tmp/mutwork/build"), VERIF_SHRINK="0")
files = []
for g in sys.argv[4:]:
    files += [f for f in glob.glob(repo + "/" + g, recursive=True) if f.endswith((".h", ".cpp"))]
rnd = random.Random(seed)

def code_lines(text):
    """the lines that hold code: (index, code part without comments and strings blanked)"""
    out, inc = [], False
    for i, l in enumerate(text.split("\n")):
        s = l
        if inc:
            if "*/" in s:
                s = " " * (s.index("*/") + 2) + s[s.index("*/") + 2:]
                inc = False
            else:
                continue
        s = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group()), s)
        if "/*" in s:
            s = s[:s.index("/*")]
            inc = True
        s = s.split("//")[0]
        s = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "#" * (len(m.group()) - 2) + '"', s)
        if s.strip() and not s.lstrip().startswith(("#", "using ", "namespace", "template", "class ", "struct ", "public:", "private:", "protected:", "friend", "return *this")):
            out.append((i, s))
    return out

OPS = [
    (r"(?<![<>=!+\-*/&|])<(?![<=])(?=\s)", lambda m: "<="), (r"<=", lambda m: "<"), (r"(?<=\s)>(?![>=])(?=\s)", lambda m: ">="), (r">=", lambda m: ">"),
    (r"==", lambda m: "!="), (r"!=", lambda m: "=="), (r"&&", lambda m: "||"), (r"\|\|", lambda m: "&&"),
    (r"(?<=\s)\+(?=\s)", lambda m: "-"), (r"(?<=\s)-(?=\s)", lambda m: "+"), (r"(?<=\s)\*(?=\s)", lambda m: "/"), (r"(?<=\s)/(?=\s)", lambda m: "*"),
    (r"\+=", lambda m: rnd.choice(["-=", "="])), (r"-=", lambda m: "+="), (r"\btrue\b", lambda m: "false"), (r"\bfalse\b", lambda m: "true"),
    (r"(?<![\w.])\d+(?![\w.])", lambda m: str(int(m.group()) + rnd.choice([1, -1])) if int(m.group()) > 0 else "1"),
    (r"(?<![\w.])\d+\.\d+(?![\w.])", lambda m: repr(float(m.group()) + rnd.choice([1, -1, .001]))),
    (r"\b(left|right|Left|Right|LEFT|RIGHT)\b", lambda m: {"left": "right", "right": "left", "Left": "Right", "Right": "Left", "LEFT": "RIGHT", "RIGHT": "LEFT"}[m.group()]),
    (r"(?<=[a-z])(Left|Right)", lambda m: {"Left": "Right", "Right": "Left"}[m.group()]),
    (r"\[i\]", lambda m: "[j]"), (r"\[j\]", lambda m: "[i]"), (r"\(i, j\)", lambda m: "(j, i)"),
    (r"!(?=[a-zA-Z(])", lambda m: ""), (r"(?<=\()([^()]*[a-z_]\w*)(?=\)\s*\{)", None),
    (r"\bstd::min\b", lambda m: "std::max"), (r"\bstd::max\b", lambda m: "std::min"), (r"\bbreak;", lambda m: ";"), (r"\bcontinue;", lambda m: ";"),
]
def mutate(path):
    text = open(path).read()
    lines = text.split("\n")
    cl = [c for c in code_lines(text) if "assert" not in c[1] and "logger" not in c[1]]
    if not cl:
        return None
    for _ in range(40):
        i, s = rnd.choice(cl)
        cand = []
        for r, f in OPS:
            if f is None:
                continue
            for m in re.finditer(r, s):
                cand.append((m, f))
        if re.match(r"^\s+[\w\->.\[\]()*&]+( [+\-*/]?= .*|\(.*\));\s*$", s) and not re.match(r"^\s*(return|const|auto|std::size_t|double|int|bool)\b", s):
            cand.append(("delete", None))
        if not cand:
            continue
        m, f = rnd.choice(cand)
        new = list(lines)
        if m == "delete":
            new[i] = "    ;"
        else:
            new[i] = lines[i][:m.start()] + f(m) + lines[i][m.end():]
        if new[i] == lines[i]:
            continue
        return text, "\n".join(new), "%s:%d\n  - %s\n  + %s" % (os.path.relpath(path, repo), i + 1, lines[i].strip(), new[i].strip())
    return None

log = open(W + "/log", "a")
caught = survived = invalid = 0
done = set()
while caught + survived < n and invalid < 6 * n:
    f = rnd.choice(files)
    r = mutate(f)
    if not r or r[2] in done:
        invalid += 1
        continue
    done.add(r[2])
    open(f, "w").write(r[1])
    t = time.time()
    p = subprocess.run(["timeout", "900", sys.executable, VERIF + "/check.py", prop] + os.environ.get("MUT_ARGS", "").split(), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    open(f, "w").write(r[0])
    if p.returncode == 2 and "BUILD FAILED" in p.stdout:
        invalid += 1
        continue
    if p.returncode == 1:
        caught += 1
        what = "caught"
    else:
        survived += 1
        what = "SURVIVED" if p.returncode == 0 else "EXIT %d %s" % (p.returncode, p.stdout[-300:])
    log.write("%s %.0fs %s\n" % (what, time.time() - t, r[2]))
    log.flush()
print("%s: caught %d, survived %d, did not compile %d" % (prop, caught, survived, invalid))
