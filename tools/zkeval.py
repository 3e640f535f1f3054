"""Runs the tool built from the current tree and evaluates the generated circuit on messages."""
import json, os, re, subprocess, sys, tempfile
def cli():
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; export CARGO_TARGET_DIR=$PWD/target; cargo build -q --offline -p zk-regex-compiler --bin zk-regex >&2 && echo $CARGO_TARGET_DIR/debug/zk-regex"], capture_output=True, text=True)
    if r.returncode: print(r.stderr[-2000:]); sys.exit(99)
    return r.stdout.strip()
BIN = cli()
class Out:
    pass
def run(args, d):
    r = subprocess.run([BIN] + args, cwd=d, capture_output=True, text=True, timeout=120)
    o = Out(); o.rc, o.err, o.dir = r.returncode, r.stderr, d
    o.panicked = "panicked" in r.stderr
    o.files = {f: open(os.path.join(d, f), encoding="utf8", errors="surrogateescape").read() for f in sorted(os.listdir(d)) if f.endswith((".txt", ".circom"))}
    return o
def decomposed(parts, substrs=True, extra=None):
    d = tempfile.mkdtemp(prefix="demo")
    json.dump({"parts": [{"is_public": p, "regex_def": r} for p, r in parts]}, open(d + "/d.json", "w"))
    o = run(["decomposed", "-d", "d.json", "--halo2-dir-path", d, "-c", "o.circom", "-t", "T"] + (["-g", "true"] if substrs else []) + (extra or []), d)
    subprocess.run(["rm", "-rf", d]); return o
def raw(regex, substrs=None, args=()):
    d = tempfile.mkdtemp(prefix="demo")
    a = ["raw", "-r", regex, "-c", "o.circom", "-t", "T"] + list(args)
    if substrs is not None:
        json.dump({"transitions": substrs}, open(d + "/s.json", "w")); a += ["-s", "s.json"]
    o = run(a, d); subprocess.run(["rm", "-rf", d]); return o
def table(o):
    """(accept, max, {(state, byte): [targets]})"""
    l = o.files["allstr.txt"].splitlines()
    t = {}
    for x in l[3:]:
        a, b, c = map(int, x.split()); t.setdefault((a, c), []).append(b)
    return int(l[1]), int(l[2]), t
def accepts(o, s):
    """does the listed automaton lead to its (first) accept state?"""
    acc, _, t = table(o); q = 0
    for b in s:
        n = t.get((q, b), [])
        if len(n) != 1: return False
        q = n[0]
    return q == acc
# ---- circuit evaluation
def gate(n, k, v):
    if n == "MultiOR": return 1 - int(sum(v) == 0)
    if n == "MultiNOR": return int(sum(v) == 0)
    if n == "MultiAND": assert len(v) == k; r = 1; [r := r * x for x in v]; return r
    if n == "IsEqual": return int(v[0] == v[1])
    if n == "LessEqThan": return int(v[0] <= v[1])
    if n == "LessThan": return int(v[0] < v[1])
    if n == "ORAnd": return (v[0] | v[1]) & v[2]
    if n == "IsNotZeroAcc": return v[0] + int(v[1] != 0)
    if n == "AND": return v[0] * v[1]
    raise Exception(n)
class Arr(dict):
    """a signal or component array; an index outside of its declared size is an error"""
    def __init__(s, *dims): s.dims = dims
    def chk(s, k):
        if s.dims and not 0 <= k < s.dims[0]: raise IndexError("index %s of an array declared with %s" % (k, s.dims[0]))
    def __missing__(s, k): s.chk(k); s[k] = Arr(*s.dims[1:]); return s[k]
    def __setitem__(s, k, v):
        s.chk(k)
        if k in s and not isinstance(s[k], Arr): raise Exception("assigned twice")
        dict.__setitem__(s, k, v)
class Comp:
    def __init__(s, n, k): s.__dict__.update(n=n, k=k, in_=Arr(), a=None, b=None)
    @property
    def out(s):
        if s.n == "AND": return s.a * s.b
        v = [s.in_[i] for i in range(s.k if s.n == "MultiOR" else len(s.in_))]
        assert all(isinstance(x, int) for x in v), (s.n, v)
        return gate(s.n, s.k, v)
    def __call__(s, *a): return gate(s.n, s.k, list(a[0]) if len(a) == 1 and isinstance(a[0], list) else list(a))
def evaluate(text, msg):
    py, ind = ["def circuit(msg, msg_bytes):", " for_ = 0"], 1
    outs = []
    for l in text.split("\n"):
        l = l.split("//")[0].strip()
        l = re.sub(r"\b(and|in)\b", r"\1_", l) if not l.startswith("for") else l
        if not l or l.startswith(("pragma", "include", "template")): continue
        m = re.fullmatch(r"for \(var (\w+) = (\w+); \w+ (<=?) (.*); \w+\+\+\) \{", l)
        if m: py.append(" " * ind + "for %s in range(%s, (%s)%s):" % (m[1], m[2], m[4], "+1" if m[3] == "<=" else "")); ind += 1; continue
        if l == "}": ind -= 1; continue
        assert l.endswith(";"), l
        l = l[:-1]
        m = re.fullmatch(r"(?:signal|component)(?: input| output)? (\w+)(.*?)( = .*| <== .*)?", l)
        if m:
            if m[1] == "msg": continue
            if " output " in l: outs.append(m[1])
            if m[3]: py.append(" " * ind + m[1] + " = " + m[3].split("=", 1)[1].lstrip("= "))
            elif m[2]: py.append(" " * ind + m[1] + " = Arr(%s)" % ", ".join(re.findall(r"\[([^\]]*)\]", m[2])))
            else: py.append(" " * ind + m[1] + " = None")
            continue
        l = re.sub(r"^var ", "", l)
        if "===" in l: a, b = l.split("==="); py.append(" " * ind + "assert (%s) == (%s)" % (a, b)); continue
        a, b = re.split(r"<==| = ", l, maxsplit=1)
        py.append(" " * ind + "%s = %s" % (a, b))
    py.append(" return {%s}" % ", ".join("%r: %s" % (o, o) for o in outs))
    env = {"Arr": Arr}
    for n in ("MultiOR", "MultiNOR", "MultiAND", "IsEqual", "LessEqThan", "LessThan", "ORAnd", "IsNotZeroAcc", "AND"):
        env[n] = (lambda n: lambda k=None: Comp(n, k))(n)
    exec("\n".join(py), env)
    return env["circuit"](list(msg), len(msg))
def circuit(o, msg, size=None):
    m = list(msg) + [0] * ((size or len(msg)) - len(msg))
    r = evaluate(o.files["o.circom"], m)
    return {k: (v if isinstance(v, int) else bytes(v[i] for i in range(len(m)))) for k, v in r.items()}
