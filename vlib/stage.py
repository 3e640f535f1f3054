"""Contract stage: extract the functions from /repo's current sources (vx), attach the contracts of /verif/contracts,
hand the result to Verus and classify its answer.  See DESIGN.md, section "Contract stage"."""
import json, os, re, subprocess, sys, threading, time, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
CON = os.path.join(VERIF, "contracts")
REPO = os.environ.get("VX_REPO", "/repo")
VERUS = "/opt/veriftools/verus/verus"
SETS = {
    "compiler": ["packages/compiler/src/%s.rs" % x for x in ("structs", "errors", "regex", "circom", "halo2", "lib", "wasm", "bin/compiler")],
    "closed": ["packages/compiler/src/%s.rs" % x for x in ("structs", "errors", "regex", "circom", "halo2", "lib")],
    "apis": ["packages/apis/src/%s.rs" % x for x in ("padding", "extract_substrs", "wasm")],
}
from vlib import textsem, gates

# ---------------------------------------------------------------- contract files
class Con:
    def __init__(s, name, group):
        s.name, s.group, s.props, s.req, s.ens, s.at, s.attr, s.file, s.theory, s.types, s.panics = name, group, [], "", "", {}, [], None, [], {}, False
def load_contracts():
    cons = {}
    for f in sorted(os.listdir(CON)):
        if not f.endswith(".vc"): continue
        group = "apis" if f.startswith("apis") else "closed" if f.startswith("closed") else "compiler"
        cur, sect = None, None
        for line in open(os.path.join(CON, f)):
            line = line.rstrip("\n")
            if line and not line[0].isspace():
                if line.startswith("//"): continue
                w = line.split()
                if w[0] == "fn":
                    cur = Con(w[1], group); cur.file = f; cons[(group, w[1])] = cur; sect = None
                elif w[0] == "props": cur.props = w[1:]
                elif w[0] == "type": cur.types[w[1]] = " ".join(w[2:])
                elif w[0] == "panics": cur.panics = True
                elif w[0] == "attr": cur.attr.append(line[5:])
                elif w[0] == "theory": cur.theory = w[1:]
                elif w[0] in ("req", "ens"): sect = w[0]
                elif w[0] == "at": sect = w[1]; cur.at.setdefault(sect, "")
                else: raise Exception("%s: %s" % (f, line))
            elif cur is not None and sect:
                if sect == "req": cur.req += line + "\n"
                elif sect == "ens": cur.ens += line + "\n"
                else: cur.at[sect] += line + "\n"
    for (g, n), c in list(cons.items()):      # contracts shared with the group of C11
        if g == "compiler" and "C11" in c.props: cons[("closed", n)] = c
    return cons

# ---------------------------------------------------------------- extraction
def vx_bin(): return os.path.join(BUILD, "vxt", "debug", "vx")
_lock = threading.Lock()
def setup():
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    from vlib import build
    with open(os.path.join(BUILD, "vx.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = build.env(); env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "vxt")
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(VERIF, "vx"), env=env, capture_output=True, text=True)
    return r.returncode == 0, r.stderr
def fmt(text):
    text = re.sub(r'vx_mark ! \("([^"]*)"\)', r'vx_mark!("\1")', text)
    r = subprocess.run(["rustfmt", "--edition", "2021", "--config", "max_width=160,use_small_heuristics=Max"], input=text, capture_output=True, text=True)
    return r.stdout if r.returncode == 0 and r.stdout else None
def extract(group, pid):
    out = os.path.join(BUILD, "run", "vx-%s-%s.json" % (pid, os.getpid()))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    files = [os.path.join(REPO, f) for f in SETS[group]]
    # every source file of the crate that is not one of the wasm or binary front ends is looked at, so that a moved
    # function is still found
    d = os.path.dirname(files[0])
    for x in sorted(os.listdir(d)):
        p = os.path.join(d, x)
        if x.endswith(".rs") and x != "wasm.rs" and p not in files: files.append(p)
    r = subprocess.run([vx_bin(), out] + [f for f in files if os.path.exists(f)], capture_output=True, text=True)
    if r.returncode: raise Exception("vx: " + r.stderr[-500:])
    d = json.load(open(out)); os.remove(out)
    return d

# ---------------------------------------------------------------- identifiers renamed consistently since the contracts were written
IDT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*|\"(?:[^\"\\]|\\.)*\"|\d[\w.]*|\S")
def rename_map(base, cur):
    """a bijective renaming of identifiers that turns the baseline text into the current one, if there is one (literals may differ)"""
    a, b = IDT.findall(base), IDT.findall(cur)
    if len(a) != len(b): return None
    m, inv = {}, {}
    for x, y in zip(a, b):
        idx, idy = re.match(r"[A-Za-z_]", x) is not None, re.match(r"[A-Za-z_]", y) is not None
        if idx != idy: continue
        if not idx: continue
        if x == y:
            if inv.get(y, x) != x or m.get(x, x) != y: return None
            m[x] = x; inv[y] = x; continue
        if x.startswith("vx_") or y.startswith("vx_"):
            continue
        if m.get(x, y) != y or inv.get(y, x) != x: return None
        m[x] = y; inv[y] = x
    return {k: v for k, v in m.items() if k != v}
def apply_map(text, m):
    if not m: return text
    return re.sub(r"(?<![\w.])([A-Za-z_]\w*)", lambda k: m.get(k.group(1), k.group(1)), text)

def inline_helpers(f, fns, cons, group): return f

# ---------------------------------------------------------------- emission
def split_named(sig_end_text, i):
    # i points just after 'vx_named<'; returns the end of the matching '>'
    d, j = 1, i
    while d:
        c = sig_end_text[j]
        if c == "<": d += 1
        elif c == ">" and sig_end_text[j - 1] != "-": d -= 1
        j += 1
    return j
def emit_fn(f, con, text, body, vac=None):
    """returns (verus text, list of lost anchors)"""
    j = text.index("vx_named<"); k = split_named(text, j + 9)
    head, ret, rest = text[:j], text[j + 9:k - 1], text[k:]
    spec = ""
    if con:
        if con.req.strip(): spec += "    requires\n" + con.req
        if con.ens.strip(): spec += "    ensures\n" + con.ens
    if not body:
        return "#[verifier::external_body]\n%s(vx_r: %s)\n%s{ unimplemented!() }\n" % (head, ret, spec), []
    at = dict(con.at) if con else {}
    for v, ty in (con.types if con else {}).items():
        rest = re.sub(r"\blet mut %s(?:: (?:Vec|VMap|VSet|Option)<_(?:, _)?>)? =" % v, "let mut %s: %s =" % (v, ty), rest)
        rest = re.sub(r"\blet %s(?:: (?:Vec|VMap|VSet|Option)<_(?:, _)?>)? =" % v, "let %s: %s =" % (v, ty), rest)
    # a JavaScript array is changed through a shared reference; here it is a value with one owner (see prelude.rs)
    rest = re.sub(r"\blet (\w+) = Array::new", r"let mut \1 = Array::new", rest)
    if con and con.panics:    # a panic of this function reports an error (see its contract file): what holds is what holds when it returns
        rest = rest.replace(".unwrap()", ".vx_must()").replace("vx_panic", "vx_stop").replace("vx_unreachable", "vx_stop")
    lost = []
    loops = f["loops"]
    seen = set()
    for n in range(loops):
        m = re.search(r"\{\s*vx_mark!\(\"loop%d\.inv\"\);" % n, rest)
        if not m: lost.append("loop%d" % n); continue
        inv, dec = "", ""
        if ("vx_it%d.len()" % n) in rest:
            inv = "vx_i%d <= vx_it%d.len(),\n" % (n, n); dec = "vx_it%d.len() - vx_i%d" % (n, n)
        elif ("while vx_i%d < vx_n%d" % (n, n)) in rest:
            dec = "vx_n%d - vx_i%d" % (n, n)
        user = at.pop("loop%d.inv" % n, "")
        um = re.search(r"^\s*decreases\b(.*)", user, re.M | re.S)
        if um: dec = um.group(1).strip().rstrip(","); user = user[:um.start()]
        ue = re.search(r"^\s*ensures\b(.*)", user, re.M | re.S)
        ens = ""
        if ue: ens = "ensures " + ue.group(1); user = user[:ue.start()]
        ux = re.search(r"^\s*except_break\b(.*?)^\s*always\b", user, re.M | re.S)
        exb = ""
        if ux: exb = "invariant_except_break\n" + ux.group(1); user = user[ux.end():]
        inv += user
        t = ""
        if exb: t += exb
        if inv.strip(): t += "\ninvariant\n" + inv
        t += ens
        if dec: t += "\ndecreases " + dec
        rest = rest[:m.start()] + "\n" + t + "\n{" + rest[m.end():]
    def rep(m):
        seen.add(m.group(1))
        x = at.get(m.group(1), "")
        if vac and m.group(1) == vac: x += "\nproof { assert(false); }\n"
        return x
    rest = re.sub(r'vx_mark!\("([^"]*)"\);', rep, rest)
    for a in at:
        if a not in seen: lost.append(a)
    attrs = ["#[verifier::loop_isolation(false)]", "#[verifier::allow_complex_invariants]", "#[verifier::exec_allows_no_decreases_clause]"] + (con.attr if con else [])
    return "%s\n%s(vx_r: %s)\n%s%s" % ("\n".join(attrs), head, ret, spec, rest.rstrip()) + "\n", lost

GATED = ("C08", "C09", "C10", "C13")
GATES_FILE = "packages/circom/circuits/regex_helpers.circom"
def build_file(pid, group, d, cons, bodies, baseline, vac=None):
    """bodies: names of the functions to be verified; returns (text, line ranges, info)"""
    textsem.CLOSED = group == "closed"
    fns = {f["name"]: f for f in d["functions"]}
    need, todo = set(), list(bodies)
    texts = {}
    info = {"value_holes": {}, "lost": {}, "missing": [], "unsupported": {}, "renamed": {}, "unknown_callee": {}, "unknown_text": {}}
    while todo:
        n = todo.pop()
        if n in need: continue
        if n not in fns: info["missing"].append(n); continue
        need.add(n)
        if n in bodies:
            for c in fns[n]["calls"]:
                if c in fns: todo.append(c)
    theory = []
    for n in bodies:
        for t in (cons[(group, n)].theory if (group, n) in cons else []):
            if t not in theory: theory.append(t)
    if pid in GATED:
        for t in ("graph", "circ", "gates"):
            if t not in theory: theory.append(t)
    out = [open(os.path.join(CON, "prelude.rs")).read()]
    alltypes = {}
    for t in d["types"]:
        alltypes.setdefault(t["name"], t)
    for t in alltypes.values():
        tt = fmt(t["text"]) or t["text"]
        if t["name"].endswith("Error") and "derive" not in tt: tt = "#[derive(Debug)]\n" + tt + "\nimpl VxFmtA for %s { uninterp spec fn n(&self) -> int; uninterp spec fn tx(&self) -> VString; uninterp spec fn tb(&self) -> Seq<u8>; }" % t["name"]
        out.append(tt)
    used_l, used_f = set(), set()
    parts = []
    for n in sorted(need, key=lambda n: fns[n]["line"]):
        f = fns[n]
        con = cons.get((group, n))
        text = fmt(f["core"])
        if text is None: info["unsupported"][n] = ["rustfmt"]; continue
        if con and n in baseline.get(group, {}):
            m = rename_map(baseline[group][n], text)
            if m:
                info["renamed"][n] = m
                c2 = Con(con.name, con.group); c2.__dict__.update(con.__dict__)
                c2.req, c2.ens, c2.at = apply_map(con.req, m), apply_map(con.ens, m), {k: apply_map(v, m) for k, v in con.at.items()}
                c2.types = {m.get(k, k): v for k, v in con.types.items()}
                con = c2
        body = n in bodies
        if body and f["unsupported"]:
            info["unsupported"][n] = f["unsupported"]; body = False
        if body:
            for c in f["calls"]:
                if c in fns and (group, c) not in cons and not baseline.get(group, {}).get(c):
                    info["unknown_callee"].setdefault(n, []).append(c)
        t, lost = emit_fn(f, con, text, body, vac if body and con else None)
        if lost: info["lost"][n] = lost
        if body:
            ls, fs = set(map(int, re.findall(r"vx_lit_(\d+)\(", t))), set(map(int, re.findall(r"vx_fmt_(\d+)\(", t)))
            used_l |= ls; used_f |= fs
            info["value_holes"][n] = sum(textsem.value_holes(d["fmts"][x]) for x in fs)
            for x in set(map(int, re.findall(r"VRegex::new\(vx_lit_(\d+)\(", t))):
                if bytes(d["lits"][x]).decode("utf8", "replace") not in textsem.PATTERNS: info["unknown_text"].setdefault(n, []).append(bytes(d["lits"][x]).decode("utf8", "replace"))
            for x in ls:
                if not textsem.known_lit(bytes(d["lits"][x]).decode("utf8", "replace")): info["unknown_text"].setdefault(n, []).append(bytes(d["lits"][x]).decode("utf8", "replace"))
            for x in fs:
                if not textsem.known_fmt(d["fmts"][x]): info["unknown_text"].setdefault(n, []).append("{}".join(d["fmts"][x]["pieces"]))
        parts.append((n, t))
    out.append(textsem.PRELUDE)
    for k in sorted(used_l): out.append(textsem.lit_fn(k, bytes(d["lits"][k])))
    for k in sorted(used_f): out.append(textsem.fmt_fn(k, d["fmts"][k]))
    for t in ["common"] + theory:
        p = os.path.join(CON, "theory_%s.rs" % t)
        if os.path.exists(p):
            a = sum(x.count("\n") + 1 for x in out) + 1
            out.append(open(p).read())
            info.setdefault("theory_lines", []).append((a, a + out[-1].count("\n"), t))
    if group == "apis":
        parts = [(n, t.replace("VRegex", "VFancy")) for n, t in parts]
        at, parts = includes(parts)
        out.append(at)
    ranges = []
    for n, t in parts:
        a = sum(x.count("\n") + 1 for x in out) + 1
        out.append(t)
        ranges.append((a, a + t.count("\n"), n))
    info["gates"], info["gates_und"] = [], {}
    if pid in GATED:
        try: gt, gr, gu, gs = gates.emit(open(os.path.join(REPO, GATES_FILE)).read(), vac)
        except OSError as e: gt, gr, gu, gs = "", [], {k: str(e) for k in gates.CON}, {}
        for nm, sh in gs.items():
            if baseline.get("gates", {}).get(nm, sh) != sh: info["gates_und"][nm] = "loops or vectors of the template changed"
        info["gates_und"].update(gu)
        a = sum(x.count("\n") + 1 for x in out) + 1
        out.append(gt)
        for nm, x, y in gr:
            ranges.append((a + x, a + y - 1, "gate " + nm)); info["gates"].append("gate " + nm)
    out.append("}\nfn main() {}\n")
    return "\n".join(out), ranges, info

def includes(parts):
    """the texts of included files: one operation for each, its result named after the file; whether a file has the shape of a
    decomposed definition is looked at here, on every run"""
    src = os.path.join(REPO, "packages/apis/src")
    names = {"decomposed_defs/" + f for f in os.listdir(os.path.join(src, "decomposed_defs"))} if os.path.isdir(os.path.join(src, "decomposed_defs")) else set()
    ident = lambda p: re.sub(r"\W", "_", p)
    def rep(m):
        p = os.path.normpath(m.group(1).replace('\\"', "").strip('"')); names.add(p)
        return "vx_inc_%s()" % ident(p)
    parts = [(n, re.sub(r'vx_include_str\("((?:[^"\\]|\\.)*)"\)', rep, t)) for n, t in parts]
    out = ""
    for p in sorted(names):
        try:
            j = json.load(open(os.path.join(src, p)))
            ok = isinstance(j, dict) and isinstance(j.get("parts"), list) and all(isinstance(x, dict) and len({"is_public", "isPublic"} & set(x)) == 1 and len({"regex_def", "regexDef"} & set(x)) == 1
                and isinstance(x.get("is_public", x.get("isPublic")), bool) and isinstance(x.get("regex_def", x.get("regexDef")), str) for x in j["parts"])
        except (OSError, ValueError): ok = False
        i = ident(p)
        out += "pub uninterp spec fn txt_%s() -> Seq<u8>;\n#[verifier::external_body]\nfn vx_inc_%s() -> (r: &'static VString) ensures r@ == txt_%s()%s { unimplemented!() }\n" % (i, i, i, ", json_fits::<DecomposedRegexConfig>(r@)" if ok else "")
    return out, parts

VERFAIL = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|assertion not|possible arithmetic|possible division|possible bit shift|decreases not satisfied|recommendation not met|unable to prove|could not prove|failed this|loop ensures")
LIMIT = re.compile(r"rlimit|resource limit|Resource limit|timed? ?out")
def run_verus(path, extra=(), timeout=400, rlimit=30):
    cmd = [VERUS, path, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--multiple-errors", "6", "--num-threads", "4", "--rlimit", str(rlimit)] + list(extra) + ["--", "--error-format=json"]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return None, [], "timeout", time.time() - t0, ""
    try: j = json.loads(r.stdout)
    except Exception: j = None
    diags, rendered = [], ""
    for l in r.stderr.splitlines():
        try: m = json.loads(l)
        except Exception: rendered += l + "\n"; continue
        if m.get("level") == "error" and not m["message"].startswith("aborting"):
            diags.append({"message": m["message"], "code": (m.get("code") or {}).get("code") if m.get("code") else None,
                          "spans": [(s["line_start"], s["line_end"], s["is_primary"], s.get("label") or "", " ".join(x["text"].strip() for x in s["text"])[:200]) for s in m["spans"]]})
            rendered += m.get("rendered", "")
    return j, diags, rendered, time.time() - t0, r.stderr

def where(line, ranges):
    for a, b, n in ranges:
        if a <= line <= b: return n
    return None

def group_of(pid): return "apis" if pid in ("C01", "C02", "C03") else "closed" if pid == "C11" else "compiler"

def prove(pid, tier):
    group = group_of(pid)
    end = time.time() + (480 if tier == "quick" else 1500)    # a check answers within 900 s
    left = lambda: max(20, min(400, end - time.time()))
    cons = load_contracts()
    bodies = [n for (g, n), c in cons.items() if g == group and pid in c.props]
    extra_theory = os.path.join(CON, "only_%s.rs" % pid)
    if not bodies and not os.path.exists(extra_theory) and pid not in GATED:
        return {"status": "none"}
    ok, log = setup()
    if not ok: return {"status": "undecided", "notes": ["the extractor does not build: " + log[-300:]], "obligations": 0, "discharged": 0}
    d = extract(group, pid)
    base = {}
    bp = os.path.join(CON, "baseline.json")
    if os.path.exists(bp): base = json.load(open(bp))
    rd = os.path.join(BUILD, "run", "verus-" + pid); os.makedirs(rd, exist_ok=True)
    undecided = {}
    allbodies = list(bodies)
    for e, m in d["errors"].items(): undecided[os.path.basename(e)] = "does not parse: " + m
    failed, wall, verified, errors = [], 0.0, 0, 0
    rendered = ""
    smt = None
    retried = []
    for attempt in range(8):
        text, ranges, info = build_file(pid, group, d, cons, bodies, base)
        for n in info["missing"]: undecided[n] = "the function is gone"
        for n, u in info["unsupported"].items(): undecided[n] = "outside the extractable subset: " + "; ".join(u)[:300]
        bodies = [b for b in bodies if b not in info["missing"] and b not in info["unsupported"]]
        for n, u in info["gates_und"].items(): undecided["gate " + n] = u
        heads = bodies + info["gates"]
        path = os.path.join(rd, "%s_%d.rs" % (pid, attempt))
        if os.path.exists(extra_theory): text = text.replace("}\nfn main() {}\n", open(extra_theory).read() + "\n}\nfn main() {}\n")
        open(path, "w").write(text)
        j, diags, rendered, w, raw = run_verus(path, timeout=left())
        wall += w
        if rendered == "timeout":
            for b in bodies: undecided.setdefault(b, "the verifier ran out of time")
            break
        soft = [x for x in diags if VERFAIL.search(x["message"])]
        lim = [x for x in diags if LIMIT.search(x["message"])]
        hard = [x for x in diags if x not in soft and x not in lim]
        if j: verified, errors = j["verification-results"].get("verified", 0), j["verification-results"].get("errors", 0); smt = j
        if not hard and (soft or lim):
            # the solver is heuristic: an obligation it accepts with another seed is proved as well
            for opts in (["--smt-option", "smt.random_seed=7"], ["-V", "spinoff-all", "--smt-option", "smt.random_seed=3"]):
                if end - time.time() < 30: break
                at = lambda x: next((n for sp in x["spans"] for n in [where(sp[0], ranges)] if n in heads), ("lemma", x["spans"][0][0] if x["spans"] else 0))
                bad = {at(x) for x in soft + lim}
                j2, d2, r2, w2, raw2 = run_verus(path, opts, timeout=left(), rlimit=60)
                wall += w2
                if not j2 or any(not VERFAIL.search(x["message"]) and not LIMIT.search(x["message"]) for x in d2): continue
                bad2 = {at(x) for x in d2}
                gone = bad - bad2
                if gone:
                    soft = [x for x in soft if at(x) not in gone]; lim = [x for x in lim if at(x) not in gone]
                    verified += len(gone); errors = max(0, errors - len(gone)); retried += sorted(str(g) for g in gone)
                if not soft and not lim: break
        if not hard:
            for x in lim:
                n = where(x["spans"][0][0], ranges) if x["spans"] else None
                undecided[n or "lemma"] = "solver resource limit"
            for x in soft:
                prim = [s for s in x["spans"] if s[2]] or x["spans"]
                fn_ = None
                for s in x["spans"]:
                    fn_ = where(s[0], ranges)
                    if fn_ in heads: break
                # a diagnostic about a callee's precondition points to both; the body is the one with the call
                for s in x["spans"]:
                    n = where(s[0], ranges)
                    if n in heads and s[2]: fn_ = n
                if fn_ is None: undecided["lemma"] = "a lemma about the contracts was not proved: " + x["message"]; continue   # independent of /repo
                failed.append((fn_, x["message"], "; ".join("%s%s" % (s[4], (" [" + s[3] + "]") if s[3] else "") for s in x["spans"])[:400]))
            break
        # translation or type errors: those functions are set aside and decided by the bounded check only
        bad = set()
        for x in hard:
            for s in x["spans"]:
                n = where(s[0], ranges)
                if n in bodies: bad.add(n); undecided[n] = "not accepted by the verifier's front end: " + x["message"][:200]
                elif n is not None and (group, n) not in cons:     # a helper without contract: its callers are set aside
                    for b in bodies:
                        if any(f["name"] == b and n in f["calls"] for f in d["functions"]): bad.add(b); undecided[b] = "calls %s, not accepted by the verifier's front end: %s" % (n, x["message"][:150])
        if not bad:
            for b in heads: undecided.setdefault(b, "front end: " + (hard[0]["message"][:300] if hard else rendered[-300:]))
            bodies = []
            break
        bodies = [b for b in bodies if b not in bad]
        if not bodies: break
    # which failures count
    counted, set_aside = [], []
    for fn_, msg, loc in failed:
        why = None
        if fn_.startswith("gate "):
            if fn_[5:] in info["gates_und"]: why = info["gates_und"][fn_[5:]]
        elif fn_ != "lemma":
            if fn_ in info["lost"]: why = "anchors lost: " + ", ".join(info["lost"][fn_])
            elif fn_ in info["unknown_text"]: why = "text outside the known vocabulary: %r" % info["unknown_text"][fn_][:2]
            elif fn_ in info["unknown_callee"]: why = "calls functions without contract: " + ", ".join(info["unknown_callee"][fn_])
            else:
                bt = base.get(group, {}).get(fn_)
                if bt is not None:
                    nl = lambda t: sorted(set(re.findall(r"loop\d+\.inv", t)))
                    cur = next((f for f in d["functions"] if f["name"] == fn_), None)
                    ct = fmt(cur["core"]) if cur else ""
                    if nl(bt) != nl(ct or ""): why = "loop structure changed"
                    elif loopsig(bt) != loopsig(ct or ""): why = "loop headers changed"
                    elif exits(bt) < exits(ct or ""): why = "further exits"
                    elif moved(cons.get((group, fn_)), bt, ct or ""): why = "anchors moved: " + ", ".join(moved(cons.get((group, fn_)), bt, ct or ""))
                    elif makers(bt) != makers(ct or ""): why = "other containers"
                    elif info["value_holes"].get(fn_, 0) != base.get("value_holes", {}).get(fn_, 0): why = "values of the texts come from other texts"
        if why: undecided[fn_] = why; set_aside.append("%s: %s (%s)" % (fn_, msg, why))
        else: counted.append("%s: %s: %s" % (fn_, msg, loc))
    clauses = count_clauses(cons, group, bodies)
    ob = verified + errors
    st = "failed" if counted else ("undecided" if undecided else "proved")
    tb = trusted(text, ranges)
    lines = text.split("\n")
    ghost = []
    for (a, b, n) in ranges:
        if n in bodies:
            for l in lines[a - 1:b]:
                m = re.search(r"\bassume\((\w+)", l)
                if m: ghost.append("in %s, %s (an uninterpreted relation recording which call made the text) is assumed of the result, not derived" % (n, m.group(1)))
    assumed = [n for (a, b, n) in ranges if n not in allbodies and not n.startswith("gate ") and (group, n) in cons]
    res = {"status": st, "obligations": ob if ob else len(allbodies), "discharged": verified, "failed": counted, "output": rendered[-8000:],
           "undecided": ["%s: %s" % (k, v) for k, v in sorted(undecided.items())], "notes": ["undecided %s: %s" % (k, v) for k, v in sorted(undecided.items())] + ["set aside " + x for x in set_aside[:5]],
           "cmd": "%s <generated> --triggers-mode silent --output-json --time-expanded --multiple-errors 6" % VERUS, "trusted": tb,
           "functions": [{"name": n, "file": os.path.relpath(next((f["file"] for f in d["functions"] if f["name"] == n), "?"), REPO), "status": "undecided" if n in undecided else ("failed" if any(c.startswith(n + ":") for c in counted) else "proved"), "clauses": clauses.get(n, 0)} for n in allbodies]
           + [{"name": n, "file": GATES_FILE, "status": "undecided" if n in undecided else ("failed" if any(c.startswith(n + ":") for c in counted) else "proved"), "clauses": 1} for n in (["gate " + k for k in gates.CON] if pid in GATED else [])],
           "solver": {"back_end": "Verus (Z3)", "discharged_with_another_seed": retried, "wall_s": round(wall, 2), "smt_ms": ((smt or {}).get("times-ms") or {}).get("smt", {}).get("total") if smt else None},
           "extraction": {"tool": "vx (syn), rerun on the current tree", "drops": "see DESIGN.md section 'What the extraction drops'", "functions_extracted": len(d["functions"]), "core_sha256": hashlib.sha256(json.dumps(sorted(f["core"] for f in d["functions"] if f["name"] in allbodies)).encode()).hexdigest()[:16]},
           "assumptions": ["contract of %s assumed here; it is discharged by the check of %s" % (n, "/".join(cons[(group, n)].props)) if cons[(group, n)].props else "contract of %s is trusted (external: %s)" % (n, cons[(group, n)].file) for n in assumed] + ghost + GENERAL,
           "vacuity": {}}
    if st == "proved" and end - time.time() > 60:
        res["vacuity"] = vacuity(pid, group, d, cons, bodies, base, rd)
        if res["vacuity"].get("vacuous"):
            res["status"] = "undecided"; res["notes"].append("vacuous contracts: %s" % res["vacuity"]["vacuous"])
    return res
GENERAL = ["the library contracts of contracts/prelude.rs (collections, strings, formatting, JSON, files) and of the generated vx_lit_*/vx_fmt_* functions (meaning of each literal text) are trusted",
           "the extraction preserves meaning (rules in vx/src/main.rs, listed in DESIGN.md)", "usize is 64 bits wide", "allocation does not fail and the stack does not overflow"]
def exits(t): return len(re.findall(r"\breturn\b(?! Err\(vx_err_from)", t))
def moved(con, bt, ct):
    """anchors count the calls of an operation: with another number of them they may stand elsewhere"""
    n = lambda t, x: len(re.findall(r'vx_mark!\("call\.%s\.\d+\.before"\)' % x, t))
    return sorted({x for a in (con.at if con else {}) for x in re.findall(r"^call\.(\w+)\.\d+\.", a) if n(bt, x) != n(ct, x)})
def makers(t): return sorted(re.findall(r"\bArray::\w+", t))
def loopsig(t):
    # (and whether an accumulator starts as true or false)
    # the headers, and where a loop over numbers begins and ends
    return [re.sub(r"\b(?!vx_|true\b|false\b)[a-z_]\w*", "v", m) for m in re.findall(r"(while [^\n]*) \{\n\s*vx_mark!\(\"loop\d+\.inv", t) + re.findall(r"let (?:mut vx_i|vx_n)\d+(?:: usize)? = [^\n]*;|let mut vx_acc\d+(?:: bool)? = (?:true|false);", t)]
def count_clauses(cons, group, bodies):
    r = {}
    for n in bodies:
        c = cons.get((group, n))
        if c: r[n] = sum(len(re.findall(r",\s*$|\S\s*$", x, re.M)) and sum(1 for l in x.splitlines() if l.rstrip().endswith(",")) for x in [c.req, c.ens] + list(c.at.values()))
    return r
def trusted(text, ranges):
    """the library operations with assumed contracts that the verified text mentions, and the axioms its proofs mention"""
    names = sorted(set(re.findall(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:exec )?fn (\w+)", text)))
    lines = text.split("\n")
    own = "\n".join("\n".join(lines[a - 1:b]) for a, b, n in ranges)
    used = [n for n in names if re.search(r"\b%s\(" % n, own)]
    ax = [a for a in sorted(set(re.findall(r"axiom fn (\w+)", text))) if len(re.findall(r"\b%s\b" % a, text)) > 1 or "broadcast" in text.split("axiom fn " + a)[0][-30:]]
    fns = {n for a, b, n in ranges}
    lib = [n for n in used if not re.match(r"vx_(lit|fmt)_", n) and n not in fns]
    return ["%d library operations with assumed contracts: %s" % (len(lib), ", ".join(lib)),
            "literal and format texts with assumed meaning: %d" % len([n for n in used if re.match(r"vx_(lit|fmt)_", n)]), "axioms: " + (", ".join(ax) or "none"), "Verus, Z3, rustc"]
def vacuity(pid, group, d, cons, bodies, base, rd):
    """assert(false) at the end of every verified function has to fail"""
    text, ranges, info = build_file(pid, group, d, cons, bodies, base, vac="fn.end")
    path = os.path.join(rd, "%s_vac.rs" % pid)
    open(path, "w").write(text)
    j, diags, rendered, w, raw = run_verus(path)
    if rendered == "timeout": return {"note": "timeout"}
    hit = set()
    for x in diags:
        if "assertion failed" in x["message"] or LIMIT.search(x["message"]):
            for s in x["spans"]:
                n = where(s[0], ranges)
                if n: hit.add(n)
    heads = bodies + [g for g in info["gates"]]
    vac = [b for b in heads if b not in hit]
    return {"method": "assert(false) at the end of every function under contract must be refuted", "refuted": len(hit), "of": len(heads), "vacuous": vac, "wall_s": round(w, 2)}

def run_safe(pid, tier):
    try:
        return prove(pid, tier)
    except Exception as e:
        import traceback
        return {"status": "undecided", "obligations": 0, "discharged": 0, "notes": ["contract stage error: %r" % e], "output": traceback.format_exc(), "undecided": ["stage: %r" % e]}

if __name__ == "__main__":
    if sys.argv[1] == "baseline":
        setup()
        b = {}
        for g in SETS:
            d = extract(g, "base"); b[g] = {f["name"]: fmt(f["core"]) or "" for f in d["functions"]}
            for f in d["functions"]:
                v = sum(textsem.value_holes(d["fmts"][x]) for x in set(map(int, re.findall(r"vx_fmt_(\d+)\(", fmt(f["core"]) or ""))))
                if v: b.setdefault("value_holes", {})[f["name"]] = v
        b["gates"] = gates.emit(open(os.path.join(REPO, GATES_FILE)).read())[3]
        json.dump(b, open(os.path.join(CON, "baseline.json"), "w"), indent=0, sort_keys=True)
    else:
        r = run_safe(sys.argv[1], "quick")
        out = r.pop("output", "")
        if "-v" in sys.argv: print(out)
        print(json.dumps(r, indent=1)[:6000])
