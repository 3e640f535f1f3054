"""The gate templates of packages/circom/circuits/regex_helpers.circom as constraint systems: every template is translated, on
every run and from its current text, into a predicate over the values of its signals (one conjunct per `<==`/`===`, a loop being
a quantified conjunct, a component being the contract of its template), and gets one proof obligation: any values that satisfy
the constraints have the output its contract states.  `<--` assigns without constraining and contributes nothing."""
import re
TOK = re.compile(r"\s*(//[^\n]*|/\*.*?\*/|<==|==>|===|<--|-->|\+\+|<=|>=|==|!=|&&|\|\||\+=|[A-Za-z_]\w*|\d+|.)", re.S)
class No(Exception): pass
# contracts: inputs in the order of an anonymous call; requires; ensures.  n: the parameter; vectors are Seq<int>
CON = {
    "MultiOR": (["n"], [("in", True)], "1 <= {n} < P()", "or_rel({out}, {in})"),
    "MultiNOR": (["n"], [("in", True)], "1 <= {n} < P()", "nor_rel({out}, {in})"),
    "ORAnd": ([], [("in", 3)], "true", "(bit({in}[0]) && bit({in}[1]) && bit({in}[2]) ==> {out} == b2i(({in}[0] == 1 || {in}[1] == 1) && {in}[2] == 1))"),
    "IsNotZeroAcc": ([], [("acc", False), ("in", False)], "true", "{out} == fe({acc} + b2i({in} != 0))"),
}
# circomlib: assumed
EXT = {
    "IsZero": (["in"], "{out} == b2i({in} == 0)"),
    "OR": (["a", "b"], "{out} == fe({a} + {b} - mu({a}, {b}))"),
    "AND": (["a", "b"], "{out} == fe(mu({a}, {b}))"),
    "NOT": (["in"], "{out} == fe(1 + {in} - 2 * {in})"),
    "XOR": (["a", "b"], "{out} == fe({a} + {b} - 2 * mu({a}, {b}))"),
    "NAND": (["a", "b"], "{out} == fe(1 - mu({a}, {b}))"),
    "NOR": (["a", "b"], "{out} == fe(mu({a}, {b}) + 1 - {a} - {b})"),
    "IsEqual": (["in"], "{out} == b2i({in}[0] == {in}[1])"),
}
def tokens(t):
    r, p = [], 0
    while p < len(t):
        m = TOK.match(t, p)
        if not m: break
        p = m.end(); x = m.group(1)
        if not x.startswith("//") and not x.startswith("/*") and x.strip(): r.append(x)
    return r
class Tpl:
    """one template"""
    def __init__(s, name, params, toks):
        s.name, s.params, s.t, s.p = name, params, toks, 0
        s.sig = {}      # name -> (kind, dim or None)
        s.order = []
        s.comp = {}     # name -> template
        s.cons = []     # (loop or None, text, trigger)
        s.extra = []    # further scalar values: component ports and anonymous outputs
        s.loop = None; s.loops = 0
        s.trig = None
        s.body("")
    def peek(s): return s.t[s.p] if s.p < len(s.t) else ""
    def next(s): s.p += 1; return s.t[s.p - 1] if s.p <= len(s.t) else ""
    def eat(s, x):
        if s.next() != x: raise No("%s expected" % x)
    def body(s, end):
        while s.peek() != end and s.p < len(s.t): s.stmt()
    def stmt(s):
        k = s.peek()
        if k == ";": s.next(); return
        if k == "signal":
            s.next(); kind = s.next() if s.peek() in ("input", "output") else "inner"
            while True:
                nm = s.next(); dim = None
                if s.peek() == "[": s.next(); dim = s.expr(); s.eat("]")
                if s.peek() == "[": raise No("two dimensions")
                if nm in s.sig or s.loop: raise No("signal")
                s.sig[nm] = (kind, dim); s.order.append(nm)
                if s.peek() == "<==": s.next(); s.assign(nm, None)
                elif s.peek() == "<--":
                    while s.peek() not in (";", ","): s.next()
                if s.peek() == ",": s.next(); continue
                s.eat(";"); return
        if k == "component":
            s.next(); nm = s.next()
            if s.peek() == "=": s.next(); s.inst(nm)
            else: s.comp[nm] = None
            s.eat(";"); return
        if k == "for":
            if s.loop: raise No("nested loop")
            s.next(); s.eat("("); s.eat("var"); v = s.next(); s.eat("="); lo = s.expr(); s.eat(";")
            if s.next() != v: raise No("loop")
            o = s.next(); hi = s.expr(); s.eat(";"); 
            if s.next() != v or s.next() != "++": raise No("loop")
            s.eat(")"); s.eat("{")
            if o == "<=": hi = "(%s + 1)" % hi
            elif o != "<": raise No("loop")
            s.loop = (v, lo, hi); s.loops += 1
            while s.peek() != "}": s.stmt()
            s.next(); s.loop = None; return
        if re.match(r"[A-Za-z_]", k) and k not in ("var", "if", "while", "return", "assert", "log", "else"):
            lhs = s.ref(); o = s.next()
            if o == "=" and lhs[0] == "comp": s.inst(lhs[1]); s.eat(";"); return
            if o == "<==": s.assign(*lhs[1:]) if lhs[0] == "sig" else s.port(lhs); s.eat(";"); return
            if o == "<--":
                while s.peek() != ";": s.next()
                s.next(); return
            if o == "===":
                l = s.val(lhs); r = s.expr(); s.add("fe(%s) == fe(%s)" % (l, r)); s.eat(";"); return
            raise No(o)
        raise No(k)
    def ref(s):
        """('sig', name, index) | ('comp', name) | ('port', comp, port, index)"""
        nm = s.next()
        if nm in s.comp:
            if s.peek() == "[": raise No("component array")
            if s.peek() == ".":
                s.next(); po = s.next(); ix = None
                if s.peek() == "[": s.next(); ix = s.expr(); s.eat("]")
                return ("port", nm, po, ix)
            return ("comp", nm)
        if nm not in s.sig: raise No("unknown " + nm)
        ix = None
        if s.peek() == "[": s.next(); ix = s.expr(); s.eat("]")
        return ("sig", nm, ix)
    def val(s, r):
        if r[0] == "sig": return "s_%s" % r[1] + ("[%s]" % r[2] if r[2] is not None else "")
        if r[0] == "port": s.use(r); return "c_%s_%s" % (r[1], r[2]) + ("[%s]" % r[3] if r[3] is not None else "")
        raise No("component as value")
    def use(s, r):
        t = s.comp.get(r[1])
        if t is None: raise No("component without template")
    def add(s, c):
        if s.loop:
            v, lo, hi = s.loop
            s.cons.append("(forall|%s: int| %s <= %s < %s ==> %s)" % (v, lo, v, hi, c))
        else: s.cons.append(c)
    def assign(s, nm, ix):
        kind, dim = s.sig[nm]
        if kind == "input": raise No("an input is assigned")
        if dim is not None and ix is None:
            v = s.vec()
            s.cons.append("s_%s =~= %s" % (nm, v)); return
        e = s.expr()
        l = "s_%s" % nm + ("[%s]" % ix if ix is not None else "")
        s.add("%s == fe(%s)" % (("#[trigger] " + l) if s.loop else l, e))
    def port(s, r):
        s.use(r); e = s.expr()
        s.add("%s == fe(%s)" % (("#[trigger] " if s.loop else "") + "c_%s_%s" % (r[1], r[2]) + ("[%s]" % r[3] if r[3] is not None else ""), e))
    def args(s):
        s.eat("("); a = []
        while s.peek() != ")":
            a.append(s.expr())
            if s.peek() != ")": s.eat(",")
        s.next(); return a
    def inst(s, nm):
        if s.loop: raise No("component in a loop")
        t = s.next(); a = s.args()
        s.comp[nm] = t
        if t in CON: ins = CON[t][1]
        elif t in EXT: ins = [(x, t == "IsEqual") for x in EXT[t][0]]
        else: raise No("template " + t)
        for po, arr in ins: s.extra.append(("c_%s_%s" % (nm, po), "Seq<int>" if arr else "int", (a[0] if arr is True and a else str(arr) if arr and arr is not True else "2" if arr else None)))
        s.extra.append(("c_%s_out" % nm, "int", None))
        s.cons.append(s.rel(t, a, {po: "c_%s_%s" % (nm, po) for po, _ in ins}, "c_%s_out" % nm))
    def rel(s, t, a, ins, out):
        if t in EXT: return EXT[t][1].format(out=out, **ins)
        ps, _, req, ens = CON[t]
        d = dict(ins); d["out"] = out; d.update(zip(ps, a))
        if len(a) != len(ps): raise No("arguments")
        return "(%s && %s.len() == %s ==> %s)" % (req.format(**d), ins["in"], a[0], ens.format(**d)) if ps else ens.format(**d)
    def vec(s):
        if s.peek() == "[":
            s.next(); a = []
            while s.peek() != "]":
                a.append("fe(%s)" % s.expr())
                if s.peek() != "]": s.eat(",")
            s.next(); return "seq![%s]" % ", ".join(a)
        nm = s.next()
        if nm in s.sig and s.sig[nm][1] is not None and s.peek() != "[": return "s_%s" % nm
        raise No("vector " + nm)
    def anon(s, t):
        if s.loop: raise No("anonymous component in a loop")
        a = s.args(); s.eat("(")
        if t in CON: ins = CON[t][1]
        elif t in EXT: ins = [(x, t == "IsEqual") for x in EXT[t][0]]
        else: raise No("template " + t)
        d = {}
        for k, (po, arr) in enumerate(ins):
            if k: s.eat(",")
            d[po] = s.vec() if arr else "fe(%s)" % s.expr()
        s.eat(")")
        o = "a_%d" % len(s.extra)
        s.extra.append((o, "int", None))
        s.cons.append(s.rel(t, a, d, o))
        return o
    # + - * over signals, numbers, parameters, loop variables
    def expr(s):
        r = s.term()
        while s.peek() in ("+", "-"): o = s.next(); r = "(%s %s %s)" % (r, o, s.term())
        return r
    def term(s):
        r = s.atom()
        while s.peek() == "*":
            s.next(); q = s.atom(); r = "(%s * %s)" % (r, q) if re.fullmatch(r"\d+", r) or re.fullmatch(r"\d+", q) else "mu(%s, %s)" % (r, q)
        return r
    def atom(s):
        k = s.peek()
        if k == "(": s.next(); r = s.expr(); s.eat(")"); return "(%s)" % r
        if k == "-": s.next(); return "(0 - %s)" % s.atom()
        if k.isdigit(): return s.next() + "int"
        if s.loop and k == s.loop[0]: return s.next()
        if k in s.params: return s.next()
        if k in s.sig or k in s.comp: return s.val(s.ref())
        if s.p + 1 < len(s.t) and s.t[s.p + 1] == "(" and re.match(r"[A-Za-z_]", k): return s.anon(s.next())
        raise No("expression " + k)
def templates(text):
    """name -> (params, tokens)"""
    t = tokens(text); out = {}; p = 0
    while p < len(t):
        if t[p] == "template":
            nm = t[p + 1]; q = p + 3; ps = []
            while t[q] != ")":
                if t[q] != ",": ps.append(t[q])
                q += 1
            q += 1
            if t[q] != "{": raise No("template")
            d, e = 1, q + 1
            while d:
                d += {"{": 1, "}": -1}.get(t[e], 0); e += 1
            out[nm] = (ps, t[q + 1:e - 1]); p = e
        else: p += 1
    return out
def emit(text, vac=None):
    """(verus text, [(obligation, first line, last line)] relative to its start, {obligation: reason} undecided, {template: (loops, inner arrays)})"""
    out, ranges, und, shape = [], [], {}, {}
    try: ts = templates(text)
    except (No, IndexError) as e: return "", [], {k: "not in the translated subset: %s" % e for k in CON}, {}
    line = 0
    for nm, (cps, ins, req, ens) in CON.items():
        if nm not in ts: und[nm] = "the template is gone"; continue
        ps, body = ts[nm]
        try:
            if len(ps) != len(cps): raise No("parameters")
            t = Tpl(nm, ps, body)
            got = [(x, t.sig[x][1]) for x in t.order if t.sig[x][0] == "input"]
            if [g[0] for g in got] != [i[0] for i in ins] or any((g[1] is not None) != bool(i[1]) for g, i in zip(got, ins)): raise No("inputs")
            if [x for x in t.order if t.sig[x][0] == "output"] != ["out"] or t.sig["out"][1] is not None: raise No("output")
            pa = ["%s: int" % p for p in ps] + ["s_%s: %s" % (x, "Seq<int>" if t.sig[x][1] is not None else "int") for x in t.order] + ["%s: %s" % (x, ty) for x, ty, _ in t.extra]
            fld = []
            for x in t.order:
                d = t.sig[x][1]
                fld.append("s_%s.len() == %s && felems(s_%s)" % (x, d, x) if d is not None else "0 <= s_%s < P()" % x)
            for x, ty, d in t.extra:
                fld.append("%s.len() == %s && felems(%s)" % (x, d, x) if ty != "int" else "0 <= %s < P()" % x)
            d = {"out": "s_out"}; d.update({i[0]: "s_" + i[0] for i in ins}); d.update(zip(cps, ps))
            arrs = [x for x in t.order if t.sig[x][0] == "inner" and t.sig[x][1] is not None]
            cargs = [x.split(":")[0] for x in pa]
            b = "pub open spec fn %s_c(%s) -> bool {\n    %s\n}\n" % (nm, ", ".join(pa), "\n    && ".join(fld + t.cons) or "true")
            b += "pub proof fn gate_%s(%s)\n    requires %s_c(%s), %s\n    ensures %s\n{\n    axiom_p();\n" % (nm, ", ".join(pa), nm, ", ".join(cargs), req.format(**d), ens.format(**d))
            if nm in ("MultiOR", "MultiNOR"):
                for x in arrs: b += "    if run_sum(s_%s, s_in, %s) && bits(s_in) { run_sums(s_%s, s_in, %s); }\n" % (x, ps[0], x, ps[0])
            b += "    gate_facts();\n%s}\n" % ("    assert(false);\n" if vac else "")
            k = b.count("\n")
            ranges.append((nm, line, line + k)); line += k
            out.append(b); shape[nm] = [t.loops, len(arrs)]
        except (No, IndexError, KeyError) as e: und[nm] = "not in the translated subset: %s" % e
    return "".join(out), ranges, und, shape
if __name__ == "__main__":
    import sys
    t, r, u, s = emit(open(sys.argv[1]).read()); print(t, r, u, s)
