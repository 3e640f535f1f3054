"""Meaning of the literal texts of the generators: a small parser of the generated languages (circom statements, rows of
numbers) that turns each literal or format string of the current sources into the contract of its vx_lit_K / vx_fmt_K."""
import re
PRELUDE = r'''
pub uninterp spec fn dbg_text<A: ?Sized>(a: &A) -> Seq<u8>;      // the text of {:?}
pub trait VxFmtA { spec fn n(&self) -> int; spec fn tx(&self) -> VString; spec fn tb(&self) -> Seq<u8>; }
impl VxFmtA for usize { open spec fn n(&self) -> int { *self as int } uninterp spec fn tx(&self) -> VString; open spec fn tb(&self) -> Seq<u8> { dec_text(*self as int) } }
impl VxFmtA for u8 { open spec fn n(&self) -> int { *self as int } uninterp spec fn tx(&self) -> VString; open spec fn tb(&self) -> Seq<u8> { dec_text(*self as int) } }
impl VxFmtA for VString { uninterp spec fn n(&self) -> int; open spec fn tx(&self) -> VString { *self } open spec fn tb(&self) -> Seq<u8> { self@ } }
impl VxFmtA for VxForeign { uninterp spec fn n(&self) -> int; uninterp spec fn tx(&self) -> VString; uninterp spec fn tb(&self) -> Seq<u8>; }
impl<'a, T: VxFmtA + ?Sized> VxFmtA for &'a T { open spec fn n(&self) -> int { (**self).n() } open spec fn tx(&self) -> VString { (**self).tx() } open spec fn tb(&self) -> Seq<u8> { (**self).tb() } }
'''
def seq_bytes(b): return "seq![%s]" % ", ".join("%du8" % x for x in b) if b else "Seq::<u8>::empty()"
# regular expressions of the sources whose meaning on the texts they are applied to is stated in theory_regex.rs
PATTERNS = {
    r"(.+)-(.+)": None,
    r"\*?(\d+): ((.+?) => (\d+),?)+": "RE_STATES",
    r"\s+[^=]+\s*=>\s*(\d+)+\s*|\s+=+\s*=>\s*(\d+)+|\s+=-[^=]+=>\s*\s*(\d+)+\s*|\s+[^=]+-=\s*=>\s*(\d+)+\s*": "RE_TRANSITIONS",
    r"START-GROUP\(anchored\)[\s*\w*\=>]*Text => (\d+)": "RE_START",
}
# ---------------------------------------------------------------- circom statements
# Signals and components of the generated circuits, by name.  sg(w, name, k, a, b): the value of signal name<k>[a][b] in the
# witness w; pt(w, comp, a, b, port, q): of the port[q] of component comp[a][b]  (ports: in 0, a 1, b 2, out 3).
SIG = {"states": 1, "states_tmp": 2, "from_zero_enabled": 3, "in": 4, "msg": 5, "in_range_checks": 6, "padding_start": 7, "out": 8, "end_anchor_check": 9,
       "is_consecutive": 10, "prev_states": 11, "is_substr": 12, "is_reveal": 13, "reveal": 14}
COMP = {"eq": 21, "lt": 22, "and": 23, "multi_or": 24, "state_changed": 25, "is_accepted": 26}
PORT = {"in": 0, "a": 1, "b": 2, "out": 3}
TOK = re.compile(r"\s*(?:(?P<id>[A-Za-z_]\w*(?:\x01\d+\x02)?)|(?P<hole>\x01\d+\x02)|(?P<num>\d+)|(?P<op><==|===|==|<=|\+\+|[-+*=;:\[\](){}.,<>]))")
class No(Exception): pass
class Circom:
    """parser of one line of text with holes; produces the meaning of the line as a Verus term over w, n (= msg_bytes), i"""
    def __init__(s, t, kinds):
        s.t, s.k, s.conds, s.vals = [], kinds, [], 0
        # for the closedness of the text: cells read or written in order (the first one of a constraint is written), joined texts
        # that are read, conditions on the number of inputs, an instance (name, indices, condition on its port cells), declarations
        s.cells, s.xs, s.ok, s.opens, s.decl, s.io, s.writes = [], [], [], None, None, None, False
        p = 0; t = t.rstrip()
        while p < len(t):
            m = TOK.match(t, p)
            if not m: raise No()
            s.t.append((m.lastgroup, m.group(m.lastgroup))); p = m.end()
        s.t.append(("end", "")); s.p = 0
    def peek(s, v=None): return s.t[s.p][1] == v if v is not None else s.t[s.p]
    def next(s): x = s.t[s.p]; s.p += 1; return x
    def eat(s, v):
        if not s.peek(v): raise No()
        s.p += 1
    def hole(s, h):
        k = int(h[1:-1])
        if s.k[k] != "": raise No()
        return "a%d" % k
    # numbers: i, n, constants, holes, + and -
    def index(s):
        def atom():
            k, v = s.next()
            if k == "num": return v
            if k == "hole": return s.hole(v) + ".n()"
            if v == "i": return "i"
            if v == "num_bytes": return "(n + 1)"
            if v == "msg_bytes": return "n"
            raise No()
        r = atom()
        while s.peek("+") or s.peek("-"):
            o = s.next()[1]; r = "(%s %s %s)" % (r, o, atom())
        return r
    def subs(s):
        r = []
        while s.peek("["): s.eat("["); r.append(s.index()); s.eat("]")
        return r
    # a signal, or the port of a component
    def ref(s):
        k, v = s.next()
        suffix = "0"
        if k == "hole":
            h = s.hole(v); ix = s.subs()
            s.conds.append("isname(%s.tx())" % h); nm = "nm(%s.tx())" % h
            if s.peek("."): return s.port(nm, ix)
            if len(ix) > 2: raise No()
            nd = len(ix); ix += ["0"] * (2 - nd)
            s.cells.append(cell(nm, "0", ix[0], ix[1], -1, nd))
            return "sg(w, %s, 0, %s, %s)" % (nm, ix[0], ix[1])
        if k != "id": raise No()
        if "\x01" in v:
            v, h = v[:v.index("\x01")], v[v.index("\x01"):]
            suffix = s.hole(h) + ".n()"
        ix = s.subs()
        if v in COMP and suffix == "0": return s.port(str(COMP[v]), ix, v in ("state_changed", "is_accepted"))
        if v not in SIG or len(ix) > 2: raise No()
        nd = len(ix); ix += ["0"] * (2 - nd)
        s.cells.append(cell(SIG[v], suffix, ix[0], ix[1], -1, nd))
        return "sg(w, %d, %s, %s, %s)" % (SIG[v], suffix, ix[0], ix[1])
    def comp(s, ix, flat):
        if flat:
            if len(ix) > 1: raise No()
            return ["0"] + (ix or ["0"])
        if len(ix) != 2: raise No()
        return ix
    def port(s, nm, ix, flat=False):
        ix = s.comp(ix, flat)
        s.eat("."); k, v = s.next()
        if v not in PORT: raise No()
        q = s.subs()
        if len(q) != (1 if v == "in" else 0): raise No()
        s.cells.append(cell(nm, "0", ix[0], ix[1], PORT[v], q[0] if q else "0"))
        return "pt(w, %s, %s, %s, %d, %s)" % (nm, ix[0], ix[1], PORT[v], q[0] if q else "0")
    # field expressions; returns (term, is it a single value below the modulus)
    def expr(s):
        r, one = s.prod()
        while s.peek("+") or s.peek("-"):
            o = s.next()[1]; x, _ = s.prod(); r = "(%s %s %s)" % (r, o, x); one = False
        return r, one
    def prod(s):
        r, one = s.atom()
        while s.peek("*"):
            s.next(); x, _ = s.atom(); r = "mu(%s, %s)" % (r, x); one = False
        return r, one
    def atom(s):
        k, v = s.peek()
        if v == "(":
            s.eat("("); r = s.expr(); s.eat(")"); return r
        if k == "num": s.next(); return v, True
        if v == "i": s.next(); return "i", True
        if k == "hole" and s.t[s.p + 1][1] != "[": s.next(); s.vals += 1; return s.hole(v) + ".n()", True
        return s.ref(), True
    def value(s):
        r, one = s.expr()
        return r if one else "fe(%s)" % r
    def items(s, close):
        """a list of values; a hole among them stands for the values of a joined text"""
        r = []
        while not s.peek(close):
            k, v = s.peek()
            if k == "hole" and s.t[s.p + 1][1] in (",", close):
                h = s.hole(v); s.next(); s.conds.append("isxs(%s.tx())" % h); s.xs.append(h); r.append(("xs", h))
            else: r.append(("v", s.value()))
            if not s.peek(close): s.eat(",")
        s.eat(close)
        return r
    def arg(s):
        if s.peek(")"): s.eat(")"); return None
        r = s.index(); s.eat(")"); return r
    # lhs <== Template(arg)(inputs)
    def call(s, lhs):
        name = s.next()[1]; s.eat("("); arg = s.arg(); s.eat("(")
        if s.peek("["): s.eat("["); it = s.items("]"); s.eat(")")
        else: it = s.items(")")
        flat = all(k == "v" for k, _ in it)
        vs = [v for _, v in it]
        if arg is not None and name != "LessThan": s.ok.append("%s == %s" % (arg, " + ".join([str(sum(1 for k, _ in it if k == "v"))] + ["xn(%s.tx())" % v for k, v in it if k == "xs"])))
        if name in ("MultiOR", "MultiNOR", "MultiAND") and arg is not None:
            if name == "MultiAND":
                if not flat or arg != "3" or len(vs) != 3: raise No()
                return "(bit(%s) && bit(%s) && bit(%s) ==> %s == b2i(%s == 1 && %s == 1 && %s == 1))" % (*vs, lhs, *vs)
            rel = "or_rel" if name == "MultiOR" else "nor_rel"
            if flat: raise No()
            if len(it) == 1: return "(%s == xn(%s.tx()) ==> %s(%s, xval(%s.tx(), w, n, i)))" % (arg, vs[0], rel, lhs, vs[0])
            if len(it) == 2 and it[0][0] == "v" and it[1][0] == "xs":
                return "(%s == 1 + xn(%s.tx()) ==> %s(%s, seq![%s] + xval(%s.tx(), w, n, i)))" % (arg, vs[1], rel, lhs, vs[0], vs[1])
            raise No()
        if not flat: raise No()
        if name == "IsEqual" and arg is None and len(vs) == 2: return "%s == b2i(%s == %s)" % (lhs, *vs)
        if name == "IsNotZeroAcc" and arg is None and len(vs) == 2: return "%s == fe(%s + b2i(%s != 0))" % (lhs, *vs)
        if name == "ORAnd" and arg is None and len(vs) == 3: return "(bit(%s) && bit(%s) && bit(%s) ==> %s == b2i((%s == 1 || %s == 1) && %s == 1))" % (*vs, lhs, *vs)
        if name == "LessThan" and arg == "8" and len(vs) == 2: return "lt8(%s, %s, %s)" % (*vs, lhs)
        raise No()
    def inst(s, nm, ix):
        name = s.next()[1]; s.eat("("); arg = s.arg()
        c = "w, %s, %s, %s" % (nm, ix[0], ix[1])
        s.opens = (nm, ix, {"MultiOR": "c.p == 0 && 0 <= c.q && c.q < %s" % arg, "AND": "(c.p == 1 || c.p == 2) && c.q == 0", "IsEqual": "c.p == 0 && (c.q == 0 || c.q == 1)", "LessEqThan": "c.p == 0 && (c.q == 0 || c.q == 1)"}.get(name))
        if name == "MultiOR" and arg is not None: return "or_gate(%s, %s)" % (c, arg)
        if name == "AND" and arg is None: return "and_gate(%s)" % c
        if name == "IsEqual" and arg is None: return "eq_gate(%s)" % c
        if name == "LessEqThan" and arg == "8": return "le8_gate(%s)" % c
        raise No()
    def line(s):
        """(kind, meaning): 0 declaration or comment, 1 statement, 2 loop header (lo, hi), 3 closing brace"""
        k, v = s.peek()
        if v == "}":
            s.next(); s.done(); return 3, None
        if v == "for":
            s.next(); s.eat("("); s.eat("var"); s.eat("i"); s.eat("="); lo = s.index(); s.eat(";"); s.eat("i")
            o = s.next()[1]; hi = s.index(); s.eat(";"); s.eat("i"); s.eat("++"); s.eat(")"); s.eat("{"); s.done()
            if o == "<=": hi = "(%s + 1)" % hi
            elif o != "<": raise No()
            if " i" in lo + hi or lo == "i" or hi == "i": raise No()
            return 2, (lo, hi)
        if v in ("pragma", "include", "template"): raise No()
        if v == "var":      # the one variable of a template; its value is what num_bytes stands for in the indices
            s.next(); s.eat("num_bytes"); s.eat("=")
            if s.index() not in ("(n + 1)", "(1 + n)"): raise No()
            s.eat(";"); s.done(); s.decl = ("30", "0", []); return 0, None
        if v == "signal":
            s.next()
            if s.peek("input") or s.peek("output"): s.io = s.next()[1]
            k, nm = s.next(); suffix = "0"
            if k != "id": raise No()
            if "\x01" in nm: nm, h = nm[:nm.index("\x01")], nm[nm.index("\x01"):]; suffix = s.hole(h) + ".n()"
            if nm not in SIG: raise No()
            s.decl = (str(SIG[nm]), suffix, s.subs()); s.eat(";"); s.done()
            if len(s.decl[2]) > 2: raise No()
            return 0, None
        if v == "component":
            s.next(); k, nm = s.next(); ix = s.subs()
            if k == "hole" and s.peek(";"):
                h = s.hole(nm); s.conds.append("isname(%s.tx())" % h); s.next(); s.done()
                if len(ix) != 2: raise No()
                s.decl = ("nm(%s.tx())" % h, "0", ix); return 0, None
            if nm not in COMP: raise No()
            flat = nm in ("state_changed", "is_accepted")
            if s.peek(";"):
                s.next(); s.done()
                if len(ix) != (1 if flat else 2): raise No()
                s.decl = (str(COMP[nm]), "0", (["1"] + ix) if flat else ix); return 0, None
            if ix or not flat: raise No()
            s.decl = (str(COMP[nm]), "0", [])
            s.eat("="); r = s.inst(str(COMP[nm]), ["0", "0"]); s.eat(";"); s.done(); return 1, r
        # instance of a component, or a constraint
        save = s.p
        if k == "id" and v in COMP:
            s.next(); ix = s.subs()
            if s.peek("="):
                s.eat("="); ix = s.comp(ix, v in ("state_changed", "is_accepted")); r = s.inst(str(COMP[v]), ix); s.eat(";"); s.done(); return 1, r
            s.p = save
        lhs = s.ref(); o = s.next()[1]
        if o not in ("<==", "==="): raise No()
        s.writes = o == "<=="
        if s.peek()[0] == "id" and s.t[s.p + 1][1] == "(" and s.peek()[1] not in SIG:
            if o != "<==": raise No()
            r = s.call(lhs)
        else: r = "%s == %s" % (lhs, s.value())
        s.eat(";"); s.done()
        return 1, r
    def done(s):
        if s.t[s.p][0] != "end": raise No()
    def facts(s):
        """what the line does to the cells of the circuit, as a term over m (0 writes, 1 opens as an input of an instance, 2 reads, 3 does
        wrongly, 4 declares, 5 declares as an input, 6 declares as an output), n, i and the cell c"""
        any_ = lambda l: " || ".join(l) if l else "false"
        w, o, r, bad, d = [], [], list(s.cells), [], []
        if s.opens:
            nm, ix, cond = s.opens
            w.append("c == " + cell(nm, "0", ix[0], ix[1], -1, "0")); o.append("c.s == %s && c.k == 0 && c.a == %s && c.b == %s && %s" % (nm, ix[0], ix[1], cond))
        if s.writes: w.append("c == " + r.pop(0))
        bad = ["!(%s)" % x for x in s.ok]
        r = ["c == " + x for x in r] + ["xrd(%s.tx(), n, i, c)" % h for h in s.xs]
        if s.decl:
            nm, k, ix = s.decl; nd = len(ix) if nm.isdigit() and int(nm) in SIG.values() else 0; ix = ix + ["1"] * (2 - len(ix))
            d.append("c.s == %s && c.k == %s && 0 <= c.a && c.a < %s && 0 <= c.b && c.b < %s && c.p == -1 && c.q == %d" % (nm, k, ix[0], ix[1], nd))
        return by_m({0: any_(w), 1: any_(o), 2: any_(r), 3: any_(bad), 4: any_(d), 5: any_(d if s.io == "input" else []), 6: any_(d if s.io == "output" else [])})
def cell(nm, k, a, b, p, q): return "(Cell { s: %s, k: %s, a: %s, b: %s, p: %s, q: %s })" % (nm, k, a, b, p, q)
def by_m(d):
    r = "false"
    for m in sorted(d, reverse=True):
        if d[m] != "false": r = "(if m == %d { %s } else { %s })" % (m, d[m], r)
    return r
CLOSED = False      # state what the lines do to the cells instead of what they mean for a witness
def circ_lines(text, kinds):
    """meaning of each line of a text with holes, or None; (kind, term, conditions)"""
    out = []
    for l in text.split("\n"):
        if not l.strip(): continue
        hs = [int(x) for x in re.findall("\x01(\\d+)\x02", l)]
        b = l.strip()
        if b.startswith("//") or b.startswith("pragma ") or b.startswith("include ") or b.startswith("template "):
            if "*/" in b or "/*" in b: return None
            if b.startswith("template ") and not re.fullmatch(r"template (\w|\x01\d+\x02)+\(msg_bytes\) \{", b): return None
            if b.startswith("pragma ") and b != "pragma circom 2.1.5;": return None
            if b.startswith("include ") and b != 'include "@zk-email/zk-regex-circom/circuits/regex_helpers.circom";': return None
            hd = {"t": 31, "p": 32, "i": 33}.get(b[0])
            out.append((0, by_m({4: "c == " + cell(hd, "0", "0", "0", -1, "0")}) if CLOSED and hd else ("false" if CLOSED else None), ["!has_newline(a%d.tb())" % h for h in hs if kinds[h] == ""])); continue
        try:
            c = Circom(l, kinds); k, m = c.line()
            out.append((k, (m, c.facts() if k < 2 else "false") if CLOSED and k == 2 else (c.facts() if k < 2 else "false") if CLOSED else m, c.conds))
        except (No, IndexError): return None
    return out
def circ_expr(text, kinds):
    if any(x in text for x in ";=\n/"): return None
    try:
        c = Circom(text, kinds); r = c.value(); c.done()
        return (" || ".join("c == " + x for x in c.cells) or "false") if CLOSED else r, c.conds
    except (No, IndexError): return None
def stmt_sem(pieces, kinds):
    """what is known of the text with these pieces, as contract clauses about the result r"""
    text = "".join(p + ("\x01%d\x02" % i if i < len(kinds) else "") for i, p in enumerate(pieces))
    ens = []
    if text.strip("\x01\x02 0123456789") == "" and text.strip() != "": return ens     # no text of its own
    if pieces[0]: ens.append("r@.len() > 0 && r@[0] == %d" % pieces[0].encode()[0])
    if pieces[-1]: ens.append("r@.len() > 0 && r@.last() == %d" % pieces[-1].encode()[-1])
    if text in SIG or text in COMP: ens.append("isname(r) && nm(r) == %d" % (SIG.get(text) or COMP.get(text)))
    ls = circ_lines(text, kinds)
    if ls is not None and (text == "" or ls or text.strip() == "") and text not in SIG:
        conds = sorted(set(c for _, _, cs in ls for c in cs))
        one = "\n" not in text and len(ls) == 1
        f = ["r.ls() == seq![r]"] if one else ["r.ls().len() == %d" % len(ls)]
        for q, (k, m, _) in enumerate(ls):
            l = "r" if one else "r.ls()[%d]" % q
            f.append("kind(%s) == %d" % (l, k))
            if CLOSED: f.append("(forall|m: int, n: int, i: int, c: Cell| #[trigger] fa(%s, m, n, i, c) == (%s))" % (l, m[1] if k == 2 else m))
            elif k == 1: f.append("(forall|w: Wit, n: int, i: int| #[trigger] lsat(%s, w, n, i) == (%s))" % (l, m))
            if k == 2:
                lh = m[0] if CLOSED else m
                f.append("(forall|n: int| #[trigger] flo(%s, n) == %s) && (forall|n: int| #[trigger] fhi(%s, n) == %s)" % (l, lh[0], l, lh[1]))
        ens.append("(%s ==> %s)" % (" && ".join(conds), " && ".join(f)) if conds else " && ".join(f))
    elif text not in SIG and text not in COMP:
        e = circ_expr(text, kinds)
        if e: ens.append("(%s%sxn(r) == 1 && isxs(r) && (%s))" % (" && ".join(e[1]), " ==> " if e[1] else "", "forall|n: int, i: int, c: Cell| (#[trigger] xrd(r, n, i, c)) == (%s)" % e[0] if CLOSED else "forall|w: Wit, n: int, i: int| (#[trigger] xval(r, w, n, i)) == seq![%s]" % e[0]))
    return ens
def lit_fn(k, b):
    ens = []
    if PATTERNS.get(b.decode("utf8", "replace")): ens.append("r@ == %s()" % PATTERNS[b.decode("utf8", "replace")])
    if len(b) <= 24: ens.append("r@ == %s" % seq_bytes(b))
    ens += [re.sub(r"\br\b", "(*r)", x) for x in stmt_sem([b.decode("utf8", "replace")], [])]
    return "#[verifier::external_body]\nfn vx_lit_%d() -> (r: &'static VString)%s { unimplemented!() }  // %r" % (k, (" ensures " + ", ".join(ens)) if ens else "", b.decode("utf8", "replace"))
def fmt_fn(k, f):
    n = len(f["kinds"])
    dbg = [x for x in f["kinds"]] == ["?"] and all(p == "" for p in f["pieces"])
    gen = ", ".join("A%d%s" % (i, ": VxFmtA + ?Sized" if f["kinds"][i] == "" else "") for i in range(n))
    args = ", ".join("a%d: &A%d" % (i, i) for i in range(n))
    ens = stmt_sem(f["pieces"], f["kinds"])
    if dbg: ens.append("r@ == dbg_text(a0)")
    if n == 2 and f["kinds"] == ["", ""] and all(p == "" for p in f["pieces"]): ens.append("(cut(a0.tb(), a1.tb()) ==> r.ls() == a0.tx().ls() + a1.tx().ls())")
    if all(x == "" for x in f["kinds"]) and sum(len(p.encode()) for p in f["pieces"]) <= 12:
        t = []
        for i, p in enumerate(f["pieces"]):
            if p: t.append(seq_bytes(p.encode()))
            if i < n: t.append("a%d.tb()" % i)
        ens.append("r@ == " + " + ".join(t))
    return "#[verifier::external_body]\nfn vx_fmt_%d<%s>(%s) -> (r: VString)%s { unimplemented!() }  // %r" % (k, gen, args, (" ensures " + ", ".join(ens)) if ens else "", "{}".join(f["pieces"]))
def circomish(t): return "<==" in t or "===" in t or "signal " in t or "component " in t or re.search(r"\bfor \(var", t) is not None or re.search(r"\w+\[[^\]]*\]", t) is not None
def known(pieces, kinds):
    """does the text look like circuit text without having a known meaning?"""
    return not circomish("".join(p + "\x01" for p in pieces)) or any("kind(" in e or "xval(" in e or "xrd(" in e for e in stmt_sem(pieces, kinds))
def known_lit(s): return known([s], [])
def known_fmt(f): return known(f["pieces"], f["kinds"])
def value_holes(f):
    """how many holes of the text stand for a value (a number is expected there; a text put there has no meaning)"""
    text = "".join(p + ("\x01%d\x02" % i if i < len(f["kinds"]) else "") for i, p in enumerate(f["pieces"])); r = 0
    for l in text.split("\n"):
        c = None
        try: c = Circom(l, f["kinds"]); c.line()
        except (No, IndexError):
            try: c = Circom(l, f["kinds"]); c.value(); c.done()
            except (No, IndexError): c = None
        r += c.vals if c else 0
    return r
