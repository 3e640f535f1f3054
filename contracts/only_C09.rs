// ---------- C09: the output of every witness of the text ----------
pub proof fn C09_out(t: VString, g: DFAGraph, name: Seq<u8>, ea: bool, w: Wit, n: int, a: int)
    requires is_allstr(t, g, name, ea), !has_newline(name), 0 <= n <= u64::MAX, csat(t.ls(), w, n), only_acc(g, a), a != 0
    ensures sg(w, 8, 0, 0, 0) == b2i(matched(g, inputs(w, n), n, a, ea)), scans(g, w, n)
{ reveal(is_allstr); let x = choose|x: int| #[trigger] only_acc(g, x) && (!has_newline(name) ==> circuit_text(t.ls(), g, ea, x)); assert(x == a); assert(circuit_of(g, ea, a, w, n)); }
