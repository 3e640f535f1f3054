// ---------- automaton graphs ----------
pub type Tr = Map<usize, VSet<u8>>;
pub open spec fn ACC() -> Seq<u8> { seq![97u8, 99u8, 99u8, 101u8, 112u8, 116u8] }
pub open spec fn acc(s: DFAStateNode) -> bool { s.state_type@ == ACC() }
pub open spec fn has(m: Tr, k: usize, b: u8) -> bool { m.contains_key(k) && m[k]@.contains(b) }
pub open spec fn edge(m: Tr, k: usize) -> bool { m.contains_key(k) }
// at most one target per byte
pub open spec fn det(m: Tr) -> bool { forall|k1: usize, k2: usize, b: u8| #![trigger has(m, k1, b), has(m, k2, b)] has(m, k1, b) && has(m, k2, b) ==> k1 == k2 }
pub open spec fn tr(g: DFAGraph, i: int) -> Tr { g.states@[i].transitions@ }
pub open spec fn gdet(g: DFAGraph) -> bool { forall|i: int| 0 <= i < g.states@.len() ==> det(#[trigger] tr(g, i)) }
pub open spec fn numbered(g: DFAGraph, base: int) -> bool { forall|i: int| 0 <= i < g.states@.len() ==> (#[trigger] g.states@[i]).state_id == base + i }
pub open spec fn closed(g: DFAGraph, lo: int, hi: int) -> bool { forall|i: int, k: usize| 0 <= i < g.states@.len() && #[trigger] edge(tr(g, i), k) ==> lo <= k < hi }
// a well-formed automaton: states 0..n-1, every transition to an existing state, deterministic
pub open spec fn wf(g: DFAGraph) -> bool { g.states@.len() > 0 && numbered(g, 0) && closed(g, 0, g.states@.len() as int) && gdet(g) }
// the same automaton with its states numbered from base on
pub open spec fn shifted(a: DFAGraph, b: DFAGraph, base: int) -> bool {
    &&& b.states@.len() == a.states@.len()
    &&& numbered(b, base)
    &&& forall|i: int| 0 <= i < a.states@.len() ==> (#[trigger] b.states@[i]).state_type == a.states@[i].state_type
    &&& forall|i: int, k: usize| 0 <= i < a.states@.len() && #[trigger] edge(tr(b, i), k) ==> base <= k && edge(tr(a, i), (k - base) as usize) && tr(b, i)[k] == tr(a, i)[(k - base) as usize]
    &&& forall|i: int, k: usize| 0 <= i < a.states@.len() && #[trigger] edge(tr(a, i), k) ==> k + base <= usize::MAX && edge(tr(b, i), (k + base) as usize)
}
// the transitions s of an accepting state after it took over the transitions p of the start of the next part:
// a byte on which the start moves now moves like it, any other byte as before
pub open spec fn merged_edges(s: Tr, p: Tr, r: Tr) -> bool {
    &&& forall|k: usize| #[trigger] edge(r, k) == (edge(s, k) || edge(p, k))
    &&& forall|k: usize, b: u8| #[trigger] has(r, k, b) == (if edge(p, k) { has(p, k, b) } else { has(s, k, b) && !moves(p, b) })
}
pub open spec fn moves(p: Tr, b: u8) -> bool { exists|k: usize| #[trigger] has(p, k, b) }
pub open spec fn merged(s: DFAStateNode, p: DFAStateNode, r: DFAStateNode) -> bool { r.state_id == s.state_id && merged_edges(s.transitions@, p.transitions@, r.transitions@) && acc(r) == acc(p) }
// the automaton of the parts so far, extended by one more part (whose states are numbered from its start on)
pub open spec fn composed(net: DFAGraph, part: DFAGraph, r: DFAGraph) -> bool {
    &&& r.states@.len() == net.states@.len() + part.states@.len() - 1
    &&& forall|i: int| 0 <= i < net.states@.len() && !acc(net.states@[i]) ==> #[trigger] r.states@[i] == net.states@[i]
    &&& forall|i: int| 0 <= i < net.states@.len() && acc(net.states@[i]) ==> merged(net.states@[i], part.states@[0], #[trigger] r.states@[i])
    &&& forall|j: int| 1 <= j < part.states@.len() ==> (#[trigger] part.states@[j]) == r.states@[net.states@.len() + j - 1]
}
pub open spec fn accid(g: DFAGraph, a: usize) -> bool { exists|j: int| 0 <= j < g.states@.len() && acc(#[trigger] g.states@[j]) && g.states@[j].state_id == a }
// the ids a state of a part is known under: the start of a part that is not the first stands for the states in which the parts before it end
pub open spec fn known_as(net: DFAGraph, part: DFAGraph, j: int, a: usize) -> bool { if j == 0 && net.states@.len() > 0 { accid(net, a) } else { part.states@[j].state_id == a } }
pub open spec fn pub_edge(net: DFAGraph, part: DFAGraph, a: usize, k: usize) -> bool { exists|j: int| 0 <= j < part.states@.len() && #[trigger] edge(tr(part, j), k) && known_as(net, part, j, a) }
pub open spec fn pub_end(net: DFAGraph, part: DFAGraph, a: usize) -> bool { exists|j: int| 0 <= j < part.states@.len() && acc(#[trigger] part.states@[j]) && known_as(net, part, j, a) }
// the part never comes back to its start
pub open spec fn no_return(part: DFAGraph) -> bool { part.states@.len() > 0 && forall|j: int| 0 <= j < part.states@.len() ==> !edge(#[trigger] tr(part, j), part.states@[0].state_id) }
// the anchor alone: two states, one transition on the start marker 255
pub open spec fn simple_caret(g: DFAGraph) -> bool {
    &&& g.states@.len() == 2 && g.states@[0].state_id == 0 && g.states@[1].state_id == 1
    &&& !acc(g.states@[0]) && acc(g.states@[1])
    &&& forall|k: usize, b: u8| #[trigger] has(tr(g, 0), k, b) == (k == 1 && b == 255)
    &&& forall|k: usize| #[trigger] edge(tr(g, 0), k) == (k == 1)
    &&& forall|k: usize| !(#[trigger] edge(tr(g, 1), k))
}
pub open spec fn first_acc(s: Seq<DFAStateNode>, j: int) -> bool { 0 <= j < s.len() && acc(s[j]) && forall|i: int| 0 <= i < j ==> !acc(#[trigger] s[i]) }
// the alternatives of a group one of which is the anchor: the start no longer accepts, it reaches an accepting state with the marker 255
pub open spec fn caret_added(g: DFAGraph, r: DFAGraph) -> bool {
    &&& g.states@.len() > 0 && r.states@.len() == g.states@.len()
    &&& forall|i: int| 1 <= i < g.states@.len() ==> #[trigger] r.states@[i] == g.states@[i]
    &&& r.states@[0].state_id == g.states@[0].state_id && !acc(r.states@[0])
    &&& exists|j: int| first_acc(r.states@, j) && {
        let t = r.states@[j].state_id;
        &&& forall|k: usize, b: u8| #[trigger] has(tr(r, 0), k, b) == (has(tr(g, 0), k, b) || (k == t && b == 255))
        &&& forall|k: usize| #[trigger] edge(tr(r, 0), k) == (edge(tr(g, 0), k) || k == t)
    }
}
pub open spec fn sacc(s: Seq<&DFAStateNode>, a: usize) -> bool { exists|q: int| 0 <= q < s.len() && (#[trigger] s[q]).state_id == a }
