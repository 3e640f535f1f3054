// Trusted library: contracts of the standard-library types and operations that the extracted code uses.
// Bodies never run (the deductive argument is over the contracts); they are listed in the evidence as the trusted base.
#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_assignments, unreachable_code, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;

pub trait VOrd: Sized { spec fn vlt(a: Self, b: Self) -> bool; }
impl VOrd for usize { open spec fn vlt(a: usize, b: usize) -> bool { a < b } }
impl VOrd for u8 { open spec fn vlt(a: u8, b: u8) -> bool { a < b } }
impl VOrd for (usize, usize) { open spec fn vlt(a: (usize, usize), b: (usize, usize)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) } }
impl<'a> VOrd for &'a (usize, usize) { open spec fn vlt(a: &'a (usize, usize), b: &'a (usize, usize)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) } }
impl VOrd for VString { uninterp spec fn vlt(a: VString, b: VString) -> bool; }
impl<'a> VOrd for &'a VString { uninterp spec fn vlt(a: &'a VString, b: &'a VString) -> bool; }

// ---------- strings ----------
#[verifier::external_body]
#[derive(Debug)]
pub struct VString { s: String }
// a witness of a generated circuit: the values of its signals
#[verifier::external_body]
pub struct Wit { x: u8 }
impl View for VString { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VString {
    pub uninterp spec fn ls(&self) -> Seq<VString>;      // the lines of the text that are not blank, in order
    #[verifier::external_body]
    pub fn new() -> (r: VString) ensures r@ == Seq::<u8>::empty(), r.ls() == Seq::<VString>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clear(&mut self) ensures final(self)@ == Seq::<u8>::empty(), final(self).ls() == Seq::<VString>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &VString) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@, r@.len() <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_bytes(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_eq_str(&self, o: &VString) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_push_str(&mut self, o: &VString) ensures final(self)@ == old(self)@ + o@,
        cut(old(self)@, o@) ==> final(self).ls() == old(self).ls() + o.ls() { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with<P: VPat>(&self, o: P) -> (r: bool) ensures o.vpat().len() > 0 ==> r == (o.vpat().len() <= self@.len() && self@.subrange(0, o.vpat().len() as int) == o.vpat()) { unimplemented!() }
    // (text is UTF-8: after an ASCII byte a character begins)
    // one-byte pattern and suffix only (ASCII): the callers below pass character literals
    #[verifier::external_body]
    pub fn strip_suffix(&self, c: char) -> (r: Option<&VString>) ensures match r {
        Some(x) => (c as u32) < 128 ==> self@.len() > 0 && self@.last() == c as u8 && x@ == self@.drop_last(),
        None => (c as u32) < 128 ==> self@.len() == 0 || self@.last() != c as u8 } { unimplemented!() }
    #[verifier::external_body]
    pub fn replace(&self, c: char, o: &VString) -> (r: VString) ensures
        (c as u32) < 128 ==> forall|b: u8| #[trigger] r@.contains(b) ==> ((b != c as u8 && self@.contains(b)) || o@.contains(b)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_to_string(&self) -> (r: VString) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_ends_with_char(&self, c: char) -> (r: bool) ensures (c as u32) < 128 ==> r == (self@.len() > 0 && self@.last() == c as u8) { unimplemented!() }
    // ends_with('c') with a one-byte character literal
    #[verifier::external_body]
    pub fn ends_with(&self, c: char) -> (r: bool) ensures (c as u32) < 128 ==> r == (self@.len() > 0 && self@.last() == c as u8) { unimplemented!() }
    #[verifier::external_body]
    pub fn trim(&self) -> (r: &VString) ensures forall|a: Seq<u8>, m: Seq<u8>, b: Seq<u8>| #[trigger] padded(self@, a, m, b) ==> r@ == m, piece(r@, self@) { unimplemented!() }
    // the pieces between the occurrences of o
    #[verifier::external_body]
    pub fn vx_split(&self, o: &VString) -> (r: Vec<&VString>) ensures r@.len() > 0,
        forall|a: Seq<u8>, b: Seq<u8>| #[trigger] cut_once(self@, o@, a, b) ==> r@.len() == 2 && r@[0]@ == a && r@[1]@ == b, forall|i: int| 0 <= i < r@.len() ==> piece((#[trigger] r@[i])@, self@) { unimplemented!() }
    // chars().nth(i) of a text whose first i+1 characters are ASCII
    #[verifier::external_body]
    pub fn vx_nth_char(&self, i: usize) -> (r: Option<char>) ensures ascii_prefix(self@, i + 1) ==> (match r { Some(c) => i < self@.len() && c as u32 == self@[i as int] as u32, None => i >= self@.len() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_parse_usize(&self) -> (r: Result<usize, VxForeign>) ensures match r { Ok(n) => dec_val(self@) == Some(n as int), Err(_) => dec_val(self@) == None::<int> || dec_val(self@).unwrap() > usize::MAX } { unimplemented!() }
}
// a search text: a text, or an ASCII character
pub trait VPat { spec fn vpat(&self) -> Seq<u8>; }
impl VPat for char { open spec fn vpat(&self) -> Seq<u8> { if (*self as u32) < 128 { seq![*self as u8] } else { Seq::<u8>::empty() } } }
impl<'a> VPat for &'a VString { open spec fn vpat(&self) -> Seq<u8> { self@ } }
pub uninterp spec fn dec_val(s: Seq<u8>) -> Option<int>;
pub open spec fn is_blank(c: u8) -> bool { c == 32 || (9 <= c && c <= 13) }
pub open spec fn padded(s: Seq<u8>, a: Seq<u8>, m: Seq<u8>, b: Seq<u8>) -> bool { s == a + m + b && (forall|i: int| 0 <= i < a.len() ==> is_blank(#[trigger] a[i])) && (forall|i: int| 0 <= i < b.len() ==> is_blank(#[trigger] b[i]))
    && (m.len() > 0 ==> m[0] < 128 && !is_blank(m[0]) && m.last() < 128 && !is_blank(m.last())) }
pub open spec fn ascii(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < 128 }
pub open spec fn piece(m: Seq<u8>, s: Seq<u8>) -> bool { exists|i: int| 0 <= i && i + m.len() <= s.len() && m == #[trigger] s.subrange(i, i + m.len()) }
pub open spec fn occurs(s: Seq<u8>, o: Seq<u8>, i: int) -> bool { 0 <= i && i + o.len() <= s.len() && s.subrange(i, i + o.len()) == o }
pub open spec fn cut_once(s: Seq<u8>, o: Seq<u8>, a: Seq<u8>, b: Seq<u8>) -> bool { o.len() > 0 && s == a + o + b && forall|i: int| #[trigger] occurs(s, o, i) ==> i == a.len() }
pub open spec fn ascii_prefix(s: Seq<u8>, n: int) -> bool { forall|j: int| 0 <= j < n && j < s.len() ==> (#[trigger] s[j]) < 128 }
// a line ends between a and b
pub open spec fn cut(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() == 0 || b.len() == 0 || a.last() == 10 || b[0] == 10 }
pub open spec fn has_newline(s: Seq<u8>) -> bool { s.contains(10) || s.contains(13) }
// circuit text: what a line is (0 declaration or comment, 1 statement, 2 loop header, 3 closing brace), the range of a loop header,
// whether the witness satisfies a statement for the value i of the loop variable and n = msg_bytes; the values of a list of expressions
pub uninterp spec fn kind(l: VString) -> int;
pub uninterp spec fn flo(l: VString, n: int) -> int;
pub uninterp spec fn fhi(l: VString, n: int) -> int;
pub uninterp spec fn lsat(l: VString, w: Wit, n: int, i: int) -> bool;
pub uninterp spec fn isname(l: VString) -> bool;
pub uninterp spec fn nm(l: VString) -> int;
pub uninterp spec fn isxs(l: VString) -> bool;
pub uninterp spec fn xn(l: VString) -> nat;
pub uninterp spec fn xval(l: VString, w: Wit, n: int, i: int) -> Seq<int>;
// what a line does to a cell of the circuit: a signal (p = -1, q = number of its indices), an instance of a component (p = -1), a port of one (p = 0 in, 1 a, 2 b, 3 out);
// m: 0 writes, 1 opens as an input of the instance it makes, 2 reads, 3 has the wrong number of inputs, 4 declares, 5 as input, 6 as output
pub ghost struct Cell { pub s: int, pub k: int, pub a: int, pub b: int, pub p: int, pub q: int }
pub uninterp spec fn fa(l: VString, m: int, n: int, i: int, c: Cell) -> bool;
pub uninterp spec fn xrd(l: VString, n: int, i: int, c: Cell) -> bool;
pub open spec fn all_single(s: Seq<VString>) -> bool { forall|q: int| 0 <= q < s.len() ==> isxs(#[trigger] s[q]) && xn(s[q]) == 1 }
pub open spec fn xvals(s: Seq<VString>, w: Wit, n: int, i: int) -> Seq<int> { Seq::new(s.len(), |q: int| xval(s[q], w, n, i)[0]) }
// a text is determined by its bytes
pub axiom fn axiom_text(a: VString, b: VString) ensures a@ == b@ ==> a == b;
#[verifier::external_body]
pub fn vx_concat(a: VString, b: &VString) -> (r: VString) ensures r@ == a@ + b@, cut(a@, b@) ==> r.ls() == a.ls() + b.ls() { unimplemented!() }
pub trait VxNum { spec fn vnum(&self) -> int; fn vx_to_string(&self) -> (r: VString) ensures r@ == dec_text(self.vnum()); }
impl VxNum for usize { open spec fn vnum(&self) -> int { *self as int } #[verifier::external_body] fn vx_to_string(&self) -> (r: VString) { unimplemented!() } }
// text slices must be taken on character boundaries; positions next to an ASCII byte are boundaries
pub trait VxSliceable { type Out: ?Sized; spec fn vx_len(&self) -> nat; spec fn vx_sub(&self, a: int, b: int, r: &Self::Out) -> bool; spec fn vx_bound(&self, i: int) -> bool; }
impl VxSliceable for VString { type Out = VString; open spec fn vx_len(&self) -> nat { self@.len() }
    open spec fn vx_sub(&self, a: int, b: int, r: &VString) -> bool { r@ == self@.subrange(a, b) }
    open spec fn vx_bound(&self, i: int) -> bool { is_bound(self@, i) } }
impl<T> VxSliceable for [T] { type Out = [T]; open spec fn vx_len(&self) -> nat { self@.len() }
    open spec fn vx_sub(&self, a: int, b: int, r: &[T]) -> bool { r@ == self@.subrange(a, b) }
    open spec fn vx_bound(&self, i: int) -> bool { 0 <= i <= self@.len() } }
impl<T> VxSliceable for Vec<T> { type Out = [T]; open spec fn vx_len(&self) -> nat { self@.len() }
    open spec fn vx_sub(&self, a: int, b: int, r: &[T]) -> bool { r@ == self@.subrange(a, b) }
    open spec fn vx_bound(&self, i: int) -> bool { 0 <= i <= self@.len() } }
impl<'x, S: VxSliceable + ?Sized> VxSliceable for &'x S { type Out = S::Out; open spec fn vx_len(&self) -> nat { (**self).vx_len() }
    open spec fn vx_sub(&self, a: int, b: int, r: &S::Out) -> bool { (**self).vx_sub(a, b, r) }
    open spec fn vx_bound(&self, i: int) -> bool { (**self).vx_bound(i) } }
pub open spec fn is_bound(s: Seq<u8>, i: int) -> bool { 0 <= i <= s.len() && (i == 0 || i == s.len() || s[i] < 128 || s[i] >= 192) }
pub axiom fn axiom_utf8(s: VString, i: int) ensures 0 <= i < s@.len() && s@[i] < 128 ==> is_bound(s@, i + 1);
#[verifier::external_body]
pub fn vx_slice_from<S: VxSliceable + ?Sized>(s: &S, a: usize) -> (r: &S::Out) requires s.vx_bound(a as int), a <= s.vx_len() ensures s.vx_sub(a as int, s.vx_len() as int, r) { unimplemented!() }
#[verifier::external_body]
pub fn vx_slice_range<S: VxSliceable + ?Sized>(s: &S, a: usize, b: usize) -> (r: &S::Out) requires a <= b, b <= s.vx_len(), s.vx_bound(a as int), s.vx_bound(b as int) ensures s.vx_sub(a as int, b as int, r) { unimplemented!() }

// ---------- copies ----------
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_opt_cloned<T>(o: Option<&T>) -> (r: Option<T>) ensures match o { Some(x) => r == Some(*x), None => r == None::<T> } { unimplemented!() }
#[verifier::external_body]
pub fn vx_take<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }

pub proof fn push_contains<T>(s: Seq<T>, e: T) ensures forall|x: T| #[trigger] s.push(e).contains(x) == (s.contains(x) || x == e)
{
    assert forall|x: T| #[trigger] s.push(e).contains(x) == (s.contains(x) || x == e) by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(e)[i] == x); }
        if x == e { assert(s.push(e)[s.len() as int] == x); }
    }
}
pub proof fn drop_first_contains<T>(s: Seq<T>) requires s.len() > 0 ensures forall|x: T| #[trigger] s.contains(x) ==> x == s[0] || s.drop_first().contains(x)
{
    assert forall|x: T| #[trigger] s.contains(x) implies x == s[0] || s.drop_first().contains(x) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i > 0 { assert(s.drop_first()[i - 1] == x); } }
}
// ---------- maps and sets ----------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VMap<K, V> { m: Vec<(K, V)> }
impl<K, V> View for VMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
pub trait VKey<K> { spec fn vkey(&self) -> K; }
impl<'a, K> VKey<K> for &'a K { open spec fn vkey(&self) -> K { **self } }
impl<'a, 'b> VKey<&'a VString> for &'b VString { open spec fn vkey(&self) -> &'a VString { *self } }
pub open spec fn map_refs<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> *s[i].0 != *s[j].0
}
pub open spec fn map_sorted<K: VOrd, V>(s: Seq<(&K, &V)>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> K::vlt(*s[i].0, *s[j].0) }
pub open spec fn map_vals<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0 != s[j].0
}
pub open spec fn set_refs<T>(s: Seq<&T>, m: Set<T>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains(*(#[trigger] s[i]))
    &&& forall|k: T| #[trigger] m.contains(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == k
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> *s[i] != *s[j]
}
pub open spec fn set_sorted<T: VOrd>(s: Seq<&T>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> T::vlt(*s[i], *s[j]) }
pub open spec fn set_vals<T>(s: Seq<T>, m: Set<T>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains(#[trigger] s[i])
    &&& forall|k: T| #[trigger] m.contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) == k
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i] != s[j]
}
pub open spec fn seq_refs<T>(s: Seq<&T>, v: Seq<T>) -> bool { s.len() == v.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == v[i] }
impl<K: VOrd, V> VMap<K, V> {
    #[verifier::external_body]
    pub fn from<const N: usize>(a: [(K, V); N]) -> (r: Self) ensures forall|k: K| #[trigger] r@.contains_key(k) <==> exists|i: int| 0 <= i < N && (#[trigger] a@[i]).0 == k,
        forall|i: int| 0 <= i < N && (forall|j: int| i < j < N ==> (#[trigger] a@[j]).0 != a@[i].0) ==> r@[(#[trigger] a@[i]).0] == a@[i].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get<Q: VKey<K>>(&self, q: Q) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(q.vkey()) && *v == self@[q.vkey()], None => !self@.contains_key(q.vkey()) } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains_key<Q: VKey<K>>(&self, q: Q) -> (r: bool) ensures r == self@.contains_key(q.vkey()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_remove<Q: VKey<K>>(&mut self, q: Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(q.vkey()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get_mut(&mut self, k: &K) -> (r: Option<&mut V>) ensures
        match r { Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
                  None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ } { unimplemented!() }
    // values_mut(): the keys first, then each value in place
    #[verifier::external_body]
    pub fn vx_owned_keys(&self) -> (r: Vec<K>) ensures set_vals(r@, self@.dom()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get_present(&mut self, k: &K) -> (v: &mut V) requires old(self)@.contains_key(*k) ensures *v == old(self)@[*k], final(self)@ == old(self)@.insert(*k, *final(v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry_or(&mut self, k: K, d: V) -> (r: &mut V) ensures
        *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { d }), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_items<'a>(&'a self) -> (r: Vec<(&'a K, &'a V)>) ensures map_refs(r@, self@), map_sorted(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_keys<'a>(&'a self) -> (r: Vec<&'a K>) ensures set_refs(r@, self@.dom()), set_sorted(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values<'a>(&'a self) -> (r: Vec<&'a V>) ensures
        forall|i: int| 0 <= i < r@.len() ==> exists|k: K| self@.contains_key(k) && self@[k] == *(#[trigger] r@[i]),
        forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == self@[k] { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VSet<T> { m: Vec<T> }
impl<T> View for VSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
impl<T: VOrd> VSet<T> {
    #[verifier::external_body]
    pub fn from<const N: usize>(a: [T; N]) -> (r: Self) ensures forall|k: T| #[trigger] r@.contains(k) <==> exists|i: int| 0 <= i < N && (#[trigger] a@[i]) == k { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_insert(&mut self, k: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_remove(&mut self, k: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains(&self, k: &T) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_items<'a>(&'a self) -> (r: Vec<&'a T>) ensures set_refs(r@, self@), set_sorted(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) ensures match r { Some(x) => self@.contains(*x) && forall|y: T| #[trigger] self@.contains(y) ==> y == *x || T::vlt(*x, y), None => self@ == Set::<T>::empty() } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_drain_all(&mut self) -> (r: Vec<T>) ensures final(self)@ == Set::<T>::empty(), set_vals(r@, old(self)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_append(&mut self, o: &mut VSet<T>) ensures final(self)@ == old(self)@.union(old(o)@), final(o)@ == Set::<T>::empty() { unimplemented!() }
}

// ---------- vectors ----------
pub trait VecX<T> {
    spec fn vxv(&self) -> Seq<T>;
    fn vx_items<'a>(&'a self) -> (r: Vec<&'a T>) ensures seq_refs(r@, self.vxv());
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.vxv().len() == 0);
    fn vx_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.vxv().len() > 0 && *x == self.vxv()[0], None => self.vxv().len() == 0 };
    fn vx_last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.vxv().len() > 0 && *x == self.vxv().last(), None => self.vxv().len() == 0 };
    fn vx_get(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self.vxv().len() && *x == self.vxv()[i as int], None => i >= self.vxv().len() };
    fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.vxv().contains(*x);
    fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vxv();
}
impl<T> VecX<T> for [T] {
    open spec fn vxv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_items<'a>(&'a self) -> (r: Vec<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
}
impl<T> VecX<T> for Vec<T> {
    open spec fn vxv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_items<'a>(&'a self) -> (r: Vec<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
}
pub trait VecM<T> {
    spec fn vmv(&self) -> Seq<T>;
    fn vx_get_mut(&mut self, i: usize) -> (r: Option<&mut T>) ensures match r {
        Some(x) => i < old(self).vmv().len() && *x == old(self).vmv()[i as int] && final(self).vmv() == old(self).vmv().update(i as int, *final(x)),
        None => i >= old(self).vmv().len() && final(self).vmv() == old(self).vmv() };
    fn vx_append(&mut self, o: &mut Vec<T>) ensures final(self).vmv() == old(self).vmv() + old(o)@, final(o)@ == Seq::<T>::empty();
    fn vx_append_vec(&mut self, o: Vec<T>) ensures final(self).vmv() == old(self).vmv() + o@;
    fn vx_push_front(&mut self, x: T) ensures final(self).vmv() == seq![x] + old(self).vmv();
    fn vx_push_back(&mut self, x: T) ensures final(self).vmv() == old(self).vmv().push(x);
    fn vx_pop_front(&mut self) -> (r: Option<T>) ensures match r {
        Some(x) => old(self).vmv().len() > 0 && x == old(self).vmv()[0] && final(self).vmv() == old(self).vmv().drop_first(),
        None => old(self).vmv().len() == 0 && final(self).vmv() == old(self).vmv() };
    fn vx_drain_all(&mut self) -> (r: Vec<T>) ensures final(self).vmv() == Seq::<T>::empty(), r@ == old(self).vmv();
}
impl<T> VecM<T> for Vec<T> {
    open spec fn vmv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_get_mut(&mut self, i: usize) -> (r: Option<&mut T>) { unimplemented!() }
    #[verifier::external_body] fn vx_append(&mut self, o: &mut Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_append_vec(&mut self, o: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_push_front(&mut self, x: T) { unimplemented!() }
    #[verifier::external_body] fn vx_push_back(&mut self, x: T) { unimplemented!() }
    #[verifier::external_body] fn vx_pop_front(&mut self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_drain_all(&mut self) -> (r: Vec<T>) { unimplemented!() }
}
// sorting: a permutation, given as a bijection of positions, in increasing order
pub uninterp spec fn sort_pos<T>(before: Seq<T>, after: Seq<T>, i: int) -> int;
pub open spec fn is_perm<T>(a: Seq<T>, b: Seq<T>) -> bool {
    &&& a.len() == b.len() && a.to_multiset() == b.to_multiset()
    &&& forall|x: T| #[trigger] a.contains(x) == b.contains(x)
}
pub open spec fn nondec<T: VOrd>(s: Seq<T>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> !T::vlt(s[j], s[i]) }
pub trait VxSort<T> { spec fn vsv(&self) -> Seq<T>; fn vx_sort(&mut self) where T: VOrd ensures is_perm(old(self).vsv(), final(self).vsv()), nondec(final(self).vsv()), old(self).vsv().no_duplicates() ==> final(self).vsv().no_duplicates();
    fn vx_sort_pairs(&mut self) where T: VOrd ensures is_perm(old(self).vsv(), final(self).vsv()), nondec(final(self).vsv()), old(self).vsv().no_duplicates() ==> final(self).vsv().no_duplicates(); }
impl<T> VxSort<T> for Vec<T> { open spec fn vsv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_sort(&mut self) where T: VOrd { unimplemented!() } #[verifier::external_body] fn vx_sort_pairs(&mut self) where T: VOrd { unimplemented!() } }
#[verifier::external_body]
pub fn vx_vec_repeat<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
#[verifier::external_body]
pub fn vx_vec_from<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_arr_items<'a, T, const N: usize>(a: [T; N]) -> (r: Vec<&'a T>) ensures r@.len() == N, forall|i: int| 0 <= i < N ==> *(#[trigger] r@[i]) == a@[i] { unimplemented!() }
#[verifier::external_body]
pub fn vx_rev<T>(a: Vec<T>) -> (r: Vec<T>) ensures r@ == a@.reverse() { unimplemented!() }
#[verifier::external_body]
pub fn vx_range_incl<T: VxScalar>(a: T, b: T) -> (r: Vec<T>) ensures
    r@.len() == (if a.vi() <= b.vi() { b.vi() - a.vi() + 1 } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).vi() == a.vi() + i { unimplemented!() }
pub trait VxScalar: Sized { spec fn vi(&self) -> int; }
impl VxScalar for u8 { open spec fn vi(&self) -> int { *self as int } }
impl VxScalar for usize { open spec fn vi(&self) -> int { *self as int } }
#[verifier::external_body]
pub fn vx_min<T: VxScalar>(a: T, b: T) -> (r: T) ensures r == (if b.vi() < a.vi() { b } else { a }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_max<T: VxScalar>(a: T, b: T) -> (r: T) ensures r == (if b.vi() >= a.vi() { b } else { a }) { unimplemented!() }
#[verifier::external_body]
pub fn vx_max_opt<T: VxScalar>(a: Option<T>, b: T) -> (r: Option<T>) ensures match a { Some(x) => r == Some(if b.vi() >= x.vi() { b } else { x }), None => r == Some(b) } { unimplemented!() }
#[verifier::external_body]
pub fn vx_unwrap_or<T>(a: Option<T>, b: T) -> (r: T) ensures match a { Some(x) => r == x, None => r == b } { unimplemented!() }
pub trait VxUnwrapOrDefault<T> { fn vx_unwrap_or_default(self) -> (r: T); }
impl VxUnwrapOrDefault<usize> for Option<usize> { #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: usize) ensures match self { Some(x) => r == x, None => r == 0 } { unimplemented!() } }
impl VxUnwrapOrDefault<bool> for Option<bool> { #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: bool) ensures match self { Some(x) => r == x, None => r == false } { unimplemented!() } }
#[verifier::external_body]
pub fn vx_opt_or_ref<'a, T>(a: Option<&'a T>, b: T) -> (r: &'a T) ensures match a { Some(x) => *r == *x, None => *r == b } { unimplemented!() }
#[verifier::external_body]
pub fn vx_is_some_eq<T>(a: Option<&T>, b: T) -> (r: bool) ensures r == (a.is_some() && *a.unwrap() == b) { unimplemented!() }
#[verifier::external_body]
pub fn vx_is_some_val<T>(a: Option<T>, b: T) -> (r: bool) ensures r == (a.is_some() && a.unwrap() == b) { unimplemented!() }
pub trait VxAsRef<T> { fn vx_as_ref(&self) -> (r: Option<&T>); }
impl<T> VxAsRef<T> for Option<T> { #[verifier::external_body] fn vx_as_ref(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.is_some() && *x == self.unwrap(), None => self.is_none() } { unimplemented!() } }

// ---------- consuming iteration ----------
pub trait VxInto { type It; spec fn vx_ok(self, s: Seq<Self::It>) -> bool; fn vx_into_items(self) -> (r: Vec<Self::It>) where Self: Sized ensures self.vx_ok(r@); }
impl<T> VxInto for Vec<T> { type It = T; open spec fn vx_ok(self, s: Seq<T>) -> bool { s == self@ } #[verifier::external_body] fn vx_into_items(self) -> (r: Vec<T>) { unimplemented!() } }
impl<'a, T> VxInto for &'a Vec<T> { type It = &'a T; open spec fn vx_ok(self, s: Seq<&'a T>) -> bool { seq_refs(s, self@) } #[verifier::external_body] fn vx_into_items(self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<'a, T> VxInto for &'a [T] { type It = &'a T; open spec fn vx_ok(self, s: Seq<&'a T>) -> bool { seq_refs(s, self@) } #[verifier::external_body] fn vx_into_items(self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<T: VOrd> VxInto for VSet<T> { type It = T; open spec fn vx_ok(self, s: Seq<T>) -> bool { set_vals(s, self@) } #[verifier::external_body] fn vx_into_items(self) -> (r: Vec<T>) { unimplemented!() } }
impl<'a, T: VOrd> VxInto for &'a VSet<T> { type It = &'a T; open spec fn vx_ok(self, s: Seq<&'a T>) -> bool { set_refs(s, self@) && set_sorted(s) } #[verifier::external_body] fn vx_into_items(self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<K: VOrd, V> VxInto for VMap<K, V> { type It = (K, V); open spec fn vx_ok(self, s: Seq<(K, V)>) -> bool { map_vals(s, self@) } #[verifier::external_body] fn vx_into_items(self) -> (r: Vec<(K, V)>) { unimplemented!() } }
impl<'a, K: VOrd, V> VxInto for &'a VMap<K, V> { type It = (&'a K, &'a V); open spec fn vx_ok(self, s: Seq<(&'a K, &'a V)>) -> bool { map_refs(s, self@) && map_sorted(s) } #[verifier::external_body] fn vx_into_items(self) -> (r: Vec<(&'a K, &'a V)>) { unimplemented!() } }

// ---------- collecting ----------
pub trait VxNew: Sized { spec fn vx_isnew(self) -> bool; fn vx_new() -> (r: Self) ensures r.vx_isnew(); }
impl<T> VxNew for Vec<T> { open spec fn vx_isnew(self) -> bool { self@ == Seq::<T>::empty() } #[verifier::external_body] fn vx_new() -> (r: Self) { unimplemented!() } }
impl<T> VxNew for VSet<T> { open spec fn vx_isnew(self) -> bool { self@ == Set::<T>::empty() } #[verifier::external_body] fn vx_new() -> (r: Self) { unimplemented!() } }
impl<K, V> VxNew for VMap<K, V> { open spec fn vx_isnew(self) -> bool { self@ == Map::<K, V>::empty() } #[verifier::external_body] fn vx_new() -> (r: Self) { unimplemented!() } }
impl VxNew for VString { open spec fn vx_isnew(self) -> bool { self@ == Seq::<u8>::empty() && self.ls() == Seq::<VString>::empty() } #[verifier::external_body] fn vx_new() -> (r: Self) { unimplemented!() } }
pub trait VxCollect<E>: Sized { spec fn vx_added(a: Self, b: Self, e: E) -> bool; fn vx_add(&mut self, e: E) ensures Self::vx_added(*old(self), *final(self), e); }
impl<T> VxCollect<T> for Vec<T> { open spec fn vx_added(a: Self, b: Self, e: T) -> bool { b@ == a@.push(e) } #[verifier::external_body] fn vx_add(&mut self, e: T) { unimplemented!() } }
impl<T: VOrd> VxCollect<T> for VSet<T> { open spec fn vx_added(a: Self, b: Self, e: T) -> bool { b@ == a@.insert(e) } #[verifier::external_body] fn vx_add(&mut self, e: T) { unimplemented!() } }
impl<K: VOrd, V> VxCollect<(K, V)> for VMap<K, V> { open spec fn vx_added(a: Self, b: Self, e: (K, V)) -> bool { b@ == a@.insert(e.0, e.1) } #[verifier::external_body] fn vx_add(&mut self, e: (K, V)) { unimplemented!() } }
impl<'a> VxCollect<&'a VString> for VString { open spec fn vx_added(a: Self, b: Self, e: &'a VString) -> bool { b@ == a@ + e@ } #[verifier::external_body] fn vx_add(&mut self, e: &'a VString) { unimplemented!() } }
impl VxCollect<VString> for VString { open spec fn vx_added(a: Self, b: Self, e: VString) -> bool { b@ == a@ + e@ } #[verifier::external_body] fn vx_add(&mut self, e: VString) { unimplemented!() } }
// joining: the statements (or expressions) of the elements, in order
pub open spec fn flat_ls(s: Seq<VString>) -> Seq<VString> decreases s.len() { if s.len() == 0 { Seq::<VString>::empty() } else { flat_ls(s.drop_last()) + s.last().ls() } }
pub open spec fn flat_bytes(s: Seq<VString>, sep: Seq<u8>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::<u8>::empty() } else if s.len() == 1 { s[0]@ } else { flat_bytes(s.drop_last(), sep) + sep + s.last()@ } }
pub trait VxJoin { spec fn vjv(&self) -> Seq<VString>; fn vx_join(&self, sep: &VString) -> (r: VString) ensures
    sep@ == seq![10u8] ==> r.ls() == flat_ls(self.vjv()),
    sep@ == seq![44u8, 32u8] && all_single(self.vjv()) ==> isxs(r) && xn(r) == self.vjv().len() && forall|w: Wit, n: int, i: int| #[trigger] xval(r, w, n, i) == xvals(self.vjv(), w, n, i),
    sep@ == seq![44u8, 32u8] ==> forall|n: int, i: int, c: Cell| #[trigger] xrd(r, n, i, c) == (exists|q: int| 0 <= q < self.vjv().len() && #[trigger] xrd(self.vjv()[q], n, i, c)),
    r@ == flat_bytes(self.vjv(), sep@); }
impl VxJoin for Vec<VString> { open spec fn vjv(&self) -> Seq<VString> { self@ } #[verifier::external_body] fn vx_join(&self, sep: &VString) -> (r: VString) { unimplemented!() } }
// serde_json::to_string: an injective text of the value, given by its inverse
pub uninterp spec fn un_pairs(s: VString) -> Seq<(VString, usize)>;
pub uninterp spec fn un_nums(s: VString) -> Seq<usize>;
pub trait VxJson { spec fn vx_is(&self, r: VString) -> bool; }
impl<'a> VxJson for Vec<(&'a VString, usize)> { open spec fn vx_is(&self, r: VString) -> bool { un_pairs(r).len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] un_pairs(r)[i]).0 == *self@[i].0 && un_pairs(r)[i].1 == self@[i].1 } }
impl VxJson for Vec<usize> { open spec fn vx_is(&self, r: VString) -> bool { un_nums(r) == self@ } }
#[verifier::external_body]
pub fn vx_json_string<T: VxJson>(x: &T) -> (r: Result<VString, VxForeign>) ensures r.is_ok(), x.vx_is(r.unwrap()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_json_parse<T, S: VxJsonSrc>(x: S) -> (r: Result<T, VxForeign>) ensures r.is_ok() ==> x.vx_gives(r.unwrap()), x.vx_fits::<T>() ==> r.is_ok() { unimplemented!() }
// what a JSON text or file is read as
pub uninterp spec fn json_is<T>(text: Seq<u8>, v: T) -> bool;
// the text has the shape of the type
pub uninterp spec fn json_fits<T>(text: Seq<u8>) -> bool;
pub uninterp spec fn file_is<T>(path: Seq<u8>, v: T) -> bool;
pub trait VxJsonSrc: Sized { spec fn vx_gives<T>(self, v: T) -> bool; spec fn vx_fits<T>(self) -> bool; }
impl<'a> VxJsonSrc for &'a VString { open spec fn vx_gives<T>(self, v: T) -> bool { json_is(self@, v) } open spec fn vx_fits<T>(self) -> bool { json_fits::<T>(self@) } }
impl VxJsonSrc for VFile { open spec fn vx_gives<T>(self, v: T) -> bool { file_is(self.path().txt(), v) } open spec fn vx_fits<T>(self) -> bool { false } }

// ---------- foreign things ----------
#[verifier::external_body]
#[derive(Debug)]
pub struct VxForeign { x: u8 }
#[verifier::external_body]
pub fn vx_err_from<A, B>(a: A) -> (r: B) ensures r == err_from::<A, B>(a) { unimplemented!() }
pub uninterp spec fn err_from<A, B>(a: A) -> B;
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_u8_from_str_radix(s: &VString, r: u32) -> (x: Result<u8, VxForeign>) ensures r == 16 ==> (match x { Ok(v) => hex_val(s@) == Some(v as int), Err(_) => hex_val(s@) == None::<int> || hex_val(s@).unwrap() > 255 }) { unimplemented!() }
impl VxForeign { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: VString) { unimplemented!() } }
pub uninterp spec fn hex_val(s: Seq<u8>) -> Option<int>;
pub broadcast axiom fn axiom_hex2(s: Seq<u8>) ensures s.len() == 2 && hexd(s[0]) < 16 && hexd(s[1]) < 16 ==> #[trigger] hex_val(s) == Some(hexd(s[0]) * 16 + hexd(s[1]));
pub open spec fn hexd(c: u8) -> int { if 48 <= c && c <= 57 { c - 48 } else if 97 <= c && c <= 102 { c - 87 } else if 65 <= c && c <= 70 { c - 55 } else { 16 } }
pub type ParseIntError = VxForeign;
// ---------- regular expressions of the regex crate: meaning known for the pattern (.+)-(.+) ----------
#[verifier::external_body]
pub struct VRegex { x: u8 }
pub open spec fn DASHED() -> Seq<u8> { seq![40u8, 46u8, 43u8, 41u8, 45u8, 40u8, 46u8, 43u8, 41u8] }
// (.+)-(.+) on one line of text: the last dash that is neither the first nor the last byte
pub open spec fn dash(s: Seq<u8>, p: int) -> bool { 1 <= p && p + 1 < s.len() && s[p] == 45 }
pub open spec fn last_dash(s: Seq<u8>, p: int) -> bool { dash(s, p) && forall|q: int| #[trigger] dash(s, q) ==> q <= p }
pub open spec fn one_line(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != 10 && s[i] < 128 }
impl VRegex {
    pub uninterp spec fn pat(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(s: &VString) -> (r: Result<VRegex, VxForeign>) ensures match r { Ok(x) => x.pat() == s@, Err(_) => s@ != DASHED() && s@ != RE_STATES() && s@ != RE_TRANSITIONS() && s@ != RE_START() } { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, s: &VString) -> (r: bool) ensures self.pat() == DASHED() && one_line(s@) ==> r == (exists|p: int| #[trigger] dash(s@, p)) { unimplemented!() }
    #[verifier::external_body]
    pub fn captures(&self, s: &VString) -> (r: Option<Vec<VString>>) ensures
        self.pat() == DASHED() && r.is_some() ==> r.unwrap()@.len() == 3,
        self.pat() == DASHED() && one_line(s@) ==> match r {
            Some(c) => exists|p: int| #[trigger] last_dash(s@, p) && c@[1]@ == s@.subrange(0, p) && c@[2]@ == s@.subrange(p + 1, s@.len() as int),
            None => forall|p: int| !#[trigger] dash(s@, p) },
        self.pat() == RE_START() ==> r.is_some() == has_start(s@),
        self.pat() == RE_START() && r.is_some() ==> r.unwrap()@.len() == 2 && dec_val(r.unwrap()@[1]@) == Some(printed_start(s@) as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn captures_iter(&self, s: &VString) -> (r: Vec<Vec<VString>>) ensures
        ascii(s@) ==> forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@[i]@.len() ==> ascii((#[trigger] r@[i]@[j])@),
        self.pat() == RE_TRANSITIONS() ==> forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.len() >= 1,
        self.pat() == RE_STATES() ==> forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.len() >= 2,
        self.pat() == RE_STATES() ==> r@.len() == printed(s@).len() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.len() >= 2 && dec_val(r@[i]@[1]@) == Some(printed(s@)[i].id as int)
            && (r@[i]@[0]@.len() > 0 && r@[i]@[0]@[0] == 42) == printed(s@)[i].star && printed_line(r@[i]@[0]@, printed(s@)[i]),
        self.pat() == RE_TRANSITIONS() ==> forall|p: PState| #[trigger] printed_line(s@, p) ==> r@.len() == p.trans.len() && forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j])@.len() >= 1 && trans_text(r@[j]@[0]@, p.trans[j]) { unimplemented!() }
}
// the states printed in the debug form of an automaton, in order; what the patterns of parse_states and find_start_state find in it
pub ghost struct PTrans { pub label: Seq<u8>, pub dst: usize }
pub ghost struct PState { pub star: bool, pub id: usize, pub trans: Seq<PTrans> }
pub uninterp spec fn printed(s: Seq<u8>) -> Seq<PState>;
pub uninterp spec fn printed_line(s: Seq<u8>, p: PState) -> bool;
pub uninterp spec fn has_start(s: Seq<u8>) -> bool;
pub uninterp spec fn printed_start(s: Seq<u8>) -> usize;
pub uninterp spec fn RE_STATES() -> Seq<u8>;
pub uninterp spec fn RE_TRANSITIONS() -> Seq<u8>;
pub uninterp spec fn RE_START() -> Seq<u8>;
pub open spec fn blanks(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_blank(#[trigger] s[i]) }
pub open spec fn digits(s: Seq<u8>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> 48 <= (#[trigger] s[i]) && s[i] <= 57 }
pub open spec fn trans_parts(s: Seq<u8>, p: PTrans, a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, n: Seq<u8>, d: Seq<u8>) -> bool {
    blanks(a) && blanks(b) && blanks(c) && digits(n) && blanks(d) && dec_val(n) == Some(p.dst as int) && s == a + p.label + b + seq![61u8, 62u8] + (c + n + d)
}
pub open spec fn trans_text(s: Seq<u8>, p: PTrans) -> bool { exists|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, n: Seq<u8>, d: Seq<u8>| #[trigger] trans_parts(s, p, a, b, c, n, d) }
// ---------- dense automata of the regex-automata crate ----------
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VDfa<T> { x: Vec<T> }
#[verifier::external_body]
pub struct VConfig { x: u8 }
#[verifier::external_body]
pub struct VBuilder { x: u8 }
pub uninterp spec fn re_valid(pattern: Seq<u8>) -> bool;     // the pattern is one the library accepts
pub enum StartKind { Both, Unanchored, Anchored }
// what a configuration fixes: minimized, searches start anchored, bytes not merged into classes
pub ghost struct DfaConf { pub anchored: bool, pub plain_bytes: bool }
impl VConfig {
    pub uninterp spec fn conf(&self) -> DfaConf;
    #[verifier::external_body]
    pub fn minimize(self, b: bool) -> (r: VConfig) ensures r.conf() == self.conf() { unimplemented!() }
    #[verifier::external_body]
    pub fn start_kind(self, k: StartKind) -> (r: VConfig) ensures r.conf() == (DfaConf { anchored: k is Anchored, ..self.conf() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn byte_classes(self, b: bool) -> (r: VConfig) ensures r.conf() == (DfaConf { plain_bytes: !b, ..self.conf() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn accelerate(self, b: bool) -> (r: VConfig) ensures r.conf() == self.conf() { unimplemented!() }
}
impl VBuilder {
    pub uninterp spec fn conf(&self) -> DfaConf;
    #[verifier::external_body]
    pub fn configure(self, c: VConfig) -> (r: VBuilder) ensures r.conf() == c.conf() { unimplemented!() }
    #[verifier::external_body]
    pub fn build(&self, p: &VString) -> (r: Result<VDfa<Vec<u32>>, VxForeign>) ensures match r { Ok(d) => d.conf() == self.conf() && d.pat() == p@, Err(_) => !re_valid(p@) } { unimplemented!() }
}
impl VDfa<Vec<u32>> {
    pub uninterp spec fn conf(&self) -> DfaConf;
    pub uninterp spec fn pat(&self) -> Seq<u8>;      // the pattern it was built from
    #[verifier::external_body]
    pub fn config() -> (r: VConfig) ensures r.conf() == (DfaConf { anchored: false, plain_bytes: false }) { unimplemented!() }
    #[verifier::external_body]
    pub fn builder() -> (r: VBuilder) ensures r.conf() == (DfaConf { anchored: false, plain_bytes: false }) { unimplemented!() }
}
// ---------- files ----------
#[verifier::external_body]
pub struct VPath { x: u8 }
#[verifier::external_body]
pub struct VFile { x: u8 }
#[verifier::external_body]
pub struct VBufWriter { x: u8 }
// the whole text was written to the file at this path (each successful write of a run establishes one such fact)
pub uninterp spec fn wrote(p: VPath, t: Seq<u8>) -> bool;
impl VPath {
    pub uninterp spec fn txt(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from(s: &VString) -> (r: VPath) ensures r.txt() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_join<T: VxText>(&self, s: T) -> (r: VPath) ensures r == path_join(*self, s.vtx()) { unimplemented!() }
}
pub uninterp spec fn path_join(p: VPath, s: Seq<u8>) -> VPath;
pub trait VxText { spec fn vtx(&self) -> Seq<u8>; }
impl VxText for VString { open spec fn vtx(&self) -> Seq<u8> { self@ } }
impl<'a> VxText for &'a VString { open spec fn vtx(&self) -> Seq<u8> { (**self)@ } }
#[verifier::external_body]
pub fn vx_fs_write<T: VxText>(p: &VPath, s: T) -> (r: Result<(), VxForeign>) ensures r.is_ok() ==> wrote(*p, s.vtx()) { unimplemented!() }
impl VFile {
    pub uninterp spec fn path(&self) -> VPath;
    pub uninterp spec fn content(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn create(p: &VPath) -> (r: Result<VFile, VxForeign>) ensures r.is_ok() ==> r.unwrap().path() == *p && r.unwrap().content() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn open(p: &VString) -> (r: Result<VFile, VxForeign>) ensures r.is_ok() ==> r.unwrap().path().txt() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: Result<(), VxForeign>) ensures r.is_ok() ==> final(self).path() == old(self).path() && final(self).content() == old(self).content() + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), VxForeign>) ensures r.is_ok() ==> final(self).path() == old(self).path() && final(self).content() == old(self).content() && wrote(old(self).path(), old(self).content()) { unimplemented!() }
}
// a buffered writer: what was accepted is in the file only after a successful flush
impl VBufWriter {
    pub uninterp spec fn path(&self) -> VPath;
    pub uninterp spec fn content(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(f: VFile) -> (r: VBufWriter) ensures r.path() == f.path() && r.content() == f.content() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_write(&mut self, s: VString) -> (r: Result<(), VxForeign>) ensures r.is_ok() ==> final(self).path() == old(self).path() && final(self).content() == old(self).content() + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<(), VxForeign>) ensures r.is_ok() ==> final(self).path() == old(self).path() && final(self).content() == old(self).content() && wrote(old(self).path(), old(self).content()) { unimplemented!() }
}
// decimal digits
#[verifier::opaque]
pub open spec fn dec_text(n: int) -> Seq<u8> decreases n { if n < 0 { Seq::<u8>::empty() } else if n < 10 { seq![(48 + n) as u8] } else { dec_text(n / 10).push((48 + n % 10) as u8) } }

// ---------- the boundary: JavaScript values, the process ----------
#[verifier::external_body]
#[derive(Debug)]
pub struct JsValue { x: u8 }
// values as JavaScript sees them
pub ghost enum JsV { Undefined, Num(int), Str(Seq<u8>), Arr(Seq<JsV>), Other(int) }
impl JsValue {
    pub uninterp spec fn val(&self) -> JsV;
    pub open spec fn text(&self) -> Seq<u8> { match self.val() { JsV::Str(t) => t, _ => Seq::<u8>::empty() } }
    #[verifier::external_body]
    pub fn from_str(s: &VString) -> (r: JsValue) ensures r.val() == JsV::Str(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from<T: VxToJs>(t: T) -> (r: JsValue) ensures r.val() == t.jv() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_string(&self) -> (r: bool) ensures r == (self.val() is Str) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_string(&self) -> (r: Option<VString>) ensures r.is_some() == (self.val() is Str), r.is_some() ==> self.val() == JsV::Str(r.unwrap()@) { unimplemented!() }
}
pub trait VxToJs: Sized { spec fn jv(self) -> JsV; }
impl VxToJs for u8 { open spec fn jv(self) -> JsV { JsV::Num(self as int) } }
impl VxToJs for u32 { open spec fn jv(self) -> JsV { JsV::Num(self as int) } }
impl VxToJs for Array { open spec fn jv(self) -> JsV { JsV::Arr(self.items()) } }
impl<'a> VxToJs for &'a VString { open spec fn jv(self) -> JsV { JsV::Str(self@) } }
// js_sys::Array, as a value with one owner: it has no copy or clone here, and becomes part of another value by being moved into it
#[verifier::external_body]
pub struct Array { x: u8 }
impl Array {
    pub uninterp spec fn items(&self) -> Seq<JsV>;
    #[verifier::external_body]
    pub fn new() -> (r: Array) ensures r.items() == Seq::<JsV>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new_with_length(n: u32) -> (r: Array) ensures r.items().len() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, k: u32, v: JsValue) ensures k < old(self).items().len() ==> final(self).items() == old(self).items().update(k as int, v.val()) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, v: &JsValue) -> (r: u32) ensures final(self).items() == old(self).items().push(v.val()) { unimplemented!() }
    #[verifier::external_body]
    pub fn length(&self) -> (r: u32) ensures r == self.items().len() { unimplemented!() }
}
// what a JavaScript value is read as (serde_wasm_bindgen), and whether it has the shape of the type
pub uninterp spec fn js_is<T>(v: JsV, x: T) -> bool;
pub uninterp spec fn js_fits<T>(v: JsV) -> bool;
#[verifier::external_body]
pub fn from_value<T>(j: JsValue) -> (r: Result<T, VxForeign>) ensures r.is_ok() == js_fits::<T>(j.val()), r.is_ok() ==> js_is(j.val(), r.unwrap()) { unimplemented!() }
// ending the process: with a status that says that it failed
#[verifier::external_body]
pub fn exit(c: i32) requires c != 0 ensures false { unimplemented!() }
pub open spec fn opt_ref(o: Option<VString>) -> Option<&'static VString> { match o { Some(x) => Some(&x), None => None } }
pub trait VxDeref { spec fn vod(&self) -> Option<VString>; fn vx_as_deref(&self) -> (r: Option<&VString>) ensures r == opt_ref(self.vod()); }
impl VxDeref for Option<VString> { open spec fn vod(&self) -> Option<VString> { *self } #[verifier::external_body] fn vx_as_deref(&self) -> (r: Option<&VString>) { unimplemented!() } }
// for functions whose panics are the reports of errors: what holds when they return
pub trait VxMust: Sized { type T; spec fn vx_some(self, v: Self::T) -> bool; fn vx_must(self) -> (r: Self::T) ensures self.vx_some(r); }
impl<A, E> VxMust for Result<A, E> { type T = A; open spec fn vx_some(self, v: A) -> bool { self == Ok::<A, E>(v) } #[verifier::external_body] fn vx_must(self) -> (r: A) { unimplemented!() } }
impl<A> VxMust for Option<A> { type T = A; open spec fn vx_some(self, v: A) -> bool { self == Some(v) } #[verifier::external_body] fn vx_must(self) -> (r: A) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_stop<T>() -> (r: T) ensures false { unimplemented!() }
