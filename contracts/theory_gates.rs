// ---------- the gate templates: facts about the field, and running sums of bits ----------
pub open spec fn felems(s: Seq<int>) -> bool { forall|q: int| 0 <= q < s.len() ==> 0 <= #[trigger] s[q] < P() }
pub open spec fn run_sum(a: Seq<int>, s: Seq<int>, n: int) -> bool {
    1 <= n && a.len() >= n && s.len() == n && a[0] == fe(s[0]) && forall|i: int| 1 <= i < n ==> #[trigger] a[i] == fe(a[i - 1] + s[i])
}
// a running sum of fewer than P bits does not wrap: it is zero exactly when every bit is
pub proof fn run_sums(a: Seq<int>, s: Seq<int>, n: int)
    requires run_sum(a, s, n), bits(s), n < P()
    ensures 0 <= a[n - 1] <= n, (a[n - 1] == 0) == !any1(s)
{
    run_upto(a, s, n, n);
    if any1(s) { let q = choose|q: int| 0 <= q < s.len() && #[trigger] s[q] == 1; assert(a[n - 1] > 0); }
}
pub proof fn run_upto(a: Seq<int>, s: Seq<int>, n: int, m: int)
    requires run_sum(a, s, n), bits(s), n < P(), 1 <= m <= n
    ensures 0 <= a[m - 1] <= m, a[m - 1] == 0 ==> forall|q: int| 0 <= q < m ==> #[trigger] s[q] == 0, a[m - 1] > 0 ==> exists|q: int| 0 <= q < m && #[trigger] s[q] == 1, (exists|q: int| 0 <= q < m && #[trigger] s[q] == 1) ==> a[m - 1] > 0
    decreases m
{
    axiom_p();
    assert(bit(s[m - 1]));
    if m == 1 { fe_small(s[0]); }
    else {
        run_upto(a, s, n, m - 1);
        fe_small(a[m - 2] + s[m - 1]);
        assert(a[m - 1] == fe(a[m - 2] + s[m - 1]));
        assert(a[m - 1] == a[m - 2] + s[m - 1]);
    }
}
pub proof fn gate_facts()
    ensures
        forall|x: int| 0 <= x < P() ==> #[trigger] fe(x) == x,
        forall|x: int| -P() <= x < 0 ==> #[trigger] fe(x) == x + P(),
        forall|x: int| P() <= x < 2 * P() ==> #[trigger] fe(x) == x - P(),
        forall|a: int, b: int| (a == 0 || b == 0 ==> #[trigger] mu(a, b) == 0) && (a == 1 ==> mu(a, b) == b) && (b == 1 ==> mu(a, b) == a),
        P() > 1000000,
{
    fe_small(0);
    assert forall|x: int| true implies (0 <= x < P() ==> #[trigger] fe(x) == x) && (-P() <= x < 0 ==> fe(x) == x + P()) && (P() <= x < 2 * P() ==> fe(x) == x - P()) by { fe_small(x); }
    assert forall|a: int, b: int| true implies (a == 0 || b == 0 ==> #[trigger] mu(a, b) == 0) && (a == 1 ==> mu(a, b) == b) && (b == 1 ==> mu(a, b) == a) by { mu_bit(a, b); }
}
