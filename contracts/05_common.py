spec(r"""
pub open spec fn npos() -> int { 18446744073709551615 }
pub proof fn lemma_s_find(s: Seq<int>, p: Seq<int>, i: int)
    requires s.len() < npos()
    ensures s_find(s, p, i) == npos() || (i <= s_find(s, p, i) && s_find(s, p, i) + p.len() <= s.len() && occurs(s, p, s_find(s, p, i))),
        forall|k: int| i <= k && (s_find(s, p, i) == npos() || k < s_find(s, p, i)) && i >= 0 ==> !occurs(s, p, k)
    decreases s.len() - i
{ if !(i < 0 || i + p.len() > s.len()) && !occurs(s, p, i) { lemma_s_find(s, p, i + 1); } }
pub proof fn lemma_s_find_skip(s: Seq<int>, p: Seq<int>, i: int, k: int)
    requires 0 <= i <= s.len(), k >= 0, s.len() < npos(), p.len() > 0
    ensures s_find(s.skip(i), p, k) == (if s_find(s, p, i + k) == npos() { npos() } else { s_find(s, p, i + k) - i })
    decreases s.len() - i - k
{
    if i + k + p.len() <= s.len() {
        assert(s.skip(i).subrange(k, k + p.len()) =~= s.subrange(i + k, i + k + p.len()));
        lemma_s_find(s, p, i + k);
        if !occurs(s, p, i + k) { lemma_s_find_skip(s, p, i, k + 1); }
    }
}
pub proof fn lemma_s_find_prefix(s: Seq<int>, p: Seq<int>)
    requires s.len() < npos()
    ensures (s_find(s, p, 0) == 0) == p.is_prefix_of(s), (seq_cmp(ssub(s, 0, p.len() as int), p) == 0) == p.is_prefix_of(s)
{ lemma_s_find(s, p, 0); if p.is_prefix_of(s) { assert(s.subrange(0, p.len() as int) =~= p); } let w = ssub(s, 0, p.len() as int); axiom_seq_cmp(w, p); if p.is_prefix_of(s) { assert(w =~= p); } if w =~= p { assert(forall|i: int| 0 <= i < p.len() ==> s[i] == w[i]); assert(p.is_prefix_of(s)); } }
""")
