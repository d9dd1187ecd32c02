# Byte-pair encoding (C11, C12, C13).
spec(r"""
// uses: model norm
pub open spec fn is_cont(c: int) -> bool { band(uw8(c), 0xC0) == 0x80 }
// characters that begin in the first k bytes
pub open spec fn cb(s: Seq<int>, k: int) -> int decreases k { if k <= 0 { 0 } else { cb(s, k - 1) + (if is_cont(s[k - 1]) { 0int } else { 1 }) } }
pub open spec fn mid(s: Seq<int>, k: int) -> bool { 0 <= k < s.len() && is_cont(s[k]) }
pub open spec fn wc_off(s: Seq<int>, p: Pair<int, int>) -> Pair<int, int> {
    let a = imin(p.first, s.len() as int);
    Pair { first: cb(s, a) - (if mid(s, a) { 1int } else { 0 }), second: cb(s, imin(p.second, s.len() as int)) }
}
pub open spec fn wc(ts: Seq<Token>, s: Seq<int>) -> Seq<Token> { Seq::new(ts.len(), |i: int| Token { offsets: wc_off(s, ts[i].offsets), ..ts[i] }) }
pub proof fn lemma_cb(s: Seq<int>, k: int) requires 0 <= k ensures 0 <= cb(s, k) <= k decreases k { if k > 0 { lemma_cb(s, k - 1); } }
""", only="C11,C12,C13,C14,C22,C25,C27")
fn("with_char_offsets", props="C11", requires=["forall|i: int| 0 <= i < $tokens.len() ==> 0 <= (#[trigger] $tokens[i]).offsets.first && 0 <= $tokens[i].offsets.second"],
   spec="wc($tokens, $sequence)",
   loops=[dict(inv=["$chars_before.len() == $i + 1", "$inside_char.len() == $i", "0 <= $i <= $length", "forall|k: int| 0 <= k <= $i ==> #[trigger] $chars_before[k] == cb($sequence, k)",
                    "forall|k: int| 0 <= k < $i ==> #[trigger] $inside_char[k] == mid($sequence, k)"], head="lemma_cb($sequence, $i);"),
          dict(inv=["$tokens.len() == $0tokens.len()", "forall|k: int| 0 <= k < $tokens.len() ==> #[trigger] $tokens[k] == (if k < #i { wc($0tokens, $sequence)[k] } else { $0tokens[k] })",
                    "$chars_before.len() == $length + 1", "$inside_char.len() == $length + 1", "forall|k: int| 0 <= k <= $length ==> #[trigger] $chars_before[k] == cb($sequence, k)",
                    "forall|k: int| 0 <= k <= $length ==> #[trigger] $inside_char[k] == mid($sequence, k)"],
               head="assert($tokens[#i] == $0tokens[#i]); lemma_cb($sequence, imin($0tokens[#i].offsets.first, slen($sequence))); lemma_cb($sequence, imin($0tokens[#i].offsets.second, slen($sequence)));")])
spec(r"""
// A word as the model sees it: the id and the length of each symbol.
pub open spec fn sy(s: Seq<Symbol>) -> Seq<Pair<int, int>> { Seq::new(s.len(), |i: int| Pair { first: s[i].c, second: s[i].len }) }
pub open spec fn chain(s: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).prev == i - 1 && s[i].next == (if i + 1 < s.len() { i + 1 } else { -1 }) }
""", only="C11,C12,C13,C14,C22,C25,C27")
spec(r"""
pub open spec fn sums(ws: Seq<Pair<int, int>>, k: int) -> int decreases k { if k <= 0 { 0 } else { sums(ws, k - 1) + ws[k - 1].second } }
pub open spec fn wt(m: BPE, ws: Seq<Pair<int, int>>) -> Seq<Token> {
    Seq::new(ws.len(), |i: int| Token { id: ws[i].first, value: m.vocab_r[ws[i].first], offsets: Pair { first: sums(ws, i), second: sums(ws, i + 1) } })
}
pub open spec fn ids_known(m: BPE, ws: Seq<Pair<int, int>>) -> bool { forall|i: int| 0 <= i < ws.len() ==> m.vocab_r.dom().contains((#[trigger] ws[i]).first) }
""", only="C11,C12,C13,C14,C22,C25,C27")
fn("BPE::word_to_tokens", props="C11", requires=["ids_known($this, sy($word.symbols))"], spec="wt($this, sy($word.symbols))",
   loops=[dict(inv=["$pos == sums(sy($word.symbols), #i)", "$result =~= wt($this, sy($word.symbols)).take(#i)"], head="assert(sy($word.symbols)[#i].first == #r[#i].c);", after="assert($result =~= wt($this, sy($word.symbols)));")])
fn("Word::add", mut=["this"], props="C11", requires=["chain($this.symbols)"], ensures={"*:symbols": "sy($this'.symbols) =~= sy($this.symbols).push(Pair { first: $c, second: $len }) && chain($this'.symbols)"})
spec(r"""
// ---- merging ----
pub open spec fn bpr(ws: Seq<Pair<int, int>>, i: int) -> Pair<int, int> { Pair { first: ws[i].first, second: ws[i + 1].first } }
pub open spec fn can(ws: Seq<Pair<int, int>>, i: int, mg: Map<Pair<int, int>, Pair<int, int>>) -> bool { 0 <= i && i + 1 < ws.len() && mg.dom().contains(bpr(ws, i)) }
// symbols i and i + 1 become one
pub open spec fn mg_at(ws: Seq<Pair<int, int>>, i: int, id: int) -> Seq<Pair<int, int>> { ws.take(i).push(Pair { first: id, second: ws[i].second + ws[i + 1].second }) + ws.skip(i + 2) }
// the merges at positions ps, one after the other
pub open spec fn mg_all(ws: Seq<Pair<int, int>>, ps: Seq<int>, mg: Map<Pair<int, int>, Pair<int, int>>) -> Seq<Pair<int, int>> decreases ps.len() {
    if ps.len() == 0 { ws } else { let w = mg_all(ws, ps.drop_last(), mg); mg_at(w, ps.last(), mg[bpr(w, ps.last())].second) }
}
pub open spec fn mg_ok(ws: Seq<Pair<int, int>>, ps: Seq<int>, mg: Map<Pair<int, int>, Pair<int, int>>) -> bool decreases ps.len() {
    ps.len() == 0 || mg_ok(ws, ps.drop_last(), mg) && can(mg_all(ws, ps.drop_last(), mg), ps.last(), mg)
}
pub open spec fn merged(ws: Seq<Pair<int, int>>, mg: Map<Pair<int, int>, Pair<int, int>>, r: Seq<Pair<int, int>>) -> bool { exists|ps: Seq<int>| #[trigger] mg_ok(ws, ps, mg) && mg_all(ws, ps, mg) == r }
// the pair of lowest rank among those that start before position k, the leftmost one on ties; -1 if there is none
pub open spec fn best(ws: Seq<Pair<int, int>>, mg: Map<Pair<int, int>, Pair<int, int>>, k: int) -> int decreases k {
    if k <= 0 { -1 } else { let b = best(ws, mg, k - 1); if can(ws, k - 1, mg) && (b < 0 || mg[bpr(ws, k - 1)].first < mg[bpr(ws, b)].first) { k - 1 } else { b } }
}
pub proof fn lemma_best(ws: Seq<Pair<int, int>>, mg: Map<Pair<int, int>, Pair<int, int>>, k: int)
    ensures -1 <= best(ws, mg, k) && (best(ws, mg, k) < k || best(ws, mg, k) == -1), best(ws, mg, k) >= 0 ==> can(ws, best(ws, mg, k), mg),
        forall|i: int| 0 <= i < k && #[trigger] can(ws, i, mg) ==> best(ws, mg, k) >= 0 && mg[bpr(ws, best(ws, mg, k))].first <= mg[bpr(ws, i)].first
            && (mg[bpr(ws, best(ws, mg, k))].first == mg[bpr(ws, i)].first ==> best(ws, mg, k) <= i)
    decreases k
{ if k > 0 { lemma_best(ws, mg, k - 1); } }
// repeatedly merging the best pair until none is left
pub open spec fn greedy(ws: Seq<Pair<int, int>>, mg: Map<Pair<int, int>, Pair<int, int>>) -> Seq<Pair<int, int>> decreases ws.len() via greedy_dec {
    let b = best(ws, mg, ws.len() as int);
    if b < 0 { ws } else { greedy(mg_at(ws, b, mg[bpr(ws, b)].second), mg) }
}
#[via_fn]
proof fn greedy_dec(ws: Seq<Pair<int, int>>, mg: Map<Pair<int, int>, Pair<int, int>>) { lemma_best(ws, mg, ws.len() as int); }
// the best pair is the one that no other one precedes
pub proof fn lemma_greedy_step(ws: Seq<Pair<int, int>>, mg: Map<Pair<int, int>, Pair<int, int>>, b: int)
    requires can(ws, b, mg), forall|i: int| #[trigger] can(ws, i, mg) ==> mg[bpr(ws, b)].first < mg[bpr(ws, i)].first || mg[bpr(ws, b)].first == mg[bpr(ws, i)].first && b <= i
    ensures greedy(ws, mg) == greedy(mg_at(ws, b, mg[bpr(ws, b)].second), mg)
{ lemma_best(ws, mg, ws.len() as int); let c = best(ws, mg, ws.len() as int); assert(can(ws, c, mg)); }
pub proof fn lemma_greedy_end(ws: Seq<Pair<int, int>>, mg: Map<Pair<int, int>, Pair<int, int>>)
    requires forall|i: int| !#[trigger] can(ws, i, mg)
    ensures greedy(ws, mg) == ws
{ lemma_best(ws, mg, ws.len() as int); }
pub proof fn lemma_merged_step(ws: Seq<Pair<int, int>>, mg: Map<Pair<int, int>, Pair<int, int>>, r: Seq<Pair<int, int>>, i: int)
    requires merged(ws, mg, r), can(r, i, mg)
    ensures merged(ws, mg, mg_at(r, i, mg[bpr(r, i)].second))
{
    let ps = choose|ps: Seq<int>| #[trigger] mg_ok(ws, ps, mg) && mg_all(ws, ps, mg) == r;
    let p2 = ps.push(i);
    assert(p2.drop_last() =~= ps);
    assert(mg_ok(ws, p2, mg));
}
// ---- the list of the symbols that are still there (len != 0) ----
pub open spec fn lv(s: Seq<Symbol>, k: int) -> Seq<Pair<int, int>> decreases k {
    if k <= 0 { Seq::empty() } else if s[k - 1].len == 0 { lv(s, k - 1) } else { lv(s, k - 1).push(Pair { first: s[k - 1].c, second: s[k - 1].len }) }
}
pub open spec fn ix(s: Seq<Symbol>, p: int) -> int { lv(s, p).len() as int }
pub open spec fn nx_ok(s: Seq<Symbol>, i: int) -> bool {
    let q = s[i].next;
    &&& q == -1 || i < q < s.len() && s[q].len != 0
    &&& forall|j: int| i < j < (if q == -1 { s.len() as int } else { q }) ==> (#[trigger] s[j]).len == 0
}
pub open spec fn pv_ok(s: Seq<Symbol>, i: int) -> bool {
    let p = s[i].prev;
    &&& p == -1 || 0 <= p < i && s[p].len != 0
    &&& forall|j: int| p < j < i ==> (#[trigger] s[j]).len == 0
}
pub open spec fn lk(s: Seq<Symbol>, i: int) -> bool { s[i].len >= 0 && (s[i].len != 0 ==> nx_ok(s, i) && pv_ok(s, i)) }
pub open spec fn linked(s: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] lk(s, i) }
pub proof fn lemma_lv_skip(s: Seq<Symbol>, a: int, b: int)
    requires 0 <= a <= b <= s.len(), forall|j: int| a <= j < b ==> (#[trigger] s[j]).len == 0
    ensures lv(s, b) == lv(s, a)
    decreases b
{ if b > a { lemma_lv_skip(s, a, b - 1); } }
pub proof fn lemma_lv_eq(s: Seq<Symbol>, t: Seq<Symbol>, k: int)
    requires k <= s.len(), k <= t.len(), forall|j: int| 0 <= j < k ==> (#[trigger] s[j]).c == t[j].c && s[j].len == t[j].len
    ensures lv(s, k) == lv(t, k)
    decreases k
{ if k > 0 { lemma_lv_eq(s, t, k - 1); } }
pub proof fn lemma_lv_prefix(s: Seq<Symbol>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures lv(s, a).len() <= lv(s, b).len(), lv(s, b).take(lv(s, a).len() as int) =~= lv(s, a), lv(s, a).len() <= a
    decreases b
{
    if b > a { lemma_lv_prefix(s, a, b - 1); if s[b - 1].len != 0 { assert(lv(s, b).take(lv(s, a).len() as int) =~= lv(s, b - 1).take(lv(s, a).len() as int)); } }
    else if a > 0 { lemma_lv_prefix(s, 0, a - 1); lemma_lv_prefix(s, a - 1, a - 1); }
}
// two neighbours
pub proof fn lemma_lv_pair(s: Seq<Symbol>, p: int, q: int)
    requires 0 <= p < q < s.len(), s[p].len != 0, s[q].len != 0, forall|j: int| p < j < q ==> (#[trigger] s[j]).len == 0
    ensures ix(s, q) == ix(s, p) + 1, ix(s, p) + 1 < lv(s, s.len() as int).len(),
        lv(s, s.len() as int)[ix(s, p)] == (Pair { first: s[p].c, second: s[p].len }), lv(s, s.len() as int)[ix(s, p) + 1] == (Pair { first: s[q].c, second: s[q].len })
{
    let n = s.len() as int;
    lemma_lv_skip(s, p + 1, q);
    lemma_lv_prefix(s, q + 1, n); lemma_lv_prefix(s, p + 1, n);
    let l = lv(s, n);
    assert(l.take(ix(s, q) + 1)[ix(s, p)] == l[ix(s, p)]);
    assert(l.take(ix(s, q) + 1)[ix(s, p) + 1] == l[ix(s, p) + 1]);
}
// where the i-th symbol of the list stands
pub proof fn lemma_lv_at(s: Seq<Symbol>, k: int, i: int) -> (p: int)
    requires 0 <= k <= s.len(), 0 <= i < lv(s, k).len()
    ensures 0 <= p < k, s[p].len != 0, ix(s, p) == i
    decreases k
{ if s[k - 1].len != 0 && i == lv(s, k - 1).len() { k - 1 } else { lemma_lv_at(s, k - 1, i) } }
pub proof fn lemma_lv_merge(s: Seq<Symbol>, t: Seq<Symbol>, p: int, q: int, id: int, k: int)
    requires 0 <= p < q < k <= s.len(), s.len() == t.len(), s[p].len > 0, s[q].len > 0, forall|j: int| p < j < q ==> (#[trigger] s[j]).len == 0,
        t[p].c == id, t[p].len == s[p].len + s[q].len, t[q].len == 0, forall|j: int| 0 <= j < s.len() && j != p && j != q ==> (#[trigger] t[j]).c == s[j].c && t[j].len == s[j].len
    ensures lv(t, k) == mg_at(lv(s, k), ix(s, p), id), ix(s, p) + 1 < lv(s, k).len(), ix(t, p) == ix(s, p)
    decreases k
{
    lemma_lv_eq(t, s, p);
    let a = lv(s, p); let i = a.len() as int;
    if k == q + 1 {
        lemma_lv_skip(s, p + 1, q);
        assert(lv(t, p + 1) == a.push(Pair { first: id, second: s[p].len + s[q].len }));
        assert forall|j: int| p + 1 <= j < k implies (#[trigger] t[j]).len == 0 by { if j < q { assert(t[j].len == s[j].len); } };
        lemma_lv_skip(t, p + 1, k);
        let l = lv(s, k);
        assert(l =~= a.push(Pair { first: s[p].c, second: s[p].len }).push(Pair { first: s[q].c, second: s[q].len }));
        assert(l.take(i) =~= a);
        assert(mg_at(l, i, id) =~= lv(t, k));
    } else {
        lemma_lv_merge(s, t, p, q, id, k - 1);
        let l = lv(s, k - 1);
        assert(t[k - 1].c == s[k - 1].c && t[k - 1].len == s[k - 1].len);
        if s[k - 1].len != 0 {
            let x = Pair { first: s[k - 1].c, second: s[k - 1].len };
            assert(l.push(x).take(i) =~= l.take(i));
            assert(mg_at(l.push(x), i, id) =~= mg_at(l, i, id).push(x));
        }
    }
}
""", only="C11,C12,C13,C14,C22,C25,C27")
spec(r"""
pub open spec fn mstep(s: Seq<Symbol>, p: int, id: int) -> Seq<Symbol> {
    let q = s[p].next; let r = s[q].next;
    let a = s.update(p, Symbol { c: id, len: s[p].len + s[q].len, next: r, ..s[p] }).update(q, Symbol { len: 0, ..s[q] });
    if r >= 0 { a.update(r, Symbol { prev: p, ..a[r] }) } else { a }
}
// who points at p and at its right neighbour
pub proof fn lemma_neighbours(s: Seq<Symbol>, p: int, i: int)
    requires linked(s), 0 <= p < s.len(), s[p].len != 0, s[p].next >= 0, 0 <= i < s.len(), s[i].len != 0
    ensures s[i].next == p ==> i == s[p].prev, s[i].next == s[p].next ==> i == p, s[i].prev == s[p].next ==> i == s[s[p].next].next, s[i].prev == p ==> i == s[p].next
{
    let q = s[p].next;
    assert(lk(s, p) && lk(s, i)); assert(lk(s, q));
    if s[i].next == p { if s[p].prev >= 0 { assert(s[s[p].prev].len != 0); } }
    if s[i].prev == q { let r = s[q].next; if r >= 0 { assert(s[r].len != 0); } }
}
pub proof fn lemma_mstep_links(s: Seq<Symbol>, p: int, id: int, i: int)
    requires linked(s), 0 <= p < s.len(), s[p].len != 0, s[p].next >= 0, 0 <= i < s.len()
    ensures lk(mstep(s, p, id), i)
{
    let n = s.len() as int; let q = s[p].next; let t = mstep(s, p, id);
    assert(lk(s, p) && lk(s, i)); assert(lk(s, q)); let r = s[q].next;
    assert forall|j: int| 0 <= j < n && j != p && #[trigger] s[j].len == 0 implies t[j].len == 0 by {};
    if t[i].len != 0 {
        lemma_neighbours(s, p, i);
        if i == p {
            assert forall|j: int| p < j < (if r == -1 { n } else { r }) implies (#[trigger] t[j]).len == 0 by { if j != q { assert(s[j].len == 0); } };
            assert forall|j: int| t[p].prev < j < p implies (#[trigger] t[j]).len == 0 by { assert(s[j].len == 0); };
            assert(nx_ok(t, i)); assert(pv_ok(t, i));
        } else {
            assert(t[i].next == s[i].next);
            assert forall|j: int| i < j < (if t[i].next == -1 { n } else { t[i].next }) implies (#[trigger] t[j]).len == 0 by { assert(s[j].len == 0); };
            assert(nx_ok(t, i));
            if i == r {
                assert forall|j: int| p < j < i implies (#[trigger] t[j]).len == 0 by { if j != q { assert(s[j].len == 0); } };
            } else {
                assert(t[i].prev == s[i].prev);
                assert forall|j: int| t[i].prev < j < i implies (#[trigger] t[j]).len == 0 by { assert(s[j].len == 0); };
            }
            assert(pv_ok(t, i));
        }
    }
}
pub proof fn lemma_mstep(s: Seq<Symbol>, p: int, id: int)
    requires linked(s), 0 <= p < s.len(), s[p].len != 0, s[p].next >= 0
    ensures linked(mstep(s, p, id)), mstep(s, p, id).len() == s.len(), lv(mstep(s, p, id), s.len() as int) == mg_at(lv(s, s.len() as int), ix(s, p), id),
        ix(s, p) + 1 < lv(s, s.len() as int).len(), lv(s, s.len() as int)[ix(s, p)] == (Pair { first: s[p].c, second: s[p].len }),
        lv(s, s.len() as int)[ix(s, p) + 1] == (Pair { first: s[s[p].next].c, second: s[s[p].next].len }),
        forall|i: int| #![trigger s[i].next] 0 <= i < s.len() && s[i].len != 0 && s[i].next == p ==> i == s[p].prev,
        forall|i: int| #![trigger s[i].next] 0 <= i < s.len() && s[i].len != 0 && s[i].next == s[p].next && s[i].next >= 0 ==> i == p,
        forall|i: int| #![trigger s[i]] 0 <= i < s.len() && i != p && i != s[p].next ==> mstep(s, p, id)[i].c == s[i].c && mstep(s, p, id)[i].len == s[i].len && mstep(s, p, id)[i].next == s[i].next
{
    let n = s.len() as int; let q = s[p].next; let t = mstep(s, p, id);
    assert(lk(s, p)); assert(lk(s, q));
    lemma_lv_merge(s, t, p, q, id, n);
    lemma_lv_pair(s, p, q);
    assert forall|i: int| #![trigger s[i].next] 0 <= i < s.len() && s[i].len != 0 && s[i].next == p implies i == s[p].prev by { lemma_neighbours(s, p, i); };
    assert forall|i: int| #![trigger s[i].next] 0 <= i < s.len() && s[i].len != 0 && s[i].next == q && s[i].next >= 0 implies i == p by { lemma_neighbours(s, p, i); };
    assert forall|i: int| 0 <= i < n implies #[trigger] lk(t, i) by { lemma_mstep_links(s, p, id, i); };
}
pub proof fn lemma_lv_all(s: Seq<Symbol>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len > 0
    ensures lv(s, k) == sy(s).take(k)
    decreases k
{ if k > 0 { lemma_lv_all(s, k - 1); assert(sy(s).take(k) =~= sy(s).take(k - 1).push(sy(s)[k - 1])); } else { assert(sy(s).take(0) =~= lv(s, 0)); } }
pub proof fn lemma_lv_filter(s: Seq<Symbol>, f: spec_fn(Symbol) -> bool)
    requires forall|x: Symbol| #[trigger] f(x) == (x.len == 0)
    ensures sy(sfilter_not(s, f)) == lv(s, s.len() as int)
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last(); lemma_lv_filter(d, f); lemma_lv_eq(s, d, d.len() as int);
        assert(f(s.last()) == (s.last().len == 0));
        if s.last().len != 0 { assert(sy(sfilter_not(d, f).push(s.last())) =~= sy(sfilter_not(d, f)).push(Pair { first: s.last().c, second: s.last().len })); }
    } else { assert(sy(sfilter_not(s, f)) =~= lv(s, 0)); }
}
// ---- the queue ----
pub open spec fn sp(s: Seq<Symbol>, i: int) -> Pair<int, int> { Pair { first: s[i].c, second: s[s[i].next].c } }
pub open spec fn pairable(s: Seq<Symbol>, i: int, mg: Map<Pair<int, int>, Pair<int, int>>) -> bool { 0 <= i < s.len() && s[i].len != 0 && s[i].next >= 0 && mg.dom().contains(sp(s, i)) }
pub open spec fn me(s: Seq<Symbol>, i: int, mg: Map<Pair<int, int>, Pair<int, int>>) -> Merge { Merge { pos: i, rank: mg[sp(s, i)].first, new_id: mg[sp(s, i)].second } }
// every pair that can be merged is in the queue
pub open spec fn q_all(q: Seq<Merge>, s: Seq<Symbol>, mg: Map<Pair<int, int>, Pair<int, int>>) -> bool { forall|i: int| #[trigger] pairable(s, i, mg) ==> q.contains(me(s, i, mg)) }
pub open spec fn q_in(q: Seq<Merge>, n: int) -> bool { forall|k: int| 0 <= k < q.len() ==> 0 <= (#[trigger] q[k]).pos < n }
// an entry is up to date, or its pair has grown since
pub open spec fn ent(e: Merge, s: Seq<Symbol>, mg: Map<Pair<int, int>, Pair<int, int>>, g: spec_fn(int) -> int) -> bool {
    s[e.pos].len != 0 && s[e.pos].next >= 0 ==> mg.dom().contains(sp(s, e.pos)) && mg[sp(s, e.pos)] == (Pair { first: e.rank, second: e.new_id }) || g(s[e.pos].c) + g(s[s[e.pos].next].c) > g(e.new_id)
}
pub open spec fn ents(q: Seq<Merge>, s: Seq<Symbol>, mg: Map<Pair<int, int>, Pair<int, int>>, g: spec_fn(int) -> int) -> bool { forall|k: int| 0 <= k < q.len() ==> ent(#[trigger] q[k], s, mg, g) }
// g measures how much text an id adds: merging adds up, and only the first symbol may add nothing
pub open spec fn ga(g: spec_fn(int) -> int, mg: Map<Pair<int, int>, Pair<int, int>>) -> bool { forall|a: Pair<int, int>| #[trigger] mg.dom().contains(a) ==> g(mg[a].second) == g(a.first) + g(a.second) }
pub open spec fn gl(g: spec_fn(int) -> int, s: Seq<Symbol>) -> bool { forall|i: int| 1 <= i < s.len() && (#[trigger] s[i]).len != 0 ==> g(s[i].c) >= 1 }
pub open spec fn adds_up(g: spec_fn(int) -> int, ws: Seq<Pair<int, int>>, mg: Map<Pair<int, int>, Pair<int, int>>) -> bool { ga(g, mg) && forall|i: int| 1 <= i < ws.len() ==> g((#[trigger] ws[i]).first) >= 1 }
pub open spec fn grows(ws: Seq<Pair<int, int>>, mg: Map<Pair<int, int>, Pair<int, int>>) -> bool { exists|g: spec_fn(int) -> int| #[trigger] adds_up(g, ws, mg) }
pub open spec fn the_g(ws: Seq<Pair<int, int>>, mg: Map<Pair<int, int>, Pair<int, int>>) -> spec_fn(int) -> int { choose|g: spec_fn(int) -> int| #[trigger] adds_up(g, ws, mg) }
pub open spec fn mstate(q: Seq<Merge>, s: Seq<Symbol>, mg: Map<Pair<int, int>, Pair<int, int>>, g: spec_fn(int) -> int) -> bool { q_all(q, s, mg) && ents(q, s, mg, g) && ga(g, mg) && gl(g, s) }
pub proof fn lemma_removed(q: Seq<Merge>, i: int)
    requires 0 <= i < q.len()
    ensures forall|x: Merge| #[trigger] q.contains(x) && x != q[i] ==> q.remove(i).contains(x), forall|k: int| 0 <= k < q.len() - 1 ==> q.contains(#[trigger] q.remove(i)[k])
{
    assert forall|x: Merge| #[trigger] q.contains(x) && x != q[i] implies q.remove(i).contains(x) by { let j = choose|j: int| 0 <= j < q.len() && q[j] == x; if j < i { assert(q.remove(i)[j] == x); } else { assert(q.remove(i)[j - 1] == x); } };
    assert forall|k: int| 0 <= k < q.len() - 1 implies q.contains(#[trigger] q.remove(i)[k]) by { if k < i { assert(q[k] == q.remove(i)[k]); } else { assert(q[k + 1] == q.remove(i)[k]); } };
}
// the merge at the queue's first entry, if that entry is up to date, is the best one
pub proof fn lemma_top_best(q: Seq<Merge>, s: Seq<Symbol>, mg: Map<Pair<int, int>, Pair<int, int>>, top: Merge)
    requires linked(s), q_all(q, s, mg), pairable(s, top.pos, mg), me(s, top.pos, mg) == top, forall|x: Merge| #[trigger] q.contains(x) ==> top.rank < x.rank || top.rank == x.rank && top.pos <= x.pos
    ensures greedy(lv(s, s.len() as int), mg) == greedy(lv(mstep(s, top.pos, top.new_id), s.len() as int), mg), can(lv(s, s.len() as int), ix(s, top.pos), mg)
{
    let n = s.len() as int; let l = lv(s, n); let b = ix(s, top.pos);
    lemma_mstep(s, top.pos, top.new_id);
    assert(bpr(l, b) == sp(s, top.pos));
    assert forall|i: int| #[trigger] can(l, i, mg) implies mg[bpr(l, b)].first < mg[bpr(l, i)].first || mg[bpr(l, b)].first == mg[bpr(l, i)].first && b <= i by {
        let p = lemma_lv_at(s, n, i);
        assert(lk(s, p));
        let x = s[p].next;
        if x == -1 { lemma_lv_skip(s, p + 1, n); assert(lv(s, p + 1).len() == i + 1); assert(false); }
        lemma_lv_pair(s, p, x);
        assert(pairable(s, p, mg)); assert(q.contains(me(s, p, mg)));
        if top.pos <= p { lemma_lv_prefix(s, top.pos, p); }
    };
    lemma_greedy_step(l, mg, b);
}
pub proof fn lemma_no_pair(s: Seq<Symbol>, mg: Map<Pair<int, int>, Pair<int, int>>)
    requires linked(s), forall|i: int| !#[trigger] pairable(s, i, mg)
    ensures greedy(lv(s, s.len() as int), mg) == lv(s, s.len() as int)
{
    let n = s.len() as int; let l = lv(s, n);
    assert forall|i: int| !#[trigger] can(l, i, mg) by {
        if can(l, i, mg) {
            let p = lemma_lv_at(s, n, i);
            assert(lk(s, p));
            let x = s[p].next;
            if x == -1 { lemma_lv_skip(s, p + 1, n); assert(lv(s, p + 1).len() == i + 1); assert(false); }
            lemma_lv_pair(s, p, x);
            assert(pairable(s, p, mg));
        }
    };
    lemma_greedy_end(l, mg);
}
// the queue after a merge at p: the old entries and those of the two new pairs
pub proof fn lemma_mstate_step(q: Seq<Merge>, s: Seq<Symbol>, mg: Map<Pair<int, int>, Pair<int, int>>, g: spec_fn(int) -> int, top: Merge, q2: Seq<Merge>)
    requires linked(s), mstate(q, s, mg, g), q_in(q, s.len() as int), pairable(s, top.pos, mg), me(s, top.pos, mg) == top,
        ({ let t = mstep(s, top.pos, top.new_id);
           &&& forall|x: Merge| #[trigger] q.contains(x) && x != top ==> q2.contains(x)
           &&& forall|k: int| 0 <= k < q2.len() ==> q.contains(#[trigger] q2[k]) || (q2[k].pos == top.pos || q2[k].pos == t[top.pos].prev) && pairable(t, q2[k].pos, mg) && q2[k] == me(t, q2[k].pos, mg)
           &&& pairable(t, top.pos, mg) ==> q2.contains(me(t, top.pos, mg))
           &&& pairable(t, t[top.pos].prev, mg) ==> q2.contains(me(t, t[top.pos].prev, mg)) })
    ensures mstate(q2, mstep(s, top.pos, top.new_id), mg, g)
{
    let p = top.pos; let t = mstep(s, p, top.new_id); let y = s[p].next;
    lemma_mstep(s, p, top.new_id);
    assert(lk(s, p)); assert(lk(s, y));
    assert(g(t[p].c) == g(s[p].c) + g(s[y].c));
    assert(y >= 1 && g(s[y].c) >= 1);
    assert(t[y].len == 0);
    assert forall|i: int| #[trigger] pairable(t, i, mg) implies q2.contains(me(t, i, mg)) by {
        if i != p && i != t[p].prev {
            assert(i != y); assert(s[i].len != 0 && t[i].next == s[i].next && t[i].c == s[i].c);
            let x = s[i].next;
            assert(lk(s, i));
            assert(x != p); assert(x != y);
            assert(t[x].c == s[x].c);
            assert(pairable(s, i, mg)); assert(me(s, i, mg) == me(t, i, mg)); assert(q.contains(me(s, i, mg)));
        }
    };
    assert forall|k: int| 0 <= k < q2.len() implies ent(#[trigger] q2[k], t, mg, g) by {
        let e = q2[k];
        if q.contains(e) {
            let j = choose|j: int| 0 <= j < q.len() && q[j] == e; assert(ent(q[j], s, mg, g)); assert(0 <= q[j].pos < s.len());
            let i = e.pos;
            if t[i].len != 0 && t[i].next >= 0 {
                if i == p {
                    let z = t[i].next; assert(z == s[y].next); assert(s[z].len != 0); assert(t[z].c == s[z].c); assert(g(s[z].c) >= 1);
                    assert(mg.dom().contains(sp(s, p)));
                } else {
                    assert(i != y); assert(s[i].len != 0 && t[i].next == s[i].next && t[i].c == s[i].c);
                    assert(lk(s, i));
                    let x = s[i].next; assert(x != y);
                    if x == p { if mg.dom().contains(sp(s, i)) && mg[sp(s, i)] == (Pair { first: e.rank, second: e.new_id }) { assert(g(e.new_id) == g(s[i].c) + g(s[p].c)); } }
                    else { assert(t[x].c == s[x].c); assert(sp(t, i) == sp(s, i)); }
                }
            }
        }
    };
    assert forall|i: int| 1 <= i < t.len() && (#[trigger] t[i]).len != 0 implies g(t[i].c) >= 1 by { assert(i != y); if i != p { assert(s[i].len != 0 && t[i].c == s[i].c); } else { assert(s[p].len != 0); assert(g(s[p].c) >= 1); } };
}
""", only="C11,C12,C13,C14,C22,C25,C27")
spec(r"""
pub open spec fn fl_zero(x: Fl) -> bool { x == (Fl { v: 0 }) }
pub proof fn lemma_start(s: Seq<Symbol>, mg: Map<Pair<int, int>, Pair<int, int>>)
    requires chain(s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).len > 0
    ensures linked(s), lv(s, s.len() as int) == sy(s), merged(sy(s), mg, sy(s))
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] lk(s, i) by { assert(s[i].len > 0); assert(nx_ok(s, i)); assert(pv_ok(s, i)); };
    lemma_lv_all(s, s.len() as int); assert(sy(s).take(s.len() as int) =~= sy(s));
    assert(mg_ok(sy(s), Seq::<int>::empty(), mg));
}
pub proof fn lemma_back(s: Seq<Symbol>, p: int)
    requires linked(s), 0 <= p < s.len(), s[p].len != 0, s[p].prev >= 0
    ensures s[s[p].prev].next == p
{ assert(lk(s, p)); let x = s[p].prev; assert(lk(s, x)); if s[x].next >= 0 { assert(s[s[x].next].len != 0); } }
pub proof fn lemma_lv_pos(s: Seq<Symbol>, k: int)
    requires linked(s), 0 <= k <= s.len()
    ensures forall|i: int| 0 <= i < lv(s, k).len() ==> (#[trigger] lv(s, k)[i]).second > 0
    decreases k
{ if k > 0 { lemma_lv_pos(s, k - 1); assert(lk(s, k - 1)); let l = lv(s, k - 1); assert forall|i: int| 0 <= i < lv(s, k).len() implies (#[trigger] lv(s, k)[i]).second > 0 by { if i < l.len() { assert(l[i].second > 0); } }; } }
// the first entry that is out of date can be dropped
pub proof fn lemma_stale(q: Seq<Merge>, s: Seq<Symbol>, mg: Map<Pair<int, int>, Pair<int, int>>, g: spec_fn(int) -> int, i: int)
    requires mstate(q, s, mg, g), q_in(q, s.len() as int), 0 <= i < q.len()
    ensures !(pairable(s, q[i].pos, mg) && me(s, q[i].pos, mg).new_id == q[i].new_id) ==> mstate(q.remove(i), s, mg, g),
        pairable(s, q[i].pos, mg) && me(s, q[i].pos, mg).new_id == q[i].new_id ==> me(s, q[i].pos, mg) == q[i]
{
    lemma_removed(q, i);
    assert(ent(q[i], s, mg, g));
    assert forall|k: int| 0 <= k < q.remove(i).len() implies ent(#[trigger] q.remove(i)[k], s, mg, g) by { assert(q.contains(q.remove(i)[k])); };
}
pub proof fn lemma_q_in(q: Seq<Merge>, n: int, i: int)
    requires q_in(q, n), 0 <= i < q.len()
    ensures q_in(q.remove(i), n)
{ lemma_removed(q, i); assert forall|k: int| 0 <= k < q.remove(i).len() implies 0 <= (#[trigger] q.remove(i)[k]).pos < n by { assert(q.contains(q.remove(i)[k])); }; }
pub proof fn lemma_prefix_has(a: Seq<Merge>, b: Seq<Merge>)
    requires a.len() <= b.len(), forall|k: int| 0 <= k < a.len() ==> a[k] == #[trigger] b[k]
    ensures forall|x: Merge| #[trigger] a.contains(x) ==> b.contains(x)
{ assert forall|x: Merge| #[trigger] a.contains(x) implies b.contains(x) by { let k = choose|k: int| 0 <= k < a.len() && a[k] == x; assert(b[k] == x); }; }
""", only="C11,C12,C13,C14,C22,C25,C27")
MA_ST = ["$this.symbols.len() == #n", "linked($this.symbols)", "$merges == $0merges", "$dropout == $0dropout"]
fn("Word::merge_all", mut=["this"], props="C11", requires=["chain($this.symbols)", "forall|i: int| 0 <= i < $this.symbols.len() ==> (#[trigger] $this.symbols[i]).len > 0"],
   ensures={"*:merges": "merged(sy($this.symbols), $merges, sy($this'.symbols))",
            "*:lengths": "forall|i: int| 0 <= i < $this'.symbols.len() ==> (#[trigger] $this'.symbols[i]).len > 0",
            "*:greedy": "fl_zero($dropout) && grows(sy($this.symbols), $merges) ==> sy($this'.symbols) == greedy(sy($this.symbols), $merges)"},
   hints={"decl top": "@let ti = pqtop_Merge(#q0); @let q1 = #q0.remove(#ti); lemma_removed(#q0, #ti); lemma_q_in(#q0, #n, #ti); assert(0 <= $top.pos < #n); assert(lk(#s0, $top.pos)); if #ok { lemma_stale(#q0, #s0, $merges, #g, #ti); assert(#q1 + Seq::<Merge>::empty() =~= #q1); }",
          "decl target_it": "@let q2 = $queue; assert(lk(#s0, $next_pos)); lemma_mstep(#s0, $top.pos, $top.new_id);",
          "decl current": "@let t = mstep(#s0, $top.pos, $top.new_id); assert($this.symbols =~= #t); assert(lk(#t, $top.pos));",
          "return": "lemma_lv_filter(#sf, #clo); lemma_lv_pos(#sf, #n); assert forall|i: int| 0 <= i < $this.symbols.len() implies (#[trigger] $this.symbols[i]).len > 0 by { assert(sy($this.symbols)[i].second > 0); };"},
   loops=[dict(before="@let w0 = sy($this.symbols); @let g = the_g(#w0, $merges); @let n = $this.symbols.len() as int; @let ok = fl_zero($dropout) && grows(#w0, $merges); lemma_start($this.symbols, $merges);",
               inv=["$this == $0this", "$merges == $0merges", "0 <= $i", "q_in($queue, #n)",
                    "forall|j: int| 0 <= j < $i && #[trigger] pairable($this.symbols, j, $merges) ==> $queue.contains(me($this.symbols, j, $merges))",
                    "forall|k: int| 0 <= k < $queue.len() ==> pairable($this.symbols, (#[trigger] $queue[k]).pos, $merges) && $queue[k] == me($this.symbols, $queue[k].pos, $merges)"],
               dec="imax(0, slen($this.symbols) - $i)", head="@let qa = $queue; @let ia = $i; assert($this.symbols[$i].len > 0);", end="lemma_prefix_has(#qa, $queue); if pairable($this.symbols, #ia, $merges) { assert($queue.last() == me($this.symbols, #ia, $merges)); }"),
          dict(inv=MA_ST + ["q_in($queue, #n)", "q_in($skip, #n)", "merged(#w0, $merges, lv($this.symbols, #n))",
                            "#ok ==> $skip.len() == 0 && mstate($queue, $this.symbols, $merges, #g) && greedy(lv($this.symbols, #n), $merges) == greedy(#w0, $merges)"],
               dec="lv($this.symbols, #n).len(), $queue.len() + $skip.len(), $queue.len()",
               before="if #ok { assert(adds_up(#g, #w0, $merges)); assert forall|i: int| 1 <= i < #n && (#[trigger] $this.symbols[i]).len != 0 implies (#g)($this.symbols[i].c) >= 1 by { assert((#g)(#w0[i].first) >= 1); }; }",
               head="@let q0 = $queue; @let s0 = $this.symbols;",
               last="""lemma_prefix_has(#q2, $queue); assert(#q2.len() <= $queue.len()); lemma_merged_step(#w0, $merges, lv(#s0, #n), ix(#s0, $top.pos));
                   if #ok {
                       if #t[$top.pos].prev >= 0 { lemma_back(#t, $top.pos); }
                       lemma_top_best(#q0, #s0, $merges, $top);
                       if pairable(#t, #t[$top.pos].prev, $merges) { assert($queue[#q2.len() as int] == me(#t, #t[$top.pos].prev, $merges)); }
                       if pairable(#t, $top.pos, $merges) { assert($queue.last() == me(#t, $top.pos, $merges)); }
                       assert forall|k: int| 0 <= k < $queue.len() implies #q0.contains(#[trigger] $queue[k]) || ($queue[k].pos == $top.pos || $queue[k].pos == #t[$top.pos].prev) && pairable(#t, $queue[k].pos, $merges) && $queue[k] == me(#t, $queue[k].pos, $merges) by { if k < #q1.len() { assert($queue[k] == #q2[k]); assert(#q2[k] == #q1[k]); assert(#q0.contains(#q1[k])); } };
                       lemma_mstate_step(#q0, #s0, $merges, #g, $top, $queue);
                   }""",
               after="@let sf = $this.symbols; if #ok { assert forall|i: int| !#[trigger] pairable(#sf, i, $merges) by { if pairable(#sf, i, $merges) { assert($queue.contains(me(#sf, i, $merges))); } }; lemma_no_pair(#sf, $merges); }"),
          dict(inv=["$queue =~= #q1 + $skip.take(#i)"], after="if #ok { assert($queue =~= #q1); }"),
          ])

spec(r"""
// ---- the merges of a configuration: one text with two words per merge, its index is its rank ----
pub open spec fn mg_parts(t: Seq<int>) -> bool { ws_skip(t).len() > 0 && ws_skip(ws_rest(t)).len() > 0 }
pub open spec fn mg_left(t: Seq<int>) -> Seq<int> { ws_word(t) }
pub open spec fn mg_right(t: Seq<int>) -> Seq<int> { ws_word(ws_rest(t)) }
pub open spec fn mg_text(t: Seq<int>, n: int) -> Seq<int> { mg_left(t) + mg_right(t).skip(n) }
pub open spec fn mg_known(v: Map<Seq<int>, int>, t: Seq<int>) -> bool { mg_parts(t) && v.dom().contains(mg_left(t)) && v.dom().contains(mg_right(t)) }
pub open spec fn mg_list(v: Map<Seq<int>, int>, n: int, l: Seq<Seq<int>>, k: int) -> Map<Pair<int, int>, Pair<int, int>> decreases k {
    if k <= 0 { Map::empty() } else {
        let m = mg_list(v, n, l, k - 1); let t = l[k - 1];
        if mg_known(v, t) && v.dom().contains(mg_text(t, n)) { map_ins(m, Pair { first: v[mg_left(t)], second: v[mg_right(t)] }, Pair { first: k - 1, second: v[mg_text(t, n)] }) } else { m }
    }
}
// the second part of a merge that can be applied is at least as long as the continuation prefix
pub open spec fn mg_fit(v: Map<Seq<int>, int>, n: int, l: Seq<Seq<int>>) -> bool { forall|i: int| 0 <= i < l.len() && mg_known(v, #[trigger] l[i]) ==> mg_right(l[i]).len() >= n }
pub proof fn lemma_mg_list(v: Map<Seq<int>, int>, n: int, l: Seq<Seq<int>>, k: int, a: Pair<int, int>)
    requires 0 <= k <= l.len(), mg_list(v, n, l, k).dom().contains(a)
    ensures 0 <= mg_list(v, n, l, k)[a].first < k,
        ({ let t = l[mg_list(v, n, l, k)[a].first];
           mg_known(v, t) && v.dom().contains(mg_text(t, n)) && a == (Pair { first: v[mg_left(t)], second: v[mg_right(t)] }) && mg_list(v, n, l, k)[a].second == v[mg_text(t, n)] })
    decreases k
{ if k > 0 { if mg_list(v, n, l, k - 1).dom().contains(a) { lemma_mg_list(v, n, l, k - 1, a); } } }
""", only="C11,C12,C13,C14,C22,C25,C27")
fn("BPE::BPE", props="C11,C12,C14,C25,C27", requires=["mg_fit($vocab, slen($continuing_subword_prefix), $merges_list)"],
   ensures={"*:lookups": "$r.vocab == $vocab && inverse($r.vocab, $r.vocab_r)",
            "*:merges": "$r.merges == mg_list($vocab, slen($continuing_subword_prefix), $merges_list, slen($merges_list))",
            "*:fields": "$r.dropout == $dropout && $r.unk_token == $unk_token && $r.continuing_subword_prefix == $continuing_subword_prefix && $r.end_of_word_suffix == $end_of_word_suffix && $r.fuse_unk == $fuse_unk && $r.byte_fallback == $byte_fallback && $r.ignore_merges == $ignore_merges",
            "*:cache": "$r.cache =~= Map::<Seq<int>, Word>::empty()", "*:ready": "bpe_ok($r)"},
   loops=[dict(before="@let t0 = $this;", inv=["0 <= $i", "$this =~~= (BPE { merges: mg_list($vocab, slen($continuing_subword_prefix), $merges_list, $i), ..#t0 })", "$vocab == $0vocab", "$merges_list == $0merges_list", "$continuing_subword_prefix == $0continuing_subword_prefix", "$prefix_len == slen($continuing_subword_prefix)"],
               head="assert(mg_known($vocab, $merges_list[$i]) || true); assert(mg_right($merges_list[$i]).skip(0) =~= mg_right($merges_list[$i]));", after="lemma_merges_known($this, slen($continuing_subword_prefix), $merges_list);")])
spec(r"""
// ---- the symbols a word starts with ----
// the end of the character that begins before position e
pub open spec fn nxt(s: Seq<int>, e: int) -> int decreases s.len() - e { if 0 <= e < s.len() && is_cont(s[e]) { nxt(s, e + 1) } else { e } }
pub proof fn lemma_nxt(s: Seq<int>, e: int)
    requires 0 <= e <= s.len()
    ensures e <= nxt(s, e) <= s.len(), nxt(s, e) < s.len() ==> !is_cont(s[nxt(s, e)]), forall|k: int| e <= k < nxt(s, e) ==> is_cont(#[trigger] s[k])
    decreases s.len() - e
{ if e < s.len() && is_cont(s[e]) { lemma_nxt(s, e + 1); } }
// the text of the character [i, e) with prefix and suffix
pub open spec fn bp_text(m: BPE, s: Seq<int>, i: int, e: int) -> Seq<int> {
    let x = s.subrange(i, e); let y = if i > 0 { m.continuing_subword_prefix + x } else { x };
    if e == s.len() { y + m.end_of_word_suffix } else { y }
}
// the token of one byte: <0xNN>
pub open spec fn btok(c: int) -> Seq<int> { S"<0x" + seq![hex_digit(uw8(c) / 16, true), hex_digit(uw8(c) % 16, true)] + S">" }
pub open spec fn bytes_known(m: BPE, t: Seq<int>) -> bool { forall|j: int| 0 <= j < t.len() ==> m.vocab.dom().contains(btok(#[trigger] t[j])) }
pub open spec fn bsyms(m: BPE, t: Seq<int>) -> Seq<Pair<int, int>> { Seq::new(t.len(), |j: int| Pair { first: m.vocab[btok(t[j])], second: 1int }) }
pub open spec fn flush(a: Seq<Pair<int, int>>, u: Option<Pair<int, int>>) -> Seq<Pair<int, int>> { match u { Some(x) => a.push(x), None => a } }
// what follows from position i on, after the symbols a and the unknown text u
pub open spec fn mw(m: BPE, s: Seq<int>, i: int, a: Seq<Pair<int, int>>, u: Option<Pair<int, int>>) -> Seq<Pair<int, int>> decreases s.len() - i {
    let e = nxt(s, i + 1);
    if i < 0 || i >= s.len() || e <= i || e > s.len() { flush(a, u) } else {
        let t = bp_text(m, s, i, e);
        if m.vocab.dom().contains(t) { mw(m, s, e, flush(a, u).push(Pair { first: m.vocab[t], second: e - i }), None) }
        else if m.byte_fallback && bytes_known(m, t) { mw(m, s, e, flush(a, u) + bsyms(m, t), None) }
        else if m.unk_token.len() == 0 { mw(m, s, e, a, u) }
        else if u.is_some() && m.fuse_unk { mw(m, s, e, a, Some(Pair { first: u->0.first, second: u->0.second + (e - i) })) }
        else { mw(m, s, e, flush(a, u), if m.vocab.dom().contains(m.unk_token) { Some(Pair { first: m.vocab[m.unk_token], second: e - i }) } else { u }) }
    }
}
pub open spec fn bp_init(m: BPE, s: Seq<int>) -> Seq<Pair<int, int>> { mw(m, s, 0, Seq::empty(), None) }
pub open spec fn all_pos(a: Seq<Pair<int, int>>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).second > 0 }
pub open spec fn u_pos(u: Option<Pair<int, int>>) -> bool { u.is_some() ==> u->0.second > 0 }
pub proof fn lemma_mw_pos(m: BPE, s: Seq<int>, i: int, a: Seq<Pair<int, int>>, u: Option<Pair<int, int>>)
    requires all_pos(a), u_pos(u)
    ensures all_pos(mw(m, s, i, a, u))
    decreases s.len() - i
{
    let e = nxt(s, i + 1);
    if !(i < 0 || i >= s.len() || e <= i || e > s.len()) {
        let t = bp_text(m, s, i, e);
        if m.vocab.dom().contains(t) { lemma_mw_pos(m, s, e, flush(a, u).push(Pair { first: m.vocab[t], second: e - i }), None); }
        else if m.byte_fallback && bytes_known(m, t) { lemma_mw_pos(m, s, e, flush(a, u) + bsyms(m, t), None); }
        else if m.unk_token.len() == 0 { lemma_mw_pos(m, s, e, a, u); }
        else if u.is_some() && m.fuse_unk { lemma_mw_pos(m, s, e, a, Some(Pair { first: u->0.first, second: u->0.second + (e - i) })); }
        else { lemma_mw_pos(m, s, e, flush(a, u), if m.vocab.dom().contains(m.unk_token) { Some(Pair { first: m.vocab[m.unk_token], second: e - i }) } else { u }); }
    }
}
pub proof fn lemma_hex(b: int)
    requires 0 <= b < 256
    ensures srep(2 - hex_digits(b, true).len(), 48) + hex_digits(b, true) == seq![hex_digit(b / 16, true), hex_digit(b % 16, true)]
{
    reveal_with_fuel(hex_digits, 3);
    assert(srep(2 - hex_digits(b, true).len(), 48) + hex_digits(b, true) =~= seq![hex_digit(b / 16, true), hex_digit(b % 16, true)]);
}
pub proof fn lemma_btok(c: int, code: Seq<int>)
    requires code == oss_str(oss_int(Oss { out: Seq::<int>::empty() + srep(0, 32) + S"<0x", hex: true, upper: true, width: 2, fill: 48 }, uw8(c)), S">").out
    ensures code == btok(c)
{ lemma_hex(uw8(c)); assert(code =~= btok(c)); }
// the result of a word
pub open spec fn word_ok(m: BPE, s: Seq<int>, r: Seq<Pair<int, int>>) -> bool {
    let w = bp_init(m, s);
    merged(w, m.merges, r) && all_pos(r) && (fl_zero(m.dropout) && grows(w, m.merges) ==> r == greedy(w, m.merges))
}
""", only="C11,C12,C13,C14,C22,C25,C27")
MW_ST = ["$this == $0this", "$sequence == $0sequence", "$length == slen($sequence)"]
MW_IN = MW_ST + ["chain($word.symbols)", "all_pos(sy($word.symbols))", "u_pos($unk)"]
fn("BPE::merge_word", props="C11", ensures={"*:symbols": "word_ok($this, $sequence, sy($r.symbols))"},
   loops=[dict(inv=MW_IN + ["0 <= $i <= slen($sequence)", "mw($this, $sequence, $i, sy($word.symbols), $unk) == bp_init($this, $sequence)"], dec="imax(0, slen($sequence) - $i)",
               before="assert(sy($word.symbols) =~= Seq::<Pair<int, int>>::empty());",
               head="@let i0 = $i; @let e0 = nxt($sequence, $i + 1); @let a0 = sy($word.symbols); @let u0 = $unk; @let text = bp_text($this, $sequence, #i0, #e0); lemma_nxt($sequence, $i + 1);"),
          dict(inv=MW_IN + ["$i < $end <= slen($sequence)", "nxt($sequence, $end) == #e0", "sy($word.symbols) == #a0 && $unk == #u0"], dec="imax(0, slen($sequence) - $end)"),
          dict(inv=["$tokens.len() == #i", "forall|k: int| 0 <= k < #i ==> #[trigger] $tokens[k] == tok_id($this.vocab, btok(#text[k]))"], before="assert($sub_sequence == #text);"),
          dict(inv=["$all_found <==> forall|k: int| 0 <= k < #i ==> (#[trigger] $tokens[k]).is_some()"], after="if $all_found { assert forall|j: int| 0 <= j < #text.len() implies $this.vocab.dom().contains(btok(#[trigger] #text[j])) by { assert($tokens[j].is_some()); }; } else { let k = choose|k: int| 0 <= k < $tokens.len() && !(#[trigger] $tokens[k]).is_some(); assert(!$this.vocab.dom().contains(btok(#text[k]))); }"),
          dict(inv=["chain($word.symbols)", "sy($word.symbols) =~= flush(#a0, #u0) + bsyms($this, #text).take(#i)"], after="assert(bsyms($this, #text).take(#text.len() as int) =~= bsyms($this, #text));"),
          ],
   hints={"decl it": "assert($sub_sequence =~= #text);", "decl code": "lemma_btok(#text[#i], $code);",
          "before Word::merge_all#0": "lemma_mw_pos($this, $sequence, 0, Seq::<Pair<int, int>>::empty(), None::<Pair<int, int>>); assert(sy($word.symbols) == bp_init($this, $sequence)); assert forall|i: int| 0 <= i < $word.symbols.len() implies (#[trigger] $word.symbols[i]).len > 0 by { assert(sy($word.symbols)[i].second > 0); };"})
spec(r"""
// ---- the model and its cache ----
pub open spec fn merges_known(m: BPE) -> bool { forall|a: Pair<int, int>| #[trigger] m.merges.dom().contains(a) ==> m.vocab_r.dom().contains(m.merges[a].second) }
pub open spec fn cached_ok(m: BPE, k: Seq<int>) -> bool { let r = sy(m.cache[k].symbols); word_ok(m, k, r) && ids_known(m, r) }
// every cached word is the result for its own text
pub open spec fn cache_ok(m: BPE) -> bool { forall|k: Seq<int>| #[trigger] m.cache.dom().contains(k) ==> cached_ok(m, k) }
pub open spec fn bpe_ok(m: BPE) -> bool { inverse(m.vocab, m.vocab_r) && merges_known(m) && cache_ok(m) }
pub open spec fn uc(m: BPE) -> BPE { BPE { cache: Map::empty(), ..m } }
pub proof fn lemma_merges_known(m: BPE, n: int, l: Seq<Seq<int>>)
    requires inverse(m.vocab, m.vocab_r), m.merges == mg_list(m.vocab, n, l, l.len() as int)
    ensures merges_known(m)
{ assert forall|a: Pair<int, int>| #[trigger] m.merges.dom().contains(a) implies m.vocab_r.dom().contains(m.merges[a].second) by { lemma_mg_list(m.vocab, n, l, l.len() as int, a); }; }
pub proof fn lemma_mw_known(m: BPE, s: Seq<int>, i: int, a: Seq<Pair<int, int>>, u: Option<Pair<int, int>>)
    requires inverse(m.vocab, m.vocab_r), ids_known(m, a), u.is_some() ==> m.vocab_r.dom().contains(u->0.first)
    ensures ids_known(m, mw(m, s, i, a, u))
    decreases s.len() - i
{
    let e = nxt(s, i + 1);
    if !(i < 0 || i >= s.len() || e <= i || e > s.len()) {
        let t = bp_text(m, s, i, e);
        if m.vocab.dom().contains(t) { lemma_mw_known(m, s, e, flush(a, u).push(Pair { first: m.vocab[t], second: e - i }), None); }
        else if m.byte_fallback && bytes_known(m, t) {
            assert forall|j: int| 0 <= j < t.len() implies m.vocab_r.dom().contains((#[trigger] bsyms(m, t)[j]).first) by { assert(m.vocab.dom().contains(btok(t[j]))); };
            lemma_mw_known(m, s, e, flush(a, u) + bsyms(m, t), None);
        }
        else if m.unk_token.len() == 0 { lemma_mw_known(m, s, e, a, u); }
        else if u.is_some() && m.fuse_unk { lemma_mw_known(m, s, e, a, Some(Pair { first: u->0.first, second: u->0.second + (e - i) })); }
        else { lemma_mw_known(m, s, e, flush(a, u), if m.vocab.dom().contains(m.unk_token) { Some(Pair { first: m.vocab[m.unk_token], second: e - i }) } else { u }); }
    }
}
pub proof fn lemma_all_known(m: BPE, ws: Seq<Pair<int, int>>, ps: Seq<int>)
    requires merges_known(m), ids_known(m, ws), mg_ok(ws, ps, m.merges)
    ensures ids_known(m, mg_all(ws, ps, m.merges))
    decreases ps.len()
{ if ps.len() > 0 { lemma_all_known(m, ws, ps.drop_last()); } }
pub proof fn lemma_word_known(m: BPE, s: Seq<int>, r: Seq<Pair<int, int>>)
    requires inverse(m.vocab, m.vocab_r), merges_known(m), word_ok(m, s, r)
    ensures ids_known(m, r)
{
    let w = bp_init(m, s);
    lemma_mw_known(m, s, 0, Seq::<Pair<int, int>>::empty(), None::<Pair<int, int>>);
    let ps = choose|ps: Seq<int>| #[trigger] mg_ok(w, ps, m.merges) && mg_all(w, ps, m.merges) == r;
    lemma_all_known(m, w, ps);
}
pub proof fn lemma_mw_uc(m: BPE, n: BPE, s: Seq<int>, i: int, a: Seq<Pair<int, int>>, u: Option<Pair<int, int>>)
    requires uc(m) == uc(n)
    ensures mw(m, s, i, a, u) == mw(n, s, i, a, u)
    decreases s.len() - i
{
    let e = nxt(s, i + 1);
    assert(m.vocab == uc(m).vocab && n.vocab == uc(n).vocab && m.unk_token == uc(m).unk_token && n.unk_token == uc(n).unk_token && m.byte_fallback == uc(m).byte_fallback && n.byte_fallback == uc(n).byte_fallback);
    assert(m.continuing_subword_prefix == uc(m).continuing_subword_prefix && n.continuing_subword_prefix == uc(n).continuing_subword_prefix && m.end_of_word_suffix == uc(m).end_of_word_suffix && n.end_of_word_suffix == uc(n).end_of_word_suffix && m.fuse_unk == uc(m).fuse_unk && n.fuse_unk == uc(n).fuse_unk);
    if !(i < 0 || i >= s.len() || e <= i || e > s.len()) {
        let t = bp_text(m, s, i, e);
        assert(t == bp_text(n, s, i, e)); assert(bytes_known(m, t) == bytes_known(n, t)); assert(bsyms(m, t) == bsyms(n, t));
        if m.vocab.dom().contains(t) { lemma_mw_uc(m, n, s, e, flush(a, u).push(Pair { first: m.vocab[t], second: e - i }), None); }
        else if m.byte_fallback && bytes_known(m, t) { lemma_mw_uc(m, n, s, e, flush(a, u) + bsyms(m, t), None); }
        else if m.unk_token.len() == 0 { lemma_mw_uc(m, n, s, e, a, u); }
        else if u.is_some() && m.fuse_unk { lemma_mw_uc(m, n, s, e, a, Some(Pair { first: u->0.first, second: u->0.second + (e - i) })); }
        else { lemma_mw_uc(m, n, s, e, flush(a, u), if m.vocab.dom().contains(m.unk_token) { Some(Pair { first: m.vocab[m.unk_token], second: e - i }) } else { u }); }
    }
}
// the cache does not matter
pub proof fn lemma_word_uc(m: BPE, n: BPE, s: Seq<int>, r: Seq<Pair<int, int>>)
    requires uc(m) == uc(n)
    ensures bp_init(m, s) == bp_init(n, s), word_ok(m, s, r) == word_ok(n, s, r), wt(m, r) == wt(n, r), ids_known(m, r) == ids_known(n, r)
{
    lemma_mw_uc(m, n, s, 0, Seq::empty(), None);
    assert(m.merges == uc(m).merges && n.merges == uc(n).merges && m.dropout == uc(m).dropout && n.dropout == uc(n).dropout && m.vocab_r == uc(m).vocab_r && n.vocab_r == uc(n).vocab_r);
}
// the tokens of a word: a vocabulary entry as a whole, or the merged symbols
pub open spec fn whole_tok(m: BPE, s: Seq<int>) -> bool { fl_zero(m.dropout) && m.ignore_merges && s.len() > 0 && m.vocab.dom().contains(s) }
pub open spec fn word_toks(m: BPE, s: Seq<int>, ts: Seq<Token>) -> bool {
    if whole_tok(m, s) { ts =~= seq![Token { id: m.vocab[s], value: s, offsets: Pair { first: 0int, second: slen(s) } }] }
    else { exists|r: Seq<Pair<int, int>>| #[trigger] word_ok(m, s, r) && ids_known(m, r) && ts == wt(m, r) }
}
pub proof fn lemma_toks_uc(m: BPE, n: BPE, s: Seq<int>, ts: Seq<Token>)
    requires uc(m) == uc(n), word_toks(m, s, ts)
    ensures word_toks(n, s, ts)
{
    assert(m.vocab == uc(m).vocab && n.vocab == uc(n).vocab && m.dropout == uc(m).dropout && n.dropout == uc(n).dropout && m.ignore_merges == uc(m).ignore_merges && n.ignore_merges == uc(n).ignore_merges);
    if !whole_tok(m, s) { let r = choose|r: Seq<Pair<int, int>>| #[trigger] word_ok(m, s, r) && ids_known(m, r) && ts == wt(m, r); lemma_word_uc(m, n, s, r); }
}
pub proof fn lemma_cache_in(m: BPE, k: Seq<int>, w: Word)
    requires cache_ok(m), word_ok(m, k, sy(w.symbols)), ids_known(m, sy(w.symbols))
    ensures cache_ok(BPE { cache: map_ins(m.cache, k, w), ..m })
{
    let n = BPE { cache: map_ins(m.cache, k, w), ..m };
    assert(uc(m) == uc(n));
    assert forall|x: Seq<int>| #[trigger] n.cache.dom().contains(x) implies cached_ok(n, x) by { if m.cache.dom().contains(x) { assert(cached_ok(m, x)); } lemma_word_uc(m, n, x, sy(n.cache[x].symbols)); };
}
pub open spec fn split_toks(m: BPE, a: Split, b: Split) -> bool {
    if a.tokens.len() > 0 { b == a } else { b =~~= (Split { tokens: b.tokens, ..a }) && exists|ts: Seq<Token>| #[trigger] word_toks(m, a.normalized, ts) && b.tokens == wc(ts, a.normalized) }
}
pub open spec fn bpe_toks(m: BPE, p: PreTokenizedString, r: PreTokenizedString) -> bool {
    r.splits.len() == p.splits.len() && r =~~= (PreTokenizedString { splits: r.splits, ..p }) && forall|i: int| 0 <= i < p.splits.len() ==> #[trigger] split_toks(m, p.splits[i], r.splits[i])
}
""", only="C11,C12,C13,C14,C22,C25,C27")
spec(r"""
pub proof fn lemma_sums(ws: Seq<Pair<int, int>>, k: int)
    requires all_pos(ws), k <= ws.len()
    ensures sums(ws, k) >= 0
    decreases k
{ if k > 0 { lemma_sums(ws, k - 1); assert(ws[k - 1].second > 0); } }
pub proof fn lemma_toks_pos(m: BPE, s: Seq<int>, ts: Seq<Token>)
    requires word_toks(m, s, ts)
    ensures forall|i: int| 0 <= i < ts.len() ==> 0 <= (#[trigger] ts[i]).offsets.first && 0 <= ts[i].offsets.second
{
    if !whole_tok(m, s) {
        let r = choose|r: Seq<Pair<int, int>>| #[trigger] word_ok(m, s, r) && ids_known(m, r) && ts == wt(m, r);
        assert forall|i: int| 0 <= i < ts.len() implies 0 <= (#[trigger] ts[i]).offsets.first && 0 <= ts[i].offsets.second by { lemma_sums(r, i); lemma_sums(r, i + 1); };
    }
}
""", only="C11,C12,C13,C14,C22,C25,C27")
fn("BPE::tokenize_with_cache", mut=["this"], props="C11,C12,C13", requires=["bpe_ok($this)", "fl_zero($this.dropout)"],
   ensures={"*:same": "uc($this') == uc($this) && bpe_ok($this')", "*:tokens": "word_toks($this, $sequence, $r)"},
   hints={"before BPE::word_to_tokens#0": "assert(cached_ok($this, $sequence));",
          "before BPE::word_to_tokens#1": "lemma_word_known($this, $sequence, sy($word.symbols)); lemma_cache_in($this, $sequence, $word);"})
spec(r"""
// ---- C12, C13: the result is a function of the configuration and the text ----
// the merges come from a list whose parts add up
pub open spec fn made(m: BPE, l: Seq<Seq<int>>) -> bool { m.merges == mg_list(m.vocab, slen(m.continuing_subword_prefix), l, slen(l)) && mg_fit(m.vocab, slen(m.continuing_subword_prefix), l) }
// an ordinary configuration without dropout: ids are unique, and no token that stands for a character inside a word is as short as the continuation prefix
pub open spec fn plain(m: BPE) -> bool {
    let n = m.continuing_subword_prefix.len();
    &&& fl_zero(m.dropout) && injective(m.vocab) && inverse(m.vocab, m.vocab_r) && exists|l: Seq<Seq<int>>| #[trigger] made(m, l)
    &&& m.byte_fallback ==> n < 6
    &&& m.unk_token.len() > 0 && m.vocab.dom().contains(m.unk_token) ==> m.unk_token.len() > n
}
pub open spec fn idlen(m: BPE, id: int) -> int { m.vocab_r[id].len() - m.continuing_subword_prefix.len() }
pub open spec fn gs(m: BPE, a: Seq<Pair<int, int>>) -> bool { forall|j: int| 1 <= j < a.len() ==> idlen(m, (#[trigger] a[j]).first) >= 1 }
pub proof fn lemma_idlen(m: BPE, t: Seq<int>)
    requires injective(m.vocab), inverse(m.vocab, m.vocab_r), m.vocab.dom().contains(t)
    ensures idlen(m, m.vocab[t]) == t.len() - m.continuing_subword_prefix.len()
{ assert(m.vocab_r.dom().contains(m.vocab[t])); }
pub proof fn lemma_mw_gs(m: BPE, s: Seq<int>, i: int, a: Seq<Pair<int, int>>, u: Option<Pair<int, int>>)
    requires plain(m), gs(m, a), u.is_some() ==> idlen(m, u->0.first) >= 1, i == 0 ==> a.len() == 0 && u.is_none()
    ensures gs(m, mw(m, s, i, a, u))
    decreases s.len() - i
{
    let e = nxt(s, i + 1);
    if !(i < 0 || i >= s.len() || e <= i || e > s.len()) {
        let t = bp_text(m, s, i, e);
        if m.vocab.dom().contains(t) { lemma_idlen(m, t); lemma_mw_gs(m, s, e, flush(a, u).push(Pair { first: m.vocab[t], second: e - i }), None); }
        else if m.byte_fallback && bytes_known(m, t) {
            assert forall|j: int| 0 <= j < t.len() implies idlen(m, (#[trigger] bsyms(m, t)[j]).first) >= 1 by { assert(m.vocab.dom().contains(btok(t[j]))); lemma_idlen(m, btok(t[j])); };
            lemma_mw_gs(m, s, e, flush(a, u) + bsyms(m, t), None);
        }
        else if m.unk_token.len() == 0 { lemma_mw_gs(m, s, e, a, u); }
        else if u.is_some() && m.fuse_unk { lemma_mw_gs(m, s, e, a, Some(Pair { first: u->0.first, second: u->0.second + (e - i) })); }
        else { if m.vocab.dom().contains(m.unk_token) { lemma_idlen(m, m.unk_token); } lemma_mw_gs(m, s, e, flush(a, u), if m.vocab.dom().contains(m.unk_token) { Some(Pair { first: m.vocab[m.unk_token], second: e - i }) } else { u }); }
    }
}
pub open spec fn idlen_fn(m: BPE) -> spec_fn(int) -> int { |id: int| idlen(m, id) }
pub proof fn lemma_plain(m: BPE, s: Seq<int>)
    requires plain(m)
    ensures grows(bp_init(m, s), m.merges)
{
    let l = choose|l: Seq<Seq<int>>| #[trigger] made(m, l);
    let n = slen(m.continuing_subword_prefix);
    lemma_mw_gs(m, s, 0, Seq::empty(), None);
    let g = idlen_fn(m); let w = bp_init(m, s);
    assert forall|a: Pair<int, int>| #[trigger] m.merges.dom().contains(a) implies g(m.merges[a].second) == g(a.first) + g(a.second) by {
        lemma_mg_list(m.vocab, n, l, slen(l), a);
        let t = l[mg_list(m.vocab, n, l, slen(l))[a].first];
        lemma_idlen(m, mg_left(t)); lemma_idlen(m, mg_right(t)); lemma_idlen(m, mg_text(t, n));
        assert(mg_right(t).len() >= n);
    };
    assert(adds_up(g, w, m.merges));
}
pub open spec fn bpt(m: BPE, s: Seq<int>) -> Seq<Token> {
    if whole_tok(m, s) { seq![Token { id: m.vocab[s], value: s, offsets: Pair { first: 0int, second: slen(s) } }] } else { wt(m, greedy(bp_init(m, s), m.merges)) }
}
pub proof fn lemma_bpt(m: BPE, s: Seq<int>, ts: Seq<Token>)
    requires plain(m), word_toks(m, s, ts)
    ensures ts == bpt(m, s)
{
    if !whole_tok(m, s) { lemma_plain(m, s); } else { assert(ts =~= bpt(m, s)); }
}
pub open spec fn bpe_out(m: BPE, p: PreTokenizedString) -> PreTokenizedString {
    PreTokenizedString { splits: Seq::new(p.splits.len(), |i: int| if p.splits[i].tokens.len() > 0 { p.splits[i] } else { Split { tokens: wc(bpt(m, p.splits[i].normalized), p.splits[i].normalized), ..p.splits[i] } }), ..p }
}
pub proof fn lemma_bpe_out(m: BPE, p: PreTokenizedString, r: PreTokenizedString)
    requires plain(m), bpe_toks(m, p, r)
    ensures r == bpe_out(m, p)
{
    assert forall|i: int| 0 <= i < p.splits.len() implies #[trigger] r.splits[i] == bpe_out(m, p).splits[i] by {
        let a = p.splits[i];
        assert(split_toks(m, a, r.splits[i]));
        if a.tokens.len() == 0 { let ts = choose|ts: Seq<Token>| #[trigger] word_toks(m, a.normalized, ts) && r.splits[i].tokens == wc(ts, a.normalized); lemma_bpt(m, a.normalized, ts); }
    };
    assert(r =~~= bpe_out(m, p));
}
// the cache does not enter the result
pub proof fn lemma_plain_uc(m: BPE, n: BPE, p: PreTokenizedString)
    requires uc(m) == uc(n)
    ensures plain(m) == plain(n), bpe_out(m, p) == bpe_out(n, p)
{
    assert(m.vocab == uc(m).vocab && n.vocab == uc(n).vocab && m.unk_token == uc(m).unk_token && n.unk_token == uc(n).unk_token && m.byte_fallback == uc(m).byte_fallback && n.byte_fallback == uc(n).byte_fallback && m.vocab_r == uc(m).vocab_r && n.vocab_r == uc(n).vocab_r);
    assert(m.continuing_subword_prefix == uc(m).continuing_subword_prefix && n.continuing_subword_prefix == uc(n).continuing_subword_prefix && m.dropout == uc(m).dropout && n.dropout == uc(n).dropout && m.ignore_merges == uc(m).ignore_merges && n.ignore_merges == uc(n).ignore_merges && m.merges == uc(m).merges && n.merges == uc(n).merges);
    assert(forall|l: Seq<Seq<int>>| #[trigger] made(m, l) == made(n, l));
    if exists|l: Seq<Seq<int>>| #[trigger] made(m, l) { let l = choose|l: Seq<Seq<int>>| #[trigger] made(m, l); assert(made(n, l)); }
    if exists|l: Seq<Seq<int>>| #[trigger] made(n, l) { let l = choose|l: Seq<Seq<int>>| #[trigger] made(n, l); assert(made(m, l)); }
    assert forall|i: int| 0 <= i < p.splits.len() implies #[trigger] bpe_out(m, p).splits[i] == bpe_out(n, p).splits[i] by { lemma_word_uc(m, n, p.splits[i].normalized, Seq::empty()); let x = p.splits[i].normalized; lemma_mw_uc(m, n, x, 0, Seq::empty(), None); };
    assert(bpe_out(m, p) =~~= bpe_out(n, p));
}
// two histories that start with the same configuration: the second call answers as the first
pub proof fn lemma_history(m: BPE, n: BPE, p: PreTokenizedString, r: PreTokenizedString, q: PreTokenizedString)
    requires uc(m) == uc(n), plain(m), bpe_toks(m, p, r), bpe_toks(n, p, q)
    ensures r == q
{ lemma_plain_uc(m, n, p); lemma_bpe_out(m, p, r); lemma_bpe_out(n, p, q); }
""", only="C12,C13,C22,C27")
spec(r"""
// ---- C11: the tokens tile the word ----
// a character that stands for itself: in the vocabulary, by its bytes, or as the unknown token
pub open spec fn stands(m: BPE, s: Seq<int>, i: int, e: int) -> bool {
    let t = bp_text(m, s, i, e);
    m.vocab.dom().contains(t) || m.byte_fallback && bytes_known(m, t) && t.len() == e - i || !(m.byte_fallback && bytes_known(m, t)) && m.unk_token.len() > 0 && m.vocab.dom().contains(m.unk_token)
}
pub open spec fn by_bytes(m: BPE, s: Seq<int>, i: int, e: int) -> bool { let t = bp_text(m, s, i, e); !m.vocab.dom().contains(t) && m.byte_fallback && bytes_known(m, t) }
// [i, e) is one character of the word
pub open spec fn a_char(s: Seq<int>, i: int, e: int) -> bool { 0 <= i < s.len() && (i == 0 || !is_cont(s[i])) && e == nxt(s, i + 1) }
pub open spec fn all_stand(m: BPE, s: Seq<int>) -> bool { forall|i: int, e: int| #[trigger] a_char(s, i, e) ==> stands(m, s, i, e) }
pub open spec fn no_bytes(m: BPE, s: Seq<int>) -> bool { forall|i: int, e: int| #[trigger] a_char(s, i, e) ==> !by_bytes(m, s, i, e) }
// no symbol of ws begins or ends inside a character
pub open spec fn at_chars(s: Seq<int>, ws: Seq<Pair<int, int>>) -> bool { forall|k: int| 1 <= k <= ws.len() ==> !mid(s, #[trigger] sums(ws, k)) }
pub open spec fn u_len(u: Option<Pair<int, int>>) -> int { match u { Some(x) => x.second, None => 0 } }
pub proof fn lemma_sums_ext(a: Seq<Pair<int, int>>, b: Seq<Pair<int, int>>, k: int)
    requires k <= a.len(), k <= b.len(), forall|j: int| 0 <= j < k ==> (#[trigger] a[j]).second == b[j].second
    ensures sums(a, k) == sums(b, k)
    decreases k
{ if k > 0 { lemma_sums_ext(a, b, k - 1); assert(a[k - 1].second == b[k - 1].second); } }
pub proof fn lemma_sums_push(a: Seq<Pair<int, int>>, x: Pair<int, int>)
    ensures forall|k: int| 0 <= k <= a.len() ==> #[trigger] sums(a.push(x), k) == sums(a, k), sums(a.push(x), a.len() as int + 1) == sums(a, a.len() as int) + x.second
{
    let b = a.push(x); let n = a.len() as int;
    assert forall|k: int| 0 <= k <= n implies #[trigger] sums(b, k) == sums(a, k) by { lemma_sums_ext(a, b, k); };
    assert(b[n] == x); assert(sums(b, n + 1) == sums(b, n) + b[n].second);
}
pub proof fn lemma_at_push(s: Seq<int>, a: Seq<Pair<int, int>>, x: Pair<int, int>)
    ensures at_chars(s, a) && !mid(s, sums(a, a.len() as int) + x.second) ==> at_chars(s, a.push(x))
{
    lemma_sums_push(a, x);
    if at_chars(s, a) && !mid(s, sums(a, a.len() as int) + x.second) { assert forall|k: int| 1 <= k <= a.push(x).len() implies !mid(s, #[trigger] sums(a.push(x), k)) by { if k <= a.len() { assert(!mid(s, sums(a, k))); } }; }
}
pub proof fn lemma_sums_bytes(m: BPE, a: Seq<Pair<int, int>>, t: Seq<int>, k: int)
    requires 0 <= k <= t.len()
    ensures sums(a + bsyms(m, t), a.len() + k) == sums(a, a.len() as int) + k
    decreases k
{ let b = a + bsyms(m, t); if k > 0 { lemma_sums_bytes(m, a, t, k - 1); assert(b[a.len() + k - 1] == bsyms(m, t)[k - 1]); } else { lemma_sums_ext(a, b, a.len() as int); } }
pub proof fn lemma_mw_sum(m: BPE, s: Seq<int>, i: int, a: Seq<Pair<int, int>>, u: Option<Pair<int, int>>)
    requires all_stand(m, s), 0 <= i <= s.len(), i == 0 || !mid(s, i), sums(a, a.len() as int) + u_len(u) == i, i == 0 ==> u.is_none()
    ensures ({ let w = mw(m, s, i, a, u); sums(w, w.len() as int) == s.len() }), no_bytes(m, s) && at_chars(s, a) ==> at_chars(s, mw(m, s, i, a, u)),
    decreases s.len() - i
{
    let e = nxt(s, i + 1);
    if u.is_some() { lemma_sums_push(a, u->0); lemma_at_push(s, a, u->0); }
    if i < s.len() {
        lemma_nxt(s, i + 1);
        assert(a_char(s, i, e));
        let t = bp_text(m, s, i, e); let f = flush(a, u);
        assert(stands(m, s, i, e));
        if m.vocab.dom().contains(t) { lemma_sums_push(f, Pair { first: m.vocab[t], second: e - i }); lemma_at_push(s, f, Pair { first: m.vocab[t], second: e - i }); lemma_mw_sum(m, s, e, f.push(Pair { first: m.vocab[t], second: e - i }), None); }
        else if m.byte_fallback && bytes_known(m, t) { assert(by_bytes(m, s, i, e)); lemma_sums_bytes(m, f, t, t.len() as int); assert((f + bsyms(m, t)).len() == f.len() + t.len()); lemma_mw_sum(m, s, e, f + bsyms(m, t), None); }
        else if m.unk_token.len() == 0 { }
        else if u.is_some() && m.fuse_unk { lemma_sums_push(a, Pair { first: u->0.first, second: u->0.second + (e - i) }); lemma_mw_sum(m, s, e, a, Some(Pair { first: u->0.first, second: u->0.second + (e - i) })); }
        else { lemma_sums_push(f, Pair { first: m.vocab[m.unk_token], second: e - i }); lemma_mw_sum(m, s, e, f, Some(Pair { first: m.vocab[m.unk_token], second: e - i })); }
    }
}
pub proof fn lemma_sums_mg(ws: Seq<Pair<int, int>>, i: int, id: int, k: int)
    requires 0 <= i, i + 1 < ws.len(), 0 <= k < ws.len()
    ensures sums(mg_at(ws, i, id), k) == (if k <= i { sums(ws, k) } else { sums(ws, k + 1) })
    decreases k
{
    let b = mg_at(ws, i, id);
    if k > 0 { lemma_sums_mg(ws, i, id, k - 1); if k <= i { assert(b[k - 1] == ws[k - 1]); } else if k > i + 1 { assert(b[k - 1] == ws[k]); } else { assert(b[i].second == ws[i].second + ws[i + 1].second); assert(sums(ws, i + 2) == sums(ws, i + 1) + ws[i + 1].second); assert(sums(ws, i + 1) == sums(ws, i) + ws[i].second); } }
}
pub proof fn lemma_all_sum(s: Seq<int>, ws: Seq<Pair<int, int>>, ps: Seq<int>, mg: Map<Pair<int, int>, Pair<int, int>>)
    requires mg_ok(ws, ps, mg)
    ensures ({ let r = mg_all(ws, ps, mg); sums(r, r.len() as int) == sums(ws, ws.len() as int) && (ws.len() > 0 ==> r.len() > 0) && (at_chars(s, ws) ==> at_chars(s, r)) })
    decreases ps.len()
{
    if ps.len() > 0 {
        let w = mg_all(ws, ps.drop_last(), mg); let i = ps.last(); let id = mg[bpr(w, i)].second; let r = mg_at(w, i, id);
        lemma_all_sum(s, ws, ps.drop_last(), mg);
        assert(r.len() == w.len() - 1);
        lemma_sums_mg(w, i, id, w.len() - 1);
        if at_chars(s, ws) { assert forall|k: int| 1 <= k <= r.len() implies !mid(s, #[trigger] sums(r, k)) by { lemma_sums_mg(w, i, id, k); assert(!mid(s, sums(w, k)) && !mid(s, sums(w, k + 1))); }; }
    }
}
// from the first to the last character without gap; only inside a character (bytes) does a token begin one before the end of the last one
pub open spec fn tile(s: Seq<int>, ts: Seq<Token>, exact: bool) -> bool {
    &&& s.len() > 0 ==> ts.len() > 0
    &&& ts.len() > 0 ==> ts[0].offsets.first == 0 && ts[ts.len() - 1].offsets.second == cb(s, s.len() as int)
    &&& forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).offsets.first < ts[i].offsets.second
    &&& forall|i: int| 1 <= i < ts.len() ==> ({ let d = ts[i - 1].offsets.second - (#[trigger] ts[i]).offsets.first; d == 0 || d == 1 && !exact })
}
// the texts are those of the ids
pub open spec fn texts(m: BPE, ts: Seq<Token>) -> bool { forall|i: int| 0 <= i < ts.len() ==> m.vocab_r.dom().contains((#[trigger] ts[i]).id) && (ts[i].value == m.vocab_r[ts[i].id] || m.vocab.dom().contains(ts[i].value) && m.vocab[ts[i].value] == ts[i].id) }
pub proof fn lemma_cb_mono(s: Seq<int>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures cb(s, a) <= cb(s, b), a < b ==> cb(s, a) - (if mid(s, a) { 1int } else { 0 }) < cb(s, b)
    decreases b
{ if a < b { lemma_cb_mono(s, a, b - 1); } }
pub proof fn lemma_sums_mono(ws: Seq<Pair<int, int>>, a: int, b: int)
    requires all_pos(ws), 0 <= a <= b <= ws.len()
    ensures sums(ws, a) <= sums(ws, b), 0 <= sums(ws, a), a > 0 ==> sums(ws, a) > 0
    decreases b
{ if a < b { lemma_sums_mono(ws, a, b - 1); assert(ws[b - 1].second > 0); } else if a > 0 { lemma_sums_mono(ws, a - 1, a - 1); assert(ws[a - 1].second > 0); } }
// a text begins with the first byte of a character
pub open spec fn starts_char(s: Seq<int>) -> bool { s.len() > 0 ==> !is_cont(s[0]) }
pub proof fn lemma_tile(m: BPE, s: Seq<int>, ts: Seq<Token>)
    requires word_toks(m, s, ts), bpe_ok(m)
    ensures starts_char(s) && all_stand(m, s) ==> tile(s, wc(ts, s), no_bytes(m, s) || whole_tok(m, s)) || s.len() == 0, texts(m, wc(ts, s))
{
    let c = wc(ts, s);
    if whole_tok(m, s) {
        assert(c[0].offsets == wc_off(s, Pair { first: 0int, second: slen(s) }));
        if s.len() > 0 && starts_char(s) { lemma_cb_mono(s, 1, slen(s)); assert(cb(s, 1) == cb(s, 0) + 1); }
    } else {
        let r = choose|r: Seq<Pair<int, int>>| #[trigger] word_ok(m, s, r) && ids_known(m, r) && ts == wt(m, r);
        let w = bp_init(m, s); let n = r.len() as int;
        let ps = choose|ps: Seq<int>| #[trigger] mg_ok(w, ps, m.merges) && mg_all(w, ps, m.merges) == r;
        assert forall|i: int| 0 <= i < c.len() implies m.vocab_r.dom().contains((#[trigger] c[i]).id) && c[i].value == m.vocab_r[c[i].id] by { assert(m.vocab_r.dom().contains(r[i].first)); };
        if starts_char(s) && all_stand(m, s) && s.len() > 0 {
            lemma_mw_sum(m, s, 0, Seq::empty(), None);
            lemma_all_sum(s, w, ps, m.merges);
            assert(sums(r, n) == s.len());
            assert forall|i: int| 0 <= i < n implies (#[trigger] c[i]).offsets == wc_off(s, Pair { first: sums(r, i), second: sums(r, i + 1) }) && 0 <= sums(r, i) < sums(r, i + 1) <= s.len() by {
                lemma_sums_mono(r, i, i + 1); lemma_sums_mono(r, i + 1, n); assert(r[i].second > 0);
            };
            assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).offsets.first < c[i].offsets.second by { assert(c[i].offsets == wc_off(s, Pair { first: sums(r, i), second: sums(r, i + 1) })); lemma_cb_mono(s, sums(r, i), sums(r, i + 1)); };
            assert forall|i: int| 1 <= i < c.len() implies ({ let d = c[i - 1].offsets.second - (#[trigger] c[i]).offsets.first; d == 0 || d == 1 && !no_bytes(m, s) }) by { assert(c[i - 1].offsets == wc_off(s, Pair { first: sums(r, i - 1), second: sums(r, i) })); };
        }
    }
}
pub open spec fn split_tiles(m: BPE, a: Split, b: Split) -> bool {
    a.tokens.len() == 0 ==> texts(m, b.tokens) && (starts_char(a.normalized) && all_stand(m, a.normalized) && a.normalized.len() > 0 ==> tile(a.normalized, b.tokens, no_bytes(m, a.normalized) || whole_tok(m, a.normalized)))
}
pub proof fn lemma_tiles(m: BPE, p: PreTokenizedString, r: PreTokenizedString)
    requires bpe_toks(m, p, r), bpe_ok(m)
    ensures forall|i: int| 0 <= i < p.splits.len() ==> #[trigger] split_tiles(m, p.splits[i], r.splits[i])
{
    assert forall|i: int| 0 <= i < p.splits.len() implies #[trigger] split_tiles(m, p.splits[i], r.splits[i]) by {
        let a = p.splits[i]; assert(split_toks(m, a, r.splits[i]));
        if a.tokens.len() == 0 { let ts = choose|ts: Seq<Token>| #[trigger] word_toks(m, a.normalized, ts) && r.splits[i].tokens == wc(ts, a.normalized); lemma_tile(m, a.normalized, ts); }
    };
}
""", only="C11,C22,C27")
spec(r"""
// uses: pre_tokenizer
// ---- C22: tokens in order, each over a part of the text ----
pub proof fn lemma_starts(w: Seq<int>) requires scalars(w) ensures starts_char(w_to8(w))
{
    if w.len() > 0 {
        let c = seq![w[0]]; let v = w.skip(1);
        assert(is_scalar(w[0])); assert(scalars(c));
        assert forall|i: int| 0 <= i < v.len() implies is_scalar(#[trigger] v[i]) by { assert(is_scalar(w[i + 1])); }
        assert(w =~= c + v);
        lemma_w8_cat(c, v); axiom_utf8(w[0]);
        assert(w_to8(w)[0] == w_to8(c)[0]);
    } else { lemma_w8_empty(); assert(w =~= Seq::<int>::empty()); }
}
// the first character that byte a belongs to
pub open spec fn cf(s: Seq<int>, a: int) -> int { cb(s, a) - (if mid(s, a) { 1int } else { 0 }) }
pub proof fn lemma_cb_le(s: Seq<int>, a: int, b: int) requires 0 <= a <= b <= s.len() ensures cb(s, a) <= cb(s, b), cf(s, a) <= cf(s, b), cf(s, a) <= cb(s, b), starts_char(s) ==> 0 <= cf(s, a) decreases b
{ if a < b { lemma_cb_le(s, a, b - 1); } else if a > 0 { lemma_cb_le(s, a - 1, a - 1); if a == 1 { assert(cb(s, 1) == cb(s, 0) + (if is_cont(s[0]) { 0int } else { 1 })); } } }
pub proof fn lemma_bpe_in(m: BPE, s: Seq<int>, ts: Seq<Token>)
    requires word_toks(m, s, ts), starts_char(s) ensures toks_in(wc(ts, s)), s.len() == 0 ==> ts.len() == 0
{
    let c = wc(ts, s);
    let n = s.len() as int;
    if whole_tok(m, s) { lemma_cb_le(s, 0, n); assert(c.len() == 1); assert(c[0].offsets == wc_off(s, Pair { first: 0int, second: slen(s) })); }
    else {
        let r = choose|r: Seq<Pair<int, int>>| #[trigger] word_ok(m, s, r) && ids_known(m, r) && ts == wt(m, r);
        assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).offsets == wc_off(s, Pair { first: sums(r, i), second: sums(r, i + 1) }) && 0 <= sums(r, i) <= sums(r, i + 1) by { lemma_sums_mono(r, i, i + 1); }
        assert forall|i: int| 0 <= i < c.len() implies 0 <= (#[trigger] c[i]).offsets.first <= c[i].offsets.second by { assert(c[i].offsets == wc_off(s, Pair { first: sums(r, i), second: sums(r, i + 1) })); lemma_cb_le(s, imin(sums(r, i), n), imin(sums(r, i + 1), n)); }
        assert forall|j: int, k: int| #![trigger c[j], c[k]] 0 <= j < k < c.len() implies off_le(c[j].offsets, c[k].offsets) by {
            assert(c[j].offsets == wc_off(s, Pair { first: sums(r, j), second: sums(r, j + 1) })); assert(c[k].offsets == wc_off(s, Pair { first: sums(r, k), second: sums(r, k + 1) })); lemma_sums_mono(r, j, k); lemma_sums_mono(r, j + 1, k + 1); lemma_sums_mono(r, k, k + 1);
            lemma_cb_le(s, imin(sums(r, j), n), imin(sums(r, k), n)); lemma_cb_le(s, imin(sums(r, j + 1), n), imin(sums(r, k + 1), n));
        }
        if n == 0 { lemma_empty_word(m, s, r); }
    }
}
pub proof fn lemma_empty_word(m: BPE, s: Seq<int>, r: Seq<Pair<int, int>>) requires s.len() == 0, word_ok(m, s, r) ensures r.len() == 0
{
    let w = bp_init(m, s);
    let ps = choose|ps: Seq<int>| #[trigger] mg_ok(w, ps, m.merges) && mg_all(w, ps, m.merges) == r;
    assert(w.len() == 0);
    if ps.len() > 0 { lemma_mg_less(w, ps, m.merges); }
}
pub proof fn lemma_mg_less(w: Seq<Pair<int, int>>, ps: Seq<int>, mg: Map<Pair<int, int>, Pair<int, int>>) requires mg_ok(w, ps, mg) ensures mg_all(w, ps, mg).len() + ps.len() == w.len() decreases ps.len()
{ if ps.len() > 0 { lemma_mg_less(w, ps.drop_last(), mg); } }
pub proof fn lemma_bpe_keeps(m: BPE, p: PreTokenizedString, r: PreTokenizedString)
    requires bpe_toks(m, p, r) ensures md_ok(p, r)
{
    if steady(p) {
        assert forall|i: int| 0 <= i < p.splits.len() implies with_toks(p.splits[i], #[trigger] r.splits[i]) by {
            let a = p.splits[i]; assert(split_toks(m, a, r.splits[i]));
            if a.tokens.len() == 0 {
                lemma_steady_texts(p, i);
                lemma_starts(p.normalized.normalized.subrange(a.offsets.first, a.offsets.second));
                let ts = choose|ts: Seq<Token>| #[trigger] word_toks(m, a.normalized, ts) && r.splits[i].tokens == wc(ts, a.normalized);
                lemma_bpe_in(m, a.normalized, ts);
            }
        }
        lemma_with_toks(p, r);
    }
}
""", only="C22,C27")
spec(r"""
// uses: pre_tokenizer
// ---- C22: a token's value is the text of the characters that it stands over ----
// byte b of the text begins character cb(b)
pub proof fn lemma_cb_cat(a: Seq<int>, b: Seq<int>, k: int)
    requires 0 <= k <= a.len() + b.len() ensures cb(a + b, k) == (if k <= a.len() { cb(a, k) } else { cb(a, a.len() as int) + cb(b, k - a.len()) }) decreases k
{
    if k > 0 {
        lemma_cb_cat(a, b, k - 1);
        if k <= a.len() { assert((a + b)[k - 1] == a[k - 1]); } else { assert((a + b)[k - 1] == b[k - 1 - a.len()]); }
    }
}
pub proof fn lemma_cb_one(c: Seq<int>, k: int)
    requires 1 <= k <= c.len(), !is_cont(c[0]), forall|i: int| 0 < i < c.len() ==> is_cont(#[trigger] c[i]) ensures cb(c, k) == 1 decreases k
{ if k > 1 { lemma_cb_one(c, k - 1); assert(is_cont(c[k - 1])); } else { assert(cb(c, 1) == cb(c, 0) + 1); } }
pub proof fn lemma_cb_text(w: Seq<int>, b: int)
    requires scalars(w), 0 <= b <= w_to8(w).len(), !mid(w_to8(w), b)
    ensures cb(w_to8(w), w_to8(w).len() as int) == w.len(), 0 <= cb(w_to8(w), b) <= w.len(), w_to8(w).take(b) == w_to8(w.take(cb(w_to8(w), b)))
    decreases w.len()
{
    let s = w_to8(w);
    if w.len() == 0 { lemma_w8_empty(); assert(w =~= Seq::<int>::empty()); assert(s.take(b) =~= s); assert(w.take(0) =~= w); }
    else {
        let v = w.drop_last(); let c = seq![w.last()]; let x = w_to8(v); let y = w_to8(c);
        assert(is_scalar(w[w.len() - 1])); assert(scalars(c));
        assert forall|i: int| 0 <= i < v.len() implies is_scalar(#[trigger] v[i]) by { assert(is_scalar(w[i])); }
        assert(w =~= v + c);
        lemma_w8_cat(v, c); axiom_utf8(w.last());
        assert forall|i: int| 0 < i < y.len() implies is_cont(#[trigger] y[i]) by { assert(utf8_cont(y[i])); }
        lemma_cb_one(y, y.len() as int);
        lemma_cb_cat(x, y, s.len() as int);
        lemma_cb_text(v, x.len() as int);
        lemma_cb_cat(x, y, b);
        lemma_cb_le(s, 0, b); lemma_cb_le(s, b, s.len() as int);
        if b == s.len() { assert(s.take(b) =~= s); assert(w.take(w.len() as int) =~= w); }
        else {
            if b > x.len() { assert(s[b] == y[b - x.len()]); assert(is_cont(y[b - x.len()])); }
            if b < x.len() { assert(s[b] == x[b]); }
            lemma_cb_text(v, b);
            assert(s.take(b) =~= x.take(b));
            assert(w.take(cb(s, b)) =~= v.take(cb(x, b)));
        }
    }
}
pub proof fn lemma_cb_part(w: Seq<int>, a: int, b: int)
    requires scalars(w), 0 <= a < b <= w_to8(w).len(), !mid(w_to8(w), a), !mid(w_to8(w), b)
    ensures ({ let s = w_to8(w); 0 <= cb(s, a) < cb(s, b) <= w.len() && w_to8(w.subrange(cb(s, a), cb(s, b))) == s.subrange(a, b) })
{
    let s = w_to8(w);
    lemma_cb_text(w, a); lemma_cb_text(w, b); lemma_cb_mono(s, a, b);
    let x = w.take(cb(s, a)); let y = w.subrange(cb(s, a), cb(s, b));
    assert(w.take(cb(s, b)) =~= x + y);
    assert forall|i: int| 0 <= i < x.len() implies is_scalar(#[trigger] x[i]) by { assert(is_scalar(w[i])); }
    assert forall|i: int| 0 <= i < y.len() implies is_scalar(#[trigger] y[i]) by { assert(is_scalar(w[cb(s, a) + i])); }
    lemma_w8_cat(x, y);
    assert(s.take(b) == s.take(a) + w_to8(y));
    assert(w_to8(y) =~= s.subrange(a, b)) by {
        let z = w_to8(y);
        assert(s.take(b).len() == a + z.len());
        assert forall|i: int| 0 <= i < z.len() implies z[i] == s.subrange(a, b)[i] by { assert(s.take(b)[a + i] == (s.take(a) + z)[a + i]); }
    }
}
// ids are unique, merges concatenate their parts, characters have no suffix and no tokens of their bytes, and the unknown token does not merge
pub open spec fn bp_model(m: BPE) -> bool {
    &&& injective(m.vocab) && inverse(m.vocab, m.vocab_r) && exists|l: Seq<Seq<int>>| #[trigger] made(m, l)
    &&& m.end_of_word_suffix.len() == 0 && !m.byte_fallback
    &&& forall|a: Pair<int, int>| #[trigger] m.merges.dom().contains(a) ==> m.vocab_r[a.first] != m.unk_token && m.vocab_r[a.second] != m.unk_token
}
pub open spec fn pre_at(m: BPE, j: int) -> Seq<int> { if j > 0 { m.continuing_subword_prefix } else { Seq::empty() } }
// symbol j is the unknown token or the text of its bytes
pub open spec fn says_at(m: BPE, s: Seq<int>, ws: Seq<Pair<int, int>>, j: int) -> bool {
    let v = m.vocab_r[ws[j].first];
    v == m.unk_token || 0 <= sums(ws, j) <= sums(ws, j + 1) <= s.len() && v == pre_at(m, j) + s.subrange(sums(ws, j), sums(ws, j + 1))
}
pub open spec fn w_says(m: BPE, s: Seq<int>, ws: Seq<Pair<int, int>>) -> bool { forall|j: int| 0 <= j < ws.len() ==> #[trigger] says_at(m, s, ws, j) }
pub proof fn lemma_says_push(m: BPE, s: Seq<int>, a: Seq<Pair<int, int>>, x: Pair<int, int>)
    requires w_says(m, s, a), says_at(m, s, a.push(x), a.len() as int) ensures w_says(m, s, a.push(x))
{
    lemma_sums_push(a, x);
    assert forall|j: int| 0 <= j < a.push(x).len() implies #[trigger] says_at(m, s, a.push(x), j) by { if j < a.len() { assert(says_at(m, s, a, j)); assert(a.push(x)[j] == a[j]); } }
}
pub proof fn lemma_mw_says(m: BPE, s: Seq<int>, i: int, a: Seq<Pair<int, int>>, u: Option<Pair<int, int>>)
    requires bp_model(m), all_stand(m, s), 0 <= i <= s.len(), i == 0 || !mid(s, i), sums(a, a.len() as int) + u_len(u) == i, i == 0 ==> u.is_none(), all_pos(a), u_pos(u), w_says(m, s, a), u.is_some() ==> m.vocab_r[u->0.first] == m.unk_token
    ensures w_says(m, s, mw(m, s, i, a, u))
    decreases s.len() - i
{
    let e = nxt(s, i + 1); let f = flush(a, u);
    if u.is_some() { lemma_sums_push(a, u->0); lemma_says_push(m, s, a, u->0); }
    if i < s.len() {
        lemma_nxt(s, i + 1);
        assert(a_char(s, i, e));
        let t = bp_text(m, s, i, e);
        assert(stands(m, s, i, e));
        if m.vocab.dom().contains(t) {
            let x = Pair { first: m.vocab[t], second: e - i };
            lemma_sums_push(f, x);
            assert(m.vocab_r.dom().contains(m.vocab[t])); assert(m.vocab_r[m.vocab[t]] == t);
            lemma_sums_mono(f, 0, f.len() as int);
            if f.len() > 0 { lemma_sums_mono(f, f.len() as int, f.len() as int); }
            assert(t =~= pre_at(m, f.len() as int) + s.subrange(i, e));
            assert(f.push(x)[f.len() as int] == x);
            assert(says_at(m, s, f.push(x), f.len() as int));
            lemma_says_push(m, s, f, x);
            lemma_mw_says(m, s, e, f.push(x), None);
        }
        else if u.is_some() && m.fuse_unk { lemma_mw_says(m, s, e, a, Some(Pair { first: u->0.first, second: u->0.second + (e - i) })); }
        else { assert(m.vocab_r.dom().contains(m.vocab[m.unk_token])); lemma_mw_says(m, s, e, f, Some(Pair { first: m.vocab[m.unk_token], second: e - i })); }
    }
}
pub proof fn lemma_merge_says(m: BPE, s: Seq<int>, w: Seq<Pair<int, int>>, i: int)
    requires bp_model(m), w_says(m, s, w), can(w, i, m.merges) ensures w_says(m, s, mg_at(w, i, m.merges[bpr(w, i)].second))
{
    let a = bpr(w, i); let id = m.merges[a].second; let r = mg_at(w, i, id); let n = slen(m.continuing_subword_prefix);
    let l = choose|l: Seq<Seq<int>>| #[trigger] made(m, l);
    lemma_mg_list(m.vocab, n, l, slen(l), a);
    let t = l[m.merges[a].first];
    assert(m.vocab_r.dom().contains(m.vocab[mg_left(t)]) && m.vocab_r.dom().contains(m.vocab[mg_right(t)]) && m.vocab_r.dom().contains(m.vocab[mg_text(t, n)]));
    assert(m.vocab_r[a.first] == mg_left(t) && m.vocab_r[a.second] == mg_right(t) && m.vocab_r[id] == mg_text(t, n));
    assert(says_at(m, s, w, i)); assert(says_at(m, s, w, i + 1));
    assert forall|j: int| 0 <= j < r.len() implies #[trigger] says_at(m, s, r, j) by {
        lemma_sums_mg(w, i, id, j); lemma_sums_mg(w, i, id, j + 1);
        if j < i { assert(r[j] == w[j]); assert(says_at(m, s, w, j)); }
        else if j > i { assert(r[j] == w[j + 1]); assert(says_at(m, s, w, j + 1)); }
        else {
            let p = sums(w, i); let q = sums(w, i + 1); let z = sums(w, i + 2);
            assert(r[i].first == id);
            assert(mg_right(t).skip(n) =~= s.subrange(q, z));
            assert(mg_text(t, n) =~= pre_at(m, i) + s.subrange(p, z));
        }
    }
}
pub proof fn lemma_all_says(m: BPE, s: Seq<int>, ws: Seq<Pair<int, int>>, ps: Seq<int>)
    requires bp_model(m), w_says(m, s, ws), mg_ok(ws, ps, m.merges) ensures w_says(m, s, mg_all(ws, ps, m.merges)) decreases ps.len()
{
    if ps.len() > 0 {
        lemma_all_says(m, s, ws, ps.drop_last());
        lemma_merge_says(m, s, mg_all(ws, ps.drop_last(), m.merges), ps.last());
    }
}
pub proof fn lemma_word_says(m: BPE, w: Seq<int>, ts: Seq<Token>)
    requires bp_model(m), scalars(w), all_stand(m, w_to8(w)), word_toks(m, w_to8(w), ts)
    ensures ({ let c = wc(ts, w_to8(w)); forall|j: int| 0 <= j < c.len() ==> g_text(m.continuing_subword_prefix, m.unk_token)(w, #[trigger] c[j]) })
{
    let s = w_to8(w); let c = wc(ts, s); let g = g_text(m.continuing_subword_prefix, m.unk_token);
    if whole_tok(m, s) {
        lemma_starts(w); lemma_cb_part(w, 0, slen(s));
        assert(c[0].offsets == wc_off(s, Pair { first: 0int, second: slen(s) }));
        assert(s.subrange(0, slen(s)) =~= s);
    } else {
        let r = choose|r: Seq<Pair<int, int>>| #[trigger] word_ok(m, s, r) && ids_known(m, r) && ts == wt(m, r);
        let b = bp_init(m, s); let n = r.len() as int;
        let ps = choose|ps: Seq<int>| #[trigger] mg_ok(b, ps, m.merges) && mg_all(b, ps, m.merges) == r;
        if s.len() == 0 { lemma_empty_word(m, s, r); } else {
            lemma_starts(w);
            assert(no_bytes(m, s));
            lemma_mw_sum(m, s, 0, Seq::empty(), None);
            lemma_mw_says(m, s, 0, Seq::empty(), None);
            lemma_all_says(m, s, b, ps);
            lemma_all_sum(s, b, ps, m.merges);
            assert forall|j: int| 0 <= j < c.len() implies g(w, #[trigger] c[j]) by {
                let x = sums(r, j); let y = sums(r, j + 1);
                lemma_sums_mono(r, j, j + 1); lemma_sums_mono(r, j + 1, n); assert(r[j].second > 0);
                assert(!mid(s, x)) by { if j > 0 { assert(!mid(s, sums(r, j))); } }
                assert(!mid(s, sums(r, j + 1)));
                lemma_cb_part(w, x, y);
                assert(says_at(m, s, r, j));
                assert(c[j].offsets == wc_off(s, Pair { first: x, second: y }));
                assert(Seq::<int>::empty() + s.subrange(x, y) =~= s.subrange(x, y));
            }
        }
    }
}
// every character of the texts has a token or the unknown token
pub open spec fn words_stand(m: BPE, p: PreTokenizedString) -> bool { forall|i: int| 0 <= i < p.splits.len() && p.splits[i].tokens.len() == 0 ==> all_stand(m, (#[trigger] p.splits[i]).normalized) }
pub proof fn lemma_bpe_says(m: BPE, p: PreTokenizedString, r: PreTokenizedString)
    requires bpe_toks(m, p, r), bp_model(m), words_stand(m, p), steady(p), toks_say(p, g_whole())
    ensures toks_say(r, g_text(m.continuing_subword_prefix, m.unk_token))
{
    let n = p.normalized.normalized; let g = g_text(m.continuing_subword_prefix, m.unk_token);
    assert forall|i: int| 0 <= i < r.splits.len() implies sp_says(n, #[trigger] r.splits[i], g) by {
        let a = p.splits[i]; let w = part(n, a);
        assert(split_toks(m, a, r.splits[i]));
        assert(rng_at(n, p.splits, i, 0, n.len() as int));
        if a.tokens.len() == 0 {
            lemma_steady_texts(p, i);
            let ts = choose|ts: Seq<Token>| #[trigger] word_toks(m, a.normalized, ts) && r.splits[i].tokens == wc(ts, a.normalized);
            assert(all_stand(m, p.splits[i].normalized));
            lemma_word_says(m, w, ts);
        } else {
            assert(sp_says(n, a, g_whole()));
            assert forall|j: int| 0 <= j < a.tokens.len() implies g(w, #[trigger] a.tokens[j]) by { assert(g_whole()(w, a.tokens[j])); assert(w.subrange(0, w.len() as int) =~= w); }
        }
    }
}
// an unknown token lets every text stand
pub proof fn lemma_unk_stands(m: BPE, s: Seq<int>) requires !m.byte_fallback, m.unk_token.len() > 0, m.vocab.dom().contains(m.unk_token) ensures all_stand(m, s) { }
""", only="C22,C27")
spec(r"""
// uses: pre_tokenizer bytes
// ---- C27: byte-level text loses nothing ----
// an ordinary byte-level model: every byte has a token, merges concatenate their parts
pub open spec fn bl_model(m: BPE) -> bool {
    &&& injective(m.vocab) && inverse(m.vocab, m.vocab_r) && exists|l: Seq<Seq<int>>| #[trigger] made(m, l)
    &&& m.continuing_subword_prefix.len() == 0 && m.end_of_word_suffix.len() == 0
    &&& forall|b: int| is_byte(b) ==> m.vocab.dom().contains(#[trigger] chs(b))
}
pub open spec fn flat(ys: Seq<Seq<int>>) -> Seq<int> decreases ys.len() { if ys.len() == 0 { Seq::empty() } else { flat(ys.drop_last()) + ys.last() } }
pub proof fn lemma_flat_cat(a: Seq<Seq<int>>, b: Seq<Seq<int>>) ensures flat(a + b) == flat(a) + flat(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(flat(a) + flat(b) =~= flat(a)); }
    else { lemma_flat_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(flat(a + b) =~= flat(a) + flat(b)); }
}
pub proof fn lemma_flat_push(a: Seq<Seq<int>>, y: Seq<int>) ensures flat(a.push(y)) == flat(a) + y { assert(a.push(y).drop_last() =~= a); }
// id stands for the bytes y; the ids of ws stand for ys
pub open spec fn spell(m: BPE, id: int, y: Seq<int>) -> bool { m.vocab_r.dom().contains(id) && m.vocab_r[id] == enc_bytes(y) && is_chars(y) }
pub open spec fn spells(m: BPE, ws: Seq<Pair<int, int>>, ys: Seq<Seq<int>>) -> bool { ws.len() == ys.len() && forall|i: int| 0 <= i < ws.len() ==> spell(m, (#[trigger] ws[i]).first, ys[i]) }
pub proof fn lemma_spell(m: BPE, t: Seq<int>, y: Seq<int>)
    requires injective(m.vocab), inverse(m.vocab, m.vocab_r), m.vocab.dom().contains(t), t == enc_bytes(y), is_chars(y) ensures spell(m, m.vocab[t], y)
{ assert(m.vocab_r.dom().contains(m.vocab[t])); }
// a token is the text of its bytes only
pub proof fn lemma_merge_spell(m: BPE, a: Pair<int, int>, y: Seq<int>, z: Seq<int>)
    requires bl_model(m), m.merges.dom().contains(a), spell(m, a.first, y), spell(m, a.second, z) ensures spell(m, m.merges[a].second, y + z)
{
    let l = choose|l: Seq<Seq<int>>| #[trigger] made(m, l);
    lemma_mg_list(m.vocab, 0, l, slen(l), a);
    let t = l[m.merges[a].first];
    assert(m.vocab_r.dom().contains(m.vocab[mg_left(t)]) && m.vocab_r.dom().contains(m.vocab[mg_right(t)]));
    assert(m.vocab_r[a.first] == mg_left(t)); assert(m.vocab_r[a.second] == mg_right(t));
    assert(mg_right(t).skip(0) =~= mg_right(t));
    lemma_enc_cat(y, z);
    assert(is_chars(y + z)) by { let s = y + z; assert forall|k: int| 0 <= k < s.len() implies -128 <= #[trigger] s[k] < 128 by { if k < y.len() { assert(s[k] == y[k]); } else { assert(s[k] == z[k - y.len()]); } } }
    lemma_spell(m, mg_text(t, 0), y + z);
}
pub proof fn lemma_flat_merge(ys: Seq<Seq<int>>, i: int) requires 0 <= i, i + 1 < ys.len() ensures flat(ys.take(i).push(ys[i] + ys[i + 1]) + ys.skip(i + 2)) == flat(ys)
{
    let a = ys.take(i); let b = ys.skip(i + 2);
    lemma_flat_cat(a.push(ys[i] + ys[i + 1]), b); lemma_flat_push(a, ys[i] + ys[i + 1]);
    lemma_flat_cat(a.push(ys[i]).push(ys[i + 1]), b); lemma_flat_push(a.push(ys[i]), ys[i + 1]); lemma_flat_push(a, ys[i]);
    assert(ys =~= a.push(ys[i]).push(ys[i + 1]) + b);
    assert(flat(a) + (ys[i] + ys[i + 1]) =~= flat(a) + ys[i] + ys[i + 1]);
}
pub proof fn lemma_all_spell(m: BPE, ws: Seq<Pair<int, int>>, ps: Seq<int>, ys: Seq<Seq<int>>) -> (zs: Seq<Seq<int>>)
    requires bl_model(m), spells(m, ws, ys), mg_ok(ws, ps, m.merges) ensures spells(m, mg_all(ws, ps, m.merges), zs), flat(zs) == flat(ys) decreases ps.len()
{
    if ps.len() == 0 { ys } else {
        let w = mg_all(ws, ps.drop_last(), m.merges); let i = ps.last();
        let vs = lemma_all_spell(m, ws, ps.drop_last(), ys);
        let zs = vs.take(i).push(vs[i] + vs[i + 1]) + vs.skip(i + 2);
        let r = mg_all(ws, ps, m.merges);
        assert(can(w, i, m.merges));
        assert(spell(m, w[i].first, vs[i])); assert(spell(m, w[i + 1].first, vs[i + 1]));
        lemma_merge_spell(m, bpr(w, i), vs[i], vs[i + 1]);
        lemma_flat_merge(vs, i);
        assert(r.len() == w.len() - 1 && zs.len() == w.len() - 1);
        assert forall|j: int| 0 <= j < r.len() implies spell(m, (#[trigger] r[j]).first, zs[j]) by {
            if j < i { assert(r[j] == w[j]); assert(zs[j] == vs[j]); } else if j > i { assert(r[j] == w[j + 1]); assert(zs[j] == vs[j + 1]); }
        }
        zs
    }
}
pub proof fn lemma_enc_len(x: Seq<int>, i: int, j: int) requires 0 <= i <= j <= x.len() ensures enc_upto(x, i).len() <= enc_upto(x, j).len(), enc_upto(x, j).take(enc_upto(x, i).len() as int) == enc_upto(x, i), i < j ==> enc_upto(x, i).len() < enc_upto(x, j).len() decreases j
{
    if i < j { lemma_enc_len(x, i, j - 1); lemma_chs(uw8(x[j - 1])); assert(enc_upto(x, j).take(enc_upto(x, i).len() as int) =~= enc_upto(x, j - 1).take(enc_upto(x, i).len() as int)); }
    else { assert(enc_upto(x, i).take(enc_upto(x, i).len() as int) =~= enc_upto(x, i)); }
}
// the characters of the text are those of its bytes
pub proof fn lemma_enc_at(x: Seq<int>, k: int)
    requires 0 <= k < x.len()
    ensures ({ let s = enc_bytes(x); let i = enc_upto(x, k).len() as int; let e = enc_upto(x, k + 1).len() as int;
        0 <= i < e <= s.len() && s.subrange(i, e) == chs(uw8(x[k])) && nxt(s, i + 1) == e })
{
    let s = enc_bytes(x); let n = x.len() as int; let i = enc_upto(x, k).len() as int; let e = enc_upto(x, k + 1).len() as int; let c = chs(uw8(x[k]));
    lemma_enc_len(x, k, k + 1); lemma_enc_len(x, k + 1, n); lemma_chs(uw8(x[k]));
    assert(s.take(e) == enc_upto(x, k + 1));
    assert(s.subrange(i, e) =~= c) by { assert(s.subrange(i, e) =~= s.take(e).subrange(i, e)); assert(enc_upto(x, k + 1).subrange(i, e) =~= c); }
    lemma_nxt(s, i + 1);
    let q = nxt(s, i + 1);
    assert forall|j: int| i < j < e implies utf8_cont(#[trigger] s[j]) by { assert(s.subrange(i, e)[j - i] == s[j]); assert(utf8_cont(c[j - i])); }
    if q < e { assert(utf8_cont(s[q])); }
    if q > e {
        assert(k + 1 < n);
        let g = enc_upto(x, k + 2).len() as int; let c2 = chs(uw8(x[k + 1]));
        lemma_enc_len(x, k + 1, k + 2); lemma_enc_len(x, k + 2, n); lemma_chs(uw8(x[k + 1]));
        assert(s.take(g) == enc_upto(x, k + 2));
        assert(s.take(g)[e] == s[e]); assert(enc_upto(x, k + 2)[e] == c2[0]);
        assert(is_cont(s[e]));
    }
}
pub proof fn lemma_mw_spell(m: BPE, x: Seq<int>, k: int, a: Seq<Pair<int, int>>, ys: Seq<Seq<int>>) -> (zs: Seq<Seq<int>>)
    requires bl_model(m), is_chars(x), 0 <= k <= x.len(), spells(m, a, ys), flat(ys) == x.take(k)
    ensures spells(m, mw(m, enc_bytes(x), enc_upto(x, k).len() as int, a, None), zs), flat(zs) == x decreases x.len() - k
{
    let s = enc_bytes(x); let i = enc_upto(x, k).len() as int;
    if k == x.len() { assert(x.take(k) =~= x); ys } else {
        let e = enc_upto(x, k + 1).len() as int; let y = seq![x[k]]; let c = chs(uw8(x[k]));
        lemma_enc_at(x, k);
        lemma_enc_one(x[k]);
        let t = bp_text(m, s, i, e);
        assert(t =~= c) by { assert(m.continuing_subword_prefix + c =~= c); assert(c + m.end_of_word_suffix =~= c); }
        assert(is_chars(y)) by { assert(-128 <= x[k] < 128); }
        lemma_spell(m, t, y);
        let b = a.push(Pair { first: m.vocab[t], second: e - i });
        let vs = ys.push(y);
        assert(spells(m, b, vs)) by { assert forall|j: int| 0 <= j < b.len() implies spell(m, (#[trigger] b[j]).first, vs[j]) by { if j < a.len() { assert(b[j] == a[j]); } } }
        lemma_flat_push(ys, y);
        assert(x.take(k) + y =~= x.take(k + 1));
        lemma_mw_spell(m, x, k + 1, b, vs)
    }
}
// the tokens of a word stand for its bytes
pub open spec fn voc_says(d: Txt, r: Map<int, Seq<int>>) -> bool { forall|id: int| #[trigger] r.dom().contains(id) ==> d(id) == tok_bytes(r[id]) }
pub proof fn lemma_spell_text(m: BPE, d: Txt, ts: Seq<Token>, ws: Seq<Pair<int, int>>, zs: Seq<Seq<int>>, k: int)
    requires spells(m, ws, zs), voc_says(d, m.vocab_r), ts.len() == ws.len(), forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).id == ws[i].first, 0 <= k <= ts.len()
    ensures tk_text(d, ts, k) == flat(zs.take(k)) decreases k
{
    if k > 0 {
        lemma_spell_text(m, d, ts, ws, zs, k - 1);
        assert(spell(m, ws[k - 1].first, zs[k - 1]));
        lemma_roundtrip(zs[k - 1]);
        assert(zs.take(k) =~= zs.take(k - 1).push(zs[k - 1]));
        lemma_flat_push(zs.take(k - 1), zs[k - 1]);
        assert(ts[k - 1].id == ws[k - 1].first);
    } else { assert(zs.take(0) =~= Seq::empty()); }
}
pub proof fn lemma_word_text(m: BPE, d: Txt, x: Seq<int>, ts: Seq<Token>)
    requires bl_model(m), is_chars(x), word_toks(m, enc_bytes(x), ts), voc_says(d, m.vocab_r) ensures tk_text(d, ts, ts.len() as int) == x
{
    let s = enc_bytes(x);
    if whole_tok(m, s) {
        lemma_spell(m, s, x);
        let ws = seq![Pair { first: m.vocab[s], second: slen(s) }]; let zs = seq![x];
        lemma_spell_text(m, d, ts, ws, zs, 1);
        assert(zs.take(1) =~= Seq::<Seq<int>>::empty().push(x)); lemma_flat_push(Seq::empty(), x); assert(Seq::<int>::empty() + x =~= x);
    } else {
        let r = choose|r: Seq<Pair<int, int>>| #[trigger] word_ok(m, s, r) && ids_known(m, r) && ts == wt(m, r);
        let w = bp_init(m, s);
        let ps = choose|ps: Seq<int>| #[trigger] mg_ok(w, ps, m.merges) && mg_all(w, ps, m.merges) == r;
        assert(x.take(0) =~= Seq::<int>::empty());
        let ys = lemma_mw_spell(m, x, 0, Seq::empty(), Seq::empty());
        let zs = lemma_all_spell(m, w, ps, ys);
        lemma_spell_text(m, d, ts, r, zs, ts.len() as int);
        assert(zs.take(zs.len() as int) =~= zs);
    }
}
// the tokens of all splits
pub open spec fn toks_text(d: Txt, ss: Seq<Split>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { toks_text(d, ss, k - 1) + tk_text(d, ss[k - 1].tokens, ss[k - 1].tokens.len() as int) } }
// tokenizing the characters of the bytes of q's texts: together the tokens stand for q's text
pub open spec fn md_bytes_on(vr: Map<int, Seq<int>>, p: PreTokenizedString, r: PreTokenizedString) -> bool {
    forall|q: PreTokenizedString, d: Txt| #![trigger bl_texts(q, p), voc_says(d, vr)] bl_texts(q, p) && chars_ok(q.splits) && voc_says(d, vr) ==> toks_text(d, r.splits, r.splits.len() as int) == txt(d, q)
}
pub proof fn lemma_ids_text(d: Txt, a: Seq<Token>, b: Seq<Token>, k: int)
    requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i]).id == b[i].id ensures tk_text(d, a, k) == tk_text(d, b, k) decreases k
{ if k > 0 { lemma_ids_text(d, a, b, k - 1); assert(a[k - 1].id == b[k - 1].id); } }
pub proof fn lemma_bpe_text(m: BPE, p: PreTokenizedString, r: PreTokenizedString, q: PreTokenizedString, d: Txt, k: int)
    requires bpe_toks(m, p, r), bl_model(m), bl_texts(q, p), chars_ok(q.splits), voc_says(d, m.vocab_r), 0 <= k <= p.splits.len()
    ensures toks_text(d, r.splits, k) == ss_text(d, q.splits, k) decreases k
{
    if k > 0 {
        lemma_bpe_text(m, p, r, q, d, k - 1);
        let a = p.splits[k - 1]; let b = r.splits[k - 1]; let c = q.splits[k - 1];
        assert(split_toks(m, a, b)); assert(a.normalized == bl_one(c).normalized && a.tokens == c.tokens);
        if a.tokens.len() == 0 {
            let ts = choose|ts: Seq<Token>| #[trigger] word_toks(m, a.normalized, ts) && b.tokens == wc(ts, a.normalized);
            lemma_word_text(m, d, c.normalized, ts);
            lemma_ids_text(d, b.tokens, ts, ts.len() as int);
        }
    }
}
pub proof fn lemma_bpe_bytes(m: BPE, p: PreTokenizedString, r: PreTokenizedString) requires bpe_toks(m, p, r), bl_model(m) ensures md_bytes_on(m.vocab_r, p, r)
{
    assert forall|q: PreTokenizedString, d: Txt| #![trigger bl_texts(q, p), voc_says(d, m.vocab_r)] bl_texts(q, p) && chars_ok(q.splits) && voc_says(d, m.vocab_r) implies toks_text(d, r.splits, r.splits.len() as int) == txt(d, q) by { lemma_bpe_text(m, p, r, q, d, p.splits.len() as int); }
}
""", only="C27")
fn("BPE::tokenize", mut=["this"], props="C11,C12,C13", requires=["bpe_ok($this)"],
   ensures={"*:same": "uc($this') == uc($this) && bpe_ok($this')", "*:tokens": "bpe_toks($this, $pre_tokenized, $r)", "C11:tiles": "forall|i: int| 0 <= i < $pre_tokenized.splits.len() ==> #[trigger] split_tiles($this, $pre_tokenized.splits[i], $r.splits[i])", "C22:keeps": "md_ok($pre_tokenized, $r)", "C22:texts": "bp_model($this) && words_stand($this, $pre_tokenized) ==> md_says($pre_tokenized, $r, g_text($this.continuing_subword_prefix, $this.unk_token))", "C27:text": "bl_model($this) ==> md_bytes_on($this.vocab_r, $pre_tokenized, $r)", "C12:result": "plain($this) ==> $r == bpe_out($this, $pre_tokenized)",
            "C13:history": "plain($this) ==> $r == bpe_out(uc($this), $pre_tokenized)"},
   hints={"return": [("C11", "lemma_tiles($0this, $0pre_tokenized, $r);"), ("C22", "lemma_bpe_keeps($0this, $0pre_tokenized, $r); if bp_model($0this) && words_stand($0this, $0pre_tokenized) && steady($0pre_tokenized) && toks_say($0pre_tokenized, g_whole()) { lemma_bpe_says($0this, $0pre_tokenized, $r); }"), ("C27", "if bl_model($0this) { lemma_bpe_bytes($0this, $0pre_tokenized, $r); }"), ("C12,C13", "if plain($0this) { lemma_bpe_out($0this, $0pre_tokenized, $r); lemma_plain_uc($0this, uc($0this), $0pre_tokenized); }")],
          "call BPE::tokenize_with_cache#0": "lemma_toks_uc(#t0, $0this, $sequence, #call); lemma_toks_pos($0this, $sequence, #call);",
          "call BPE::word_to_tokens#0": "lemma_word_uc($this, $0this, $sequence, sy($word.symbols)); assert(word_toks($0this, $sequence, #call)); lemma_toks_pos($0this, $sequence, #call);",
          "before BPE::word_to_tokens#0": "lemma_word_known($this, $sequence, sy($word.symbols));"},
   loops=[dict(inv=["uc($this) == uc($0this)", "bpe_ok($this)", "$pre_tokenized.splits.len() == $0pre_tokenized.splits.len()", "$pre_tokenized =~~= (PreTokenizedString { splits: $pre_tokenized.splits, ..$0pre_tokenized })",
                    "forall|k: int| #i <= k < $pre_tokenized.splits.len() ==> #[trigger] $pre_tokenized.splits[k] == $0pre_tokenized.splits[k]",
                    "forall|k: int| 0 <= k < #i ==> #[trigger] split_toks($0this, $0pre_tokenized.splits[k], $pre_tokenized.splits[k])"],
               head="@let t0 = $this; @let p0 = $pre_tokenized; @let i0 = #i; assert(#t0.dropout == uc(#t0).dropout && $0this.dropout == uc($0this).dropout);",
               end="assert(split_toks($0this, $0pre_tokenized.splits[#i0], $pre_tokenized.splits[#i0])); assert forall|k: int| 0 <= k < #i0 + 1 implies #[trigger] split_toks($0this, $0pre_tokenized.splits[k], $pre_tokenized.splits[k]) by { if k < #i0 { assert(split_toks($0this, $0pre_tokenized.splits[k], #p0.splits[k])); } };")])
