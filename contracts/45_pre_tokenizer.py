spec(r"""
// uses: common
pub type PII2 = Pair<int, int>;
pub type Mt = Pair<Pair<int, int>, bool>;
pub open spec fn mt(a: int, b: int, m: bool) -> Mt { Pair { first: Pair { first: a, second: b }, second: m } }
// ---- the pieces between and in the matches ----
pub open spec fn fm_end(ms: Seq<PII2>, k: int) -> int { if k <= 0 { 0 } else { ms[k - 1].second } }
pub open spec fn fm_k(ms: Seq<PII2>, k: int) -> Seq<Mt> decreases k {
    if k <= 0 { Seq::empty() }
    else if fm_end(ms, k - 1) != ms[k - 1].first { fm_k(ms, k - 1).push(mt(fm_end(ms, k - 1), ms[k - 1].first, false)).push(mt(ms[k - 1].first, ms[k - 1].second, true)) }
    else { fm_k(ms, k - 1).push(mt(ms[k - 1].first, ms[k - 1].second, true)) }
}
pub open spec fn fm(ms: Seq<PII2>, n: int) -> Seq<Mt> {
    if fm_end(ms, ms.len() as int) < n { fm_k(ms, ms.len() as int).push(mt(fm_end(ms, ms.len() as int), n, false)) } else { fm_k(ms, ms.len() as int) }
}
// matches that are in order and inside a text of n units
pub open spec fn in_order(ms: Seq<PII2>, n: int) -> bool {
    forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() ==> 0 <= ms[i].first <= ms[i].second <= n && (i > 0 ==> ms[i - 1].second <= ms[i].first)
}
// pieces without gap or overlap from a to b
pub open spec fn tiles(ps: Seq<Mt>, a: int, b: int) -> bool decreases ps.len() {
    if ps.len() == 0 { a == b }
    else { tiles(ps.drop_last(), a, ps.last().first.first) && ps.last().first.first <= ps.last().first.second == b }
}
pub proof fn lemma_fm_k(ms: Seq<PII2>, n: int, k: int)
    requires in_order(ms, n), 0 <= k <= ms.len()
    ensures tiles(fm_k(ms, k), 0, fm_end(ms, k)), 0 <= fm_end(ms, k), n >= 0 ==> fm_end(ms, k) <= n
    decreases k
{
    if k > 0 {
        lemma_fm_k(ms, n, k - 1);
        let p = fm_k(ms, k - 1);
        let m = ms[k - 1];
        if k > 1 { assert(ms[k - 2].second <= n); }
        if fm_end(ms, k - 1) != m.first {
            let q = p.push(mt(fm_end(ms, k - 1), m.first, false));
            assert(q.drop_last() =~= p);
            assert(tiles(q, 0, m.first));
            assert(q.push(mt(m.first, m.second, true)).drop_last() =~= q);
        } else { assert(p.push(mt(m.first, m.second, true)).drop_last() =~= p); }
    }
}
// the pieces of a text cover it without gap or overlap
pub proof fn lemma_fm(ms: Seq<PII2>, n: int)
    requires in_order(ms, n), n >= 0
    ensures tiles(fm(ms, n), 0, n)
{
    lemma_fm_k(ms, n, ms.len() as int);
    assert(fm_k(ms, ms.len() as int).push(mt(fm_end(ms, ms.len() as int), n, false)).drop_last() =~= fm_k(ms, ms.len() as int));
}
// ---- what splitting makes of them ----
// a text that is longer than its part of the sentence (byte-level text) has pieces that do not leave that part
pub open spec fn in_part(s: Split, a: int, b: int) -> Pair<int, int> {
    if b > s.offsets.second { Pair { first: imin(a, s.offsets.second - 1), second: s.offsets.second } } else { Pair { first: a, second: b } }
}
pub open spec fn piece(s: Split, u: Seq<int>, m: Mt) -> Split {
    Split { normalized: u_to8(u_sub(u, m.first.first, m.first.second - m.first.first)),
        offsets: in_part(s, u_count32(u_sub(u, 0, m.first.first)) + s.offsets.first, u_count32(u_sub(u, 0, m.first.second)) + s.offsets.first),
        tokens: Seq::empty() }
}
pub open spec fn sn_k(s: Split, u: Seq<int>, ms: Seq<Mt>, isolated: bool, k: int) -> Seq<Split> decreases k {
    if k <= 0 { Seq::empty() } else if !isolated && ms[k - 1].second { sn_k(s, u, ms, isolated, k - 1) } else { sn_k(s, u, ms, isolated, k - 1).push(piece(s, u, ms[k - 1])) }
}
pub open spec fn sn(s: Split, f: spec_fn(Seq<int>) -> Seq<Mt>, isolated: bool) -> Seq<Split> {
    let u = u_from8(s.normalized); sn_k(s, u, f(u), isolated, f(u).len() as int)
}
pub open spec fn sp_k(ss: Seq<Split>, f: spec_fn(Seq<int>) -> Seq<Mt>, isolated: bool, k: int) -> Seq<Split> decreases k {
    if k <= 0 { Seq::empty() } else if ss[k - 1].tokens.len() != 0 { sp_k(ss, f, isolated, k - 1).push(ss[k - 1]) } else { sp_k(ss, f, isolated, k - 1) + sn(ss[k - 1], f, isolated) }
}
pub open spec fn pt_split(p: PreTokenizedString, f: spec_fn(Seq<int>) -> Seq<Mt>, b: int) -> PreTokenizedString {
    PreTokenizedString { splits: sp_k(p.splits, f, b == 1, p.splits.len() as int), ..p }
}
pub open spec fn re_split(pat: Seq<int>) -> spec_fn(Seq<int>) -> Seq<Mt> { |u: Seq<int>| fm(re_seq(u_from8(pat), 0, u), u.len() as int) }
pub open spec fn flip(ms: Seq<Mt>) -> Seq<Mt> { Seq::new(ms.len(), |i: int| mt(ms[i].first.first, ms[i].first.second, !ms[i].second)) }
// same pieces, none of them a match
pub open spec fn unmark(ms: Seq<Mt>, k: int) -> Seq<Mt> { Seq::new(ms.len(), |i: int| if i < k { mt(ms[i].first.first, ms[i].first.second, false) } else { ms[i] }) }
pub proof fn lemma_unmark(s: Split, u: Seq<int>, ms: Seq<Mt>, k: int)
    requires 0 <= k <= ms.len()
    ensures sn_k(s, u, unmark(ms, ms.len() as int), false, k) == sn_k(s, u, ms, true, k) decreases k
{ if k > 0 { lemma_unmark(s, u, ms, k - 1); } }
""", only="C06,C08,C09,C22,C23,C27,C13")
trust("a regular expression's matches are an uninterpreted function of the pattern, the flags and the text: in order, inside the text, at character boundaries; the input of a matcher is not changed while it is used", only="C06,C08,C09,C22,C27")
fn("find_matches", throws="re_bad(u_from8($regex), 0)", spec="fm(re_seq(u_from8($regex), 0, $input), $input.len() as int)", props="C08,C09,C06",
   hints={"decl matches": "@let ms = re_seq(u_from8($regex), 0, $input); axiom_re(u_from8($regex), 0, $input);"},
   loops=[dict(xinv=["$matcher == Some(ReMat { pat: u_from8($regex), flags: 0, input: $input, k: $matches.len() as int })"],
               inv=["$matches =~= #ms.take($matches.len() as int)", "$matches.len() <= #ms.len()"], exit=["$matches =~= #ms"], dec="imax(0, #ms.len() - $matches.len())"),
          dict(inv=["$result == fm_k(#ms, #i)", "$cur == fm_end(#ms, #i)", "$matches == #ms"])])
fn("split_normalized", spec="sn($original_split, $split_fn, $pattern == 1)", requires=["$pattern == 0 || $pattern == 1"], props="C08,C09,C06",
   hints={"decl matches": "@let ms = $matches; @let u = $unicode_normalized;",
          "return": "if $0pattern == 1 { lemma_unmark($original_split, #u, #ms, #ms.len() as int); assert(unmark(#ms, 0) =~= #ms); }"},
   loops=[dict(inv=["$matches =~= unmark(#ms, #i)"]),
          dict(inv=["$new_splits == sn_k($original_split, #u, $matches, false, #i)", "$unicode_normalized == #u", "$matches =~= (if $0pattern == 1 { unmark(#ms, #ms.len() as int) } else { #ms })"])])
fn("PreTokenizedString::split", mut=["this"], requires=["$pattern == 0 || $pattern == 1"], props="C08,C09,C06",
   ensures={"*:value": "$this' =~~= pt_split($this, $split_fn, $pattern)"},
   loops=[dict(inv=["$new_splits =~= sp_k($this.splits, $split_fn, $pattern == 1, #i)", "$this == $0this"])])
fn("BertPreTokenizer::pre_tokenize", props="C08,C09", spec="pt_split(pt_split($pre_tokenized, re_split(S\"\\\\s+\"), 0), re_split(S\"\\\\p{P}\"), 1)",
   ensures={"C22:keeps": "pt_ok($pre_tokenized, $r)"},
   hints={"return": ['assert(#clo0 =~= re_split(S"\\\\s+")); assert(#clo1 =~= re_split(S"\\\\p{P}"));',
                     ("C22", 'let q = pt_split($0pre_tokenized, #clo0, 0); lemma_re_tiles(S"\\\\s+"); lemma_re_tiles(S"\\\\p{P}"); lemma_split_keeps($0pre_tokenized, #clo0, 0); lemma_split_keeps(q, #clo1, 1); lemma_pt_trans($0pre_tokenized, q, pt_split(q, #clo1, 1));')]})
fn("SplitPreTokenizer::pre_tokenize#lambda0", spec="(if $this.invert { flip(re_split($this.pattern)($input)) } else { re_split($this.pattern)($input) })", props="C08",
   throws="re_bad(u_from8($this.pattern), 0)",
   hints={"decl matches": "@let ms = $matches;"},
   loops=[dict(inv=["$matches.len() == #ms.len()", "forall|j: int| 0 <= j < #ms.len() ==> (#[trigger] $matches[j]) == mt(#ms[j].first.first, #ms[j].first.second, if j < #i { !#ms[j].second } else { #ms[j].second })"])])
fn("SplitPreTokenizer::pre_tokenize", props="C08", spec="pt_split($pre_tokenized, sp_fn($this), $this.behavior)", requires=["$this.behavior == 0 || $this.behavior == 1"],
   ensures={"C22:keeps": "pt_ok($pre_tokenized, $r)", "C27:texts": "$this.behavior == 1 && ready($pre_tokenized) ==> same_text($pre_tokenized, $r) && ready($r)"},
   hints={"entry": [("C22", "lemma_sp_tiles($this); lemma_split_keeps($pre_tokenized, sp_fn($this), $this.behavior);"), ("C27", "lemma_sp_tiles($this); if $this.behavior == 1 && ready($pre_tokenized) { lemma_split_text($pre_tokenized, sp_fn($this)); }")]})
spec(r"""
pub open spec fn sp_fn(t: SplitPreTokenizer) -> spec_fn(Seq<int>) -> Seq<Mt> { |u: Seq<int>| if t.invert { flip(re_split(t.pattern)(u)) } else { re_split(t.pattern)(u) } }
""", only="C08,C22,C27")
spec(r"""
// C08's statement over the contracts: with behaviour Isolated the pieces are consecutive substrings that make up the text
pub open spec fn cat_text(ss: Seq<Split>) -> Seq<int> decreases ss.len() { if ss.len() == 0 { Seq::empty() } else { cat_text(ss.drop_last()) + ss.last().normalized } }
pub proof fn lemma_ok_cut(u: Seq<int>, i: int)
    requires u_ok(u), u_bound(u, i) ensures u_ok(u.take(i)), u_ok(u.skip(i)) decreases u.len()
{
    assert(u.take(u.len() as int) =~= u);
    assert(u.skip(0) =~= u);
    if 0 < i < u.len() {
        let w: int = if u.len() >= 2 && is_lead(u[0]) && is_trail(u[1]) { 2 } else { 1 };
        assert(i >= w);
        let v = u.skip(w);
        assert(v =~= u.subrange(w, u.len() as int));
        if i - w > 0 { assert(v[i - w - 1] == u[i - 1] && v[i - w] == u[i]); }
        lemma_ok_cut(v, i - w);
        assert(u.take(i).subrange(w, i) =~= v.take(i - w));
        assert(u.skip(i) =~= v.skip(i - w));
    } else if i == 0 { assert(u.take(0) =~= Seq::empty()); } else { assert(u.skip(i) =~= Seq::empty()); }
}
pub open spec fn at_bounds(ps: Seq<Mt>, u: Seq<int>) -> bool { forall|i: int| #![trigger ps[i]] 0 <= i < ps.len() ==> u_bound(u, ps[i].first.first) && u_bound(u, ps[i].first.second) }
pub open spec fn chained(ss: Seq<Split>, a: int, b: int) -> bool decreases ss.len() {
    if ss.len() == 0 { a == b } else { chained(ss.drop_last(), a, ss.last().offsets.first) && ss.last().offsets.second == b }
}
pub proof fn lemma_partition(s: Split, u: Seq<int>, ps: Seq<Mt>, b: int)
    requires tiles(ps, 0, b), u_ok(u), at_bounds(ps, u), 0 <= b <= u.len(), u_count32(u.take(b)) <= s.offsets.second - s.offsets.first
    ensures cat_text(sn_k(s, u, ps, true, ps.len() as int)) == u_to8(u.take(b)),
        chained(sn_k(s, u, ps, true, ps.len() as int), s.offsets.first, s.offsets.first + u_count32(u.take(b))),
        sn_k(s, u, ps, true, ps.len() as int).len() == ps.len(),
        ps.len() > 0 ==> ({ let m = ps.last(); let x = sn_k(s, u, ps, true, ps.len() as int).last();
            x.offsets.second - x.offsets.first == u_count32(u.subrange(m.first.first, m.first.second)) && x.normalized == u_to8(u.subrange(m.first.first, m.first.second)) })
    decreases ps.len()
{
    let k = ps.len() as int;
    if k == 0 { axiom_u_empty(); assert(u.take(0) =~= Seq::empty()); }
    else {
        let m = ps.last();
        let q = ps.drop_last();
        let a = m.first.first;
        assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies u_bound(u, q[i].first.first) && u_bound(u, q[i].first.second) by { assert(q[i] == ps[i]); }
        assert(u_bound(u, ps[k - 1].first.first));
        lemma_count_mono(u, a, b);
        lemma_partition(s, u, q, a);
        lemma_sn_prefix(s, u, ps, q, k - 1);
        lemma_ok_cut(u, a);
        lemma_ok_cut(u, b);
        let t = u.subrange(a, b);
        assert(u.take(b) =~= u.take(a) + t);
        axiom_u_cat(u.take(a), t);
        lemma_count_cat(u.take(a), t);
        let r = sn_k(s, u, ps, true, k);
        assert(r =~= sn_k(s, u, q, true, k - 1).push(piece(s, u, m)));
        assert(r.drop_last() =~= sn_k(s, u, q, true, k - 1));
        assert(u_sub(u, a, b - a) =~= t);
        assert(u_sub(u, 0, a) =~= u.take(a));
        assert(u_sub(u, 0, b) =~= u.take(b));
    }
}
pub proof fn lemma_sn_prefix(s: Split, u: Seq<int>, ps: Seq<Mt>, qs: Seq<Mt>, k: int)
    requires 0 <= k <= ps.len(), k <= qs.len(), forall|i: int| 0 <= i < k ==> ps[i] == #[trigger] qs[i]
    ensures sn_k(s, u, ps, true, k) == sn_k(s, u, qs, true, k) decreases k
{ if k > 0 { lemma_sn_prefix(s, u, ps, qs, k - 1); assert(ps[k - 1] == qs[k - 1]); } }
pub proof fn lemma_fm_bounds(ms: Seq<PII2>, u: Seq<int>, k: int)
    requires in_order(ms, u.len() as int), 0 <= k <= ms.len(), forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() ==> u_bound(u, ms[i].first) && u_bound(u, ms[i].second)
    ensures at_bounds(fm_k(ms, k), u), u_bound(u, fm_end(ms, k)) decreases k
{ if k > 0 { lemma_fm_bounds(ms, u, k - 1); assert(u_bound(u, ms[k - 1].first)); } }
// splitting by a regular expression, behaviour Isolated, of one split
pub proof fn lemma_split_partition(s: Split, pat: Seq<int>)
    requires u_ok(u_from8(s.normalized)), u_count32(u_from8(s.normalized)) <= s.offsets.second - s.offsets.first
    ensures cat_text(sn(s, re_split(pat), true)) == u_to8(u_from8(s.normalized)),
        chained(sn(s, re_split(pat), true), s.offsets.first, s.offsets.first + u_count32(u_from8(s.normalized)))
{
    let u = u_from8(s.normalized);
    let ms = re_seq(u_from8(pat), 0, u);
    axiom_re(u_from8(pat), 0, u);
    lemma_fm(ms, u.len() as int);
    assert forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() implies u_bound(u, ms[i].first) && u_bound(u, ms[i].second) by {}
    lemma_fm_bounds(ms, u, ms.len() as int);
    assert(at_bounds(fm(ms, u.len() as int), u));
    assert(u.take(u.len() as int) =~= u);
    lemma_partition(s, u, fm(ms, u.len() as int), u.len() as int);
}
""", only="C08,C09,C06,C27,C22")

spec(r"""
// uses: norm
// one split without tokens over the whole text
pub open spec fn whole(s: NormalizedString) -> PreTokenizedString {
    PreTokenizedString { normalized: s, splits: seq![Split { normalized: w_to8(s.normalized), offsets: Pair { first: 0int, second: s.normalized.len() as int }, tokens: Seq::empty() }] }
}
""", only="C16,C22,C23,C04,C27,C13")
fn("PreTokenizedString::PreTokenizedString", spec="whole($normalized)", props="C16,C23", requires=["scalars($normalized.normalized)"])
# ---- splits that are parts of the text, in order ----
spec(r"""
// uses: norm
pub open spec fn spl_ok(n: Seq<int>, s: Split) -> bool {
    &&& 0 <= s.offsets.first <= s.offsets.second <= n.len()
    &&& s.tokens.len() == 0 ==> s.normalized == w_to8(n.subrange(s.offsets.first, s.offsets.second))
    &&& s.tokens.len() > 0 ==> s.offsets.first < s.offsets.second
}
pub open spec fn rng_at(n: Seq<int>, ss: Seq<Split>, i: int, lo: int, hi: int) -> bool {
    &&& spl_ok(n, ss[i])
    &&& (if i == 0 { lo } else { ss[i - 1].offsets.second }) <= ss[i].offsets.first
    &&& i == ss.len() - 1 ==> ss[i].offsets.second <= hi
}
// the splits are parts of the text between lo and hi, in order
pub open spec fn rng(n: Seq<int>, ss: Seq<Split>, lo: int, hi: int) -> bool { lo <= hi && forall|i: int| 0 <= i < ss.len() ==> #[trigger] rng_at(n, ss, i, lo, hi) }
pub open spec fn part(n: Seq<int>, s: Split) -> Seq<int> { n.subrange(s.offsets.first, s.offsets.second) }
pub open spec fn ready(p: PreTokenizedString) -> bool { good_text(p.normalized) && rng(p.normalized.normalized, p.splits, 0, p.normalized.normalized.len() as int) }
pub proof fn lemma_rng_hi(n: Seq<int>, ss: Seq<Split>, lo: int, hi: int, i: int)
    requires rng(n, ss, lo, hi), 0 <= i < ss.len() ensures ss[i].offsets.second <= hi, lo <= ss[i].offsets.first, spl_ok(n, ss[i]) decreases ss.len() - i
{
    assert(rng_at(n, ss, i, lo, hi));
    if i + 1 < ss.len() { lemma_rng_hi(n, ss, lo, hi, i + 1); assert(rng_at(n, ss, i + 1, lo, hi)); }
    lemma_rng_lo(n, ss, lo, hi, i);
}
pub proof fn lemma_rng_lo(n: Seq<int>, ss: Seq<Split>, lo: int, hi: int, i: int)
    requires rng(n, ss, lo, hi), 0 <= i < ss.len() ensures lo <= ss[i].offsets.first decreases i
{ assert(rng_at(n, ss, i, lo, hi)); if i > 0 { lemma_rng_lo(n, ss, lo, hi, i - 1); assert(rng_at(n, ss, i - 1, lo, hi)); } }
pub proof fn lemma_rng_wide(n: Seq<int>, ss: Seq<Split>, lo: int, hi: int, h: int)
    requires rng(n, ss, lo, hi), hi <= h ensures rng(n, ss, lo, h)
{ assert forall|i: int| 0 <= i < ss.len() implies #[trigger] rng_at(n, ss, i, lo, h) by { assert(rng_at(n, ss, i, lo, hi)); } }
pub proof fn lemma_rng_push(n: Seq<int>, ss: Seq<Split>, lo: int, mid: int, s: Split, hi: int)
    requires rng(n, ss, lo, mid), spl_ok(n, s), mid <= s.offsets.first, s.offsets.second <= hi
    ensures rng(n, ss.push(s), lo, hi)
{
    let r = ss.push(s);
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] rng_at(n, r, i, lo, hi) by {
        if i < ss.len() { assert(rng_at(n, ss, i, lo, mid)); } else if i > 0 { lemma_rng_hi(n, ss, lo, mid, i - 1); }
    }
}
pub proof fn lemma_rng_app(n: Seq<int>, ss: Seq<Split>, lo: int, mid: int, ts: Seq<Split>, hi: int)
    requires rng(n, ss, lo, mid), rng(n, ts, mid, hi) ensures rng(n, ss + ts, lo, hi)
{
    let r = ss + ts;
    lemma_rng_wide(n, ss, lo, mid, hi);
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] rng_at(n, r, i, lo, hi) by {
        if i < ss.len() { assert(rng_at(n, ss, i, lo, hi)); if i > 0 { assert(r[i - 1] == ss[i - 1]); } }
        else { assert(rng_at(n, ts, i - ss.len(), mid, hi)); assert(r[i] == ts[i - ss.len()]); if i > ss.len() { assert(r[i - 1] == ts[i - 1 - ss.len()]); } else if i > 0 { lemma_rng_hi(n, ss, lo, mid, i - 1); } }
    }
}
// a text that agrees up to hi
pub proof fn lemma_rng_text(n: Seq<int>, m: Seq<int>, ss: Seq<Split>, lo: int, hi: int)
    requires rng(n, ss, lo, hi), 0 <= hi <= n.len(), hi <= m.len(), m.take(hi) =~= n.take(hi) ensures rng(m, ss, lo, hi)
{
    assert forall|i: int| 0 <= i < ss.len() implies #[trigger] rng_at(m, ss, i, lo, hi) by {
        assert(rng_at(n, ss, i, lo, hi)); lemma_rng_hi(n, ss, lo, hi, i);
        let a = ss[i].offsets.first; let b = ss[i].offsets.second;
        assert(n.subrange(a, b) =~= n.take(hi).subrange(a, b)); assert(m.subrange(a, b) =~= m.take(hi).subrange(a, b));
    }
}
// ---- cutting splits keeps them so ----
// pieces that make up the text, at character boundaries
pub open spec fn f_at(ps: Seq<Mt>, u: Seq<int>) -> bool { tiles(ps, 0, u.len() as int) && at_bounds(ps, u) }
pub open spec fn f_tiles(f: spec_fn(Seq<int>) -> Seq<Mt>) -> bool { forall|u: Seq<int>| u_ok(u) ==> f_at(#[trigger] f(u), u) }
pub proof fn lemma_piece_ok(n: Seq<int>, s: Split, m: Mt)
    requires scalars(n), spl_ok(n, s), s.tokens.len() == 0,
        ({ let u = u_from8(s.normalized); u_bound(u, m.first.first) && u_bound(u, m.first.second) && m.first.first <= m.first.second })
    ensures ({ let u = u_from8(s.normalized); let x = piece(s, u, m); spl_ok(n, x) && x.tokens.len() == 0
        && x.offsets.first == s.offsets.first + u_count32(u.take(m.first.first)) && x.offsets.second == s.offsets.first + u_count32(u.take(m.first.second)) })
{
    let a = s.offsets.first; let b = s.offsets.second;
    let w = n.subrange(a, b);
    assert forall|i: int| 0 <= i < w.len() implies is_scalar(#[trigger] w[i]) by { assert(is_scalar(n[a + i])); }
    axiom_w_u(w);
    let u = u_from32(w);
    let i = m.first.first; let j = m.first.second;
    lemma_u_cut2(w, i, j);
    let c = u_count32(u.take(i)); let d = u_count32(u.take(j));
    let v = w.subrange(c, d);
    assert forall|k: int| 0 <= k < v.len() implies is_scalar(#[trigger] v[k]) by { assert(is_scalar(w[c + k])); }
    axiom_w_u_to(v);
    assert(u_sub(u, i, j - i) =~= u.subrange(i, j));
    assert(u_sub(u, 0, i) =~= u.take(i)); assert(u_sub(u, 0, j) =~= u.take(j));
    assert(v =~= n.subrange(a + c, a + d));
}
pub proof fn lemma_sn_pref(s: Split, u: Seq<int>, ps: Seq<Mt>, qs: Seq<Mt>, iso: bool, k: int)
    requires 0 <= k <= ps.len(), k <= qs.len(), forall|i: int| 0 <= i < k ==> ps[i] == #[trigger] qs[i]
    ensures sn_k(s, u, ps, iso, k) == sn_k(s, u, qs, iso, k) decreases k
{ if k > 0 { lemma_sn_pref(s, u, ps, qs, iso, k - 1); assert(ps[k - 1] == qs[k - 1]); } }
pub proof fn lemma_sn_ready(n: Seq<int>, s: Split, ps: Seq<Mt>, iso: bool, b: int)
    requires scalars(n), spl_ok(n, s), s.tokens.len() == 0, ({ let u = u_from8(s.normalized); tiles(ps, 0, b) && at_bounds(ps, u) && 0 <= b <= u.len() })
    ensures ({ let u = u_from8(s.normalized); rng(n, sn_k(s, u, ps, iso, ps.len() as int), s.offsets.first, s.offsets.first + u_count32(u.take(b))) })
    decreases ps.len()
{
    let u = u_from8(s.normalized);
    let k = ps.len() as int;
    if k == 0 { assert(u.take(0) =~= Seq::empty()); }
    else {
        let m = ps.last();
        let q = ps.drop_last();
        let a = m.first.first;
        let c0 = s.offsets.first;
        assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies u_bound(u, q[i].first.first) && u_bound(u, q[i].first.second) by { assert(q[i] == ps[i]); }
        assert(u_bound(u, ps[k - 1].first.first) && u_bound(u, ps[k - 1].first.second));
        lemma_sn_ready(n, s, q, iso, a);
        lemma_sn_pref(s, u, ps, q, iso, k - 1);
        lemma_count_mono(u, a, b);
        lemma_piece_ok(n, s, m);
        let p = sn_k(s, u, ps, iso, k - 1);
        lemma_rng_push(n, p, c0, c0 + u_count32(u.take(a)), piece(s, u, m), c0 + u_count32(u.take(b)));
        lemma_rng_wide(n, p, c0, c0 + u_count32(u.take(a)), c0 + u_count32(u.take(b)));
    }
}
pub open spec fn fin(ss: Seq<Split>, k: int) -> int { if k <= 0 { 0 } else { ss[k - 1].offsets.second } }
pub proof fn lemma_sp_ready(n: Seq<int>, ss: Seq<Split>, f: spec_fn(Seq<int>) -> Seq<Mt>, iso: bool, k: int)
    requires scalars(n), rng(n, ss, 0, n.len() as int), f_tiles(f), 0 <= k <= ss.len()
    ensures rng(n, sp_k(ss, f, iso, k), 0, fin(ss, k)) decreases k
{
    if k > 0 {
        lemma_sp_ready(n, ss, f, iso, k - 1);
        let s = ss[k - 1];
        assert(rng_at(n, ss, k - 1, 0, n.len() as int));
        lemma_rng_lo(n, ss, 0, n.len() as int, k - 1);
        let p = sp_k(ss, f, iso, k - 1);
        let a = s.offsets.first; let b = s.offsets.second;
        if s.tokens.len() != 0 { lemma_rng_push(n, p, 0, fin(ss, k - 1), s, b); }
        else {
            let w = n.subrange(a, b);
            assert forall|i: int| 0 <= i < w.len() implies is_scalar(#[trigger] w[i]) by { assert(is_scalar(n[a + i])); }
            axiom_w_u(w);
            lemma_count_from32(w);
            let u = u_from8(s.normalized);
            assert(f_at(f(u), u));
            lemma_sn_ready(n, s, f(u), iso, u.len() as int);
            assert(u.take(u.len() as int) =~= u);
            lemma_rng_wide(n, p, 0, fin(ss, k - 1), a);
            lemma_rng_app(n, p, 0, a, sn(s, f, iso), b);
        }
    }
}
pub proof fn lemma_split_ready(p: PreTokenizedString, f: spec_fn(Seq<int>) -> Seq<Mt>, b: int)
    requires ready(p), f_tiles(f) ensures ready(pt_split(p, f, b))
{
    let n = p.normalized.normalized; let k = p.splits.len() as int;
    lemma_sp_ready(n, p.splits, f, b == 1, k);
    if k > 0 { lemma_rng_hi(n, p.splits, 0, n.len() as int, k - 1); }
    lemma_rng_wide(n, sp_k(p.splits, f, b == 1, k), 0, fin(p.splits, k), n.len() as int);
}
pub proof fn lemma_re_tiles(pat: Seq<int>) ensures f_tiles(re_split(pat))
{
    assert forall|u: Seq<int>| u_ok(u) implies f_at(#[trigger] re_split(pat)(u), u) by {
        let ms = re_seq(u_from8(pat), 0, u);
        axiom_re(u_from8(pat), 0, u);
        lemma_fm(ms, u.len() as int);
        assert forall|i: int| #![trigger ms[i]] 0 <= i < ms.len() implies u_bound(u, ms[i].first) && u_bound(u, ms[i].second) by {}
        lemma_fm_bounds(ms, u, ms.len() as int);
        assert(at_bounds(fm(ms, u.len() as int), u));
    }
}
""", only="C06,C22,C27")
# ---- C22: tokens stay in order, the text stays aligned ----
spec(r"""
// uses: utils
// tokens in order, each with an offset pair that goes forward from 0 on
pub open spec fn toks_in(ts: Seq<Token>) -> bool {
    &&& forall|j: int| 0 <= j < ts.len() ==> 0 <= (#[trigger] ts[j]).offsets.first <= ts[j].offsets.second
    &&& forall|j: int, k: int| #![trigger ts[j], ts[k]] 0 <= j < k < ts.len() ==> off_le(ts[j].offsets, ts[k].offsets)
}
pub open spec fn orderly(ss: Seq<Split>) -> bool { forall|i: int| 0 <= i < ss.len() ==> toks_in((#[trigger] ss[i]).tokens) }
// splits that are parts of the text, in order, with tokens in order
pub open spec fn steady(p: PreTokenizedString) -> bool { ready(p) && orderly(p.splits) }
// g holds of the characters of every split and each of its tokens
pub type Tk = spec_fn(Seq<int>, Token) -> bool;
pub open spec fn sp_says(n: Seq<int>, s: Split, g: Tk) -> bool { forall|j: int| 0 <= j < s.tokens.len() ==> g(part(n, s), #[trigger] s.tokens[j]) }
pub open spec fn ss_say(n: Seq<int>, ss: Seq<Split>, g: Tk) -> bool { forall|i: int| 0 <= i < ss.len() ==> sp_says(n, #[trigger] ss[i], g) }
pub open spec fn toks_say(p: PreTokenizedString, g: Tk) -> bool { ss_say(p.normalized.normalized, p.splits, g) }
pub open spec fn says_on(a: PreTokenizedString, b: PreTokenizedString) -> bool { forall|g: Tk| toks_say(a, g) ==> #[trigger] toks_say(b, g) }
// b has been made from a
pub open spec fn pt_ok(a: PreTokenizedString, b: PreTokenizedString) -> bool { steady(a) ==> steady(b) && keeps_ok(al(a.normalized), al(b.normalized)) && says_on(a, b) }
pub proof fn lemma_sp_says(n: Seq<int>, ss: Seq<Split>, f: spec_fn(Seq<int>) -> Seq<Mt>, iso: bool, k: int, g: Tk)
    requires ss_say(n, ss, g), 0 <= k <= ss.len() ensures ss_say(n, sp_k(ss, f, iso, k), g) decreases k
{
    if k > 0 {
        lemma_sp_says(n, ss, f, iso, k - 1, g);
        let r = sp_k(ss, f, iso, k); let p = sp_k(ss, f, iso, k - 1); let s = ss[k - 1]; let u = u_from8(s.normalized);
        lemma_sn_plain(s, u, f(u), iso, f(u).len() as int);
        assert forall|i: int| 0 <= i < r.len() implies sp_says(n, #[trigger] r[i], g) by {
            if i < p.len() { assert(r[i] == p[i]); } else if s.tokens.len() != 0 { assert(r[i] == s); } else { assert(r[i] == sn(s, f, iso)[i - p.len()]); }
        }
    }
}
pub proof fn lemma_kept_says(n0: Seq<int>, ss0: Seq<Split>, n: Seq<int>, ss: Seq<Split>, g: Tk)
    requires kept(n0, ss0, n, ss, ss0.len() as int), ss.len() == ss0.len(), ss_say(n0, ss0, g) ensures ss_say(n, ss, g)
{ assert forall|i: int| 0 <= i < ss.len() implies sp_says(n, #[trigger] ss[i], g) by { assert(sp_says(n0, ss0[i], g)); } }
pub proof fn lemma_sn_plain(s: Split, u: Seq<int>, ms: Seq<Mt>, iso: bool, k: int)
    ensures forall|i: int| 0 <= i < sn_k(s, u, ms, iso, k).len() ==> (#[trigger] sn_k(s, u, ms, iso, k)[i]).tokens.len() == 0 decreases k
{
    if k > 0 {
        lemma_sn_plain(s, u, ms, iso, k - 1);
        let p = sn_k(s, u, ms, iso, k - 1); let r = sn_k(s, u, ms, iso, k);
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).tokens.len() == 0 by { if i < p.len() { assert(r[i] == p[i]); } }
    }
}
pub proof fn lemma_sp_orderly(ss: Seq<Split>, f: spec_fn(Seq<int>) -> Seq<Mt>, iso: bool, k: int)
    requires orderly(ss), 0 <= k <= ss.len() ensures orderly(sp_k(ss, f, iso, k)) decreases k
{
    if k > 0 {
        lemma_sp_orderly(ss, f, iso, k - 1);
        let r = sp_k(ss, f, iso, k); let p = sp_k(ss, f, iso, k - 1); let s = ss[k - 1]; let u = u_from8(s.normalized);
        lemma_sn_plain(s, u, f(u), iso, f(u).len() as int);
        assert forall|i: int| 0 <= i < r.len() implies toks_in((#[trigger] r[i]).tokens) by {
            if i < p.len() { assert(r[i] == p[i]); } else if s.tokens.len() != 0 { assert(r[i] == s); } else { assert(r[i] == sn(s, f, iso)[i - p.len()]); }
        }
    }
}
pub proof fn lemma_split_keeps(p: PreTokenizedString, f: spec_fn(Seq<int>) -> Seq<Mt>, b: int)
    requires f_tiles(f) ensures pt_ok(p, pt_split(p, f, b))
{ if steady(p) { lemma_split_ready(p, f, b); lemma_sp_orderly(p.splits, f, b == 1, p.splits.len() as int); lemma_keeps_refl(al(p.normalized));
    assert forall|g: Tk| toks_say(p, g) implies #[trigger] toks_say(pt_split(p, f, b), g) by { lemma_sp_says(p.normalized.normalized, p.splits, f, b == 1, p.splits.len() as int, g); } } }
pub proof fn lemma_flip(ms: Seq<Mt>, a: int, b: int) requires tiles(ms, a, b) ensures tiles(flip(ms), a, b) decreases ms.len()
{ if ms.len() > 0 { lemma_flip(ms.drop_last(), a, ms.last().first.first); assert(flip(ms).drop_last() =~= flip(ms.drop_last())); } }
pub proof fn lemma_sp_tiles(t: SplitPreTokenizer) ensures f_tiles(sp_fn(t))
{
    lemma_re_tiles(t.pattern);
    assert forall|u: Seq<int>| u_ok(u) implies f_at(#[trigger] sp_fn(t)(u), u) by {
        let ms = re_split(t.pattern)(u);
        assert(f_at(ms, u));
        if t.invert { lemma_flip(ms, 0, u.len() as int); assert forall|i: int| #![trigger flip(ms)[i]] 0 <= i < flip(ms).len() implies u_bound(u, flip(ms)[i].first.first) && u_bound(u, flip(ms)[i].first.second) by { assert(flip(ms)[i].first == ms[i].first); } }
    }
}
pub proof fn lemma_pt_trans(a: PreTokenizedString, b: PreTokenizedString, c: PreTokenizedString) requires pt_ok(a, b), pt_ok(b, c) ensures pt_ok(a, c)
{ if steady(a) { lemma_keeps_trans(al(a.normalized), al(b.normalized), al(c.normalized)); assert forall|g: Tk| toks_say(a, g) implies #[trigger] toks_say(c, g) by { assert(toks_say(b, g)); } } }
""", only="C22,C27")
spec(r"""
// @virt PreTokenizer::pre_tokenize
// uses: seq
pub open spec fn pt_keeps(x: PreTokenizer) -> bool { forall|p: PreTokenizedString| pt_ok(p, #[trigger] virt_PreTokenizer_pre_tokenize(x, p)) }
pub proof fn lemma_pt_seq(ps: Seq<Option<PreTokenizer>>, x: PreTokenizedString, k: int)
    requires 0 <= k <= ps.len(), forall|i: int| 0 <= i < ps.len() ==> pt_keeps((#[trigger] ps[i])->0) ensures pt_ok(x, pt_seq(ps, x, k)) decreases k
{
    if k <= 0 { lemma_keeps_refl(al(x.normalized)); }
    else { lemma_pt_seq(ps, x, k - 1); assert(pt_keeps(ps[k - 1]->0)); lemma_pt_trans(x, pt_seq(ps, x, k - 1), pt_seq(ps, x, k)); }
}
""", only="C22,C27")
# ---- byte level ----
spec(r"""
// uses: common bytes norm
// @icu u_isUWhiteSpace
pub open spec fn bl_fn(t: ByteLevelPreTokenizer) -> spec_fn(Seq<int>) -> Seq<Mt> { |u: Seq<int>| if t.use_regex { re_split(t.regex)(u) } else { seq![mt(0, u.len() as int, false)] } }
pub open spec fn bl_one(s: Split) -> Split { if s.tokens.len() == 0 { Split { normalized: enc_bytes(s.normalized), ..s } } else { s } }
// p with a space in front of every text that has no tokens and neither is empty nor starts with white space
pub open spec fn one_prefixed(pre: bool, n: Seq<int>, a: Split, b: Split) -> bool {
    b.tokens == a.tokens && b.normalized == (if pre && a.tokens.len() == 0 && a.normalized.len() > 0 && u_isUWhiteSpace(n[a.offsets.first]) == 0 { S" " + a.normalized } else { a.normalized })
}
pub open spec fn prefixed(pre: bool, p: PreTokenizedString, q: PreTokenizedString) -> bool { q.splits.len() == p.splits.len() && forall|i: int| 0 <= i < p.splits.len() ==> one_prefixed(pre, p.normalized.normalized, p.splits[i], #[trigger] q.splits[i]) }
pub open spec fn bl_good(t: ByteLevelPreTokenizer, p: PreTokenizedString, q: PreTokenizedString, r: PreTokenizedString) -> bool {
    prefixed(t.add_prefix_space, p, q) && (!t.add_prefix_space ==> q == p) && bl_texts(pt_split(q, bl_fn(t), 1), r)
}
// the splits of r are those of p, with the characters of their bytes
pub open spec fn bl_texts(p: PreTokenizedString, r: PreTokenizedString) -> bool {
    r.splits.len() == p.splits.len() && forall|j: int| 0 <= j < p.splits.len() ==> (#[trigger] r.splits[j]).normalized == bl_one(p.splits[j]).normalized && r.splits[j].tokens == p.splits[j].tokens
}
""", only="C06,C22,C27")
fn("SplitPreTokenizer::SplitPreTokenizer", props="C08,C25,C27",
   ensures={"*:fields": "$r.pattern == $pattern && $r.invert == $invert && $r.behavior == (if $behavior =~= S\"Isolated\" { 1int } else { 0int })"})
fn("ByteLevelPreTokenizer::ByteLevelPreTokenizer", props="C06,C27",
   ensures={"C06,C25,C27:pattern": r"""$r.regex == S"'s|'t|'re|'ve|'m|'ll|'d| ?\\p{L}+| ?\\p{N}+| ?[^\\s\\p{L}\\p{N}]+|\\s+(?!\\S)|\\s+" """, "*:alphabet": "is_bc($r.BYTES_CHAR)",
            "C06,C25,C27:options": "$r.use_regex == $use_regex && $r.add_prefix_space == $add_prefix_space"})
spec(r"""
// uses: common bytes norm
// tokens and their characters stay
pub open spec fn kept(n0: Seq<int>, ss0: Seq<Split>, n: Seq<int>, ss: Seq<Split>, k: int) -> bool {
    forall|j: int| 0 <= j < k ==> (#[trigger] ss[j]).tokens == ss0[j].tokens && (ss[j].tokens.len() > 0 ==> part(n, ss[j]) == part(n0, ss0[j]))
}
// the first i splits have been rewritten, and with them the text, which has grown by d
pub open spec fn midw(n0: NormalizedString, ss0: Seq<Split>, n: NormalizedString, ss: Seq<Split>, i: int, d: int) -> bool {
    let x = fin(ss0, i);
    &&& good_text(n) && keeps_ok(al(n0), al(n)) && d >= 0
    &&& n.normalized.len() == n0.normalized.len() + d && ss.len() == ss0.len()
    &&& n.normalized.skip(x + d) =~= n0.normalized.skip(x)
    &&& rng(n.normalized, ss.take(i), 0, x + d)
    &&& kept(n0.normalized, ss0, n.normalized, ss, i)
    &&& forall|j: int| i <= j < ss.len() ==> #[trigger] ss[j] == ss0[j]
}
pub proof fn lemma_mid(n0: NormalizedString, ss0: Seq<Split>, n: NormalizedString, ss: Seq<Split>, i: int, d: int, n2: NormalizedString, s2: Split, v: Seq<int>)
    requires midw(n0, ss0, n, ss, i, d), rng(n0.normalized, ss0, 0, n0.normalized.len() as int), 0 <= i < ss0.len(), wf(n2), scalars(v), keeps_ok(al(n), al(n2)),
        ({ let a = ss0[i].offsets.first + d; let b = ss0[i].offsets.second + d;
            &&& n2.normalized =~= n.normalized.take(a) + v + n.normalized.skip(b)
            &&& s2.offsets.first == a && s2.offsets.second == a + v.len() && v.len() >= b - a }),
        s2.tokens == ss0[i].tokens, s2.tokens.len() == 0 ==> s2.normalized == w_to8(v), s2.tokens.len() > 0 ==> v == chars_of(n0, ss0, i)
    ensures midw(n0, ss0, n2, ss.update(i, s2), i + 1, d + v.len() - (ss0[i].offsets.second - ss0[i].offsets.first))
{
    let nn = n0.normalized.len() as int;
    assert(rng_at(n0.normalized, ss0, i, 0, nn));
    lemma_rng_hi(n0.normalized, ss0, 0, nn, i);
    let x = fin(ss0, i);
    if i > 0 { lemma_rng_hi(n0.normalized, ss0, 0, nn, i - 1); }
    let a = ss0[i].offsets.first + d; let b = ss0[i].offsets.second + d;
    let t = n.normalized; let t2 = n2.normalized;
    let l = v.len() as int;
    assert(t.skip(x + d).skip(b - x - d) =~= t.skip(b)); assert(n0.normalized.skip(x).skip(b - d - x) =~= n0.normalized.skip(b - d));
    assert(t2.skip(a + l) =~= t.skip(b));
    assert(t2.take(x + d) =~= t.take(x + d));
    lemma_rng_text(t, t2, ss.take(i), 0, x + d);
    assert(t2.subrange(a, a + l) =~= v);
    lemma_rng_push(t2, ss.take(i), 0, x + d, s2, a + l);
    assert(ss.update(i, s2).take(i + 1) =~= ss.take(i).push(s2));
    assert forall|j: int| 0 <= j < i + 1 implies (#[trigger] ss.update(i, s2)[j]).tokens == ss0[j].tokens && (ss.update(i, s2)[j].tokens.len() > 0 ==> part(t2, ss.update(i, s2)[j]) == part(n0.normalized, ss0[j])) by {
        if j < i {
            let y = ss.take(i)[j];
            assert(ss.update(i, s2)[j] == ss[j] && y == ss[j]);
            lemma_rng_hi(t, ss.take(i), 0, x + d, j);
            assert(part(t2, y) =~= t2.take(x + d).subrange(y.offsets.first, y.offsets.second)); assert(part(t, y) =~= t.take(x + d).subrange(y.offsets.first, y.offsets.second));
        }
    }
    assert forall|j: int| 0 <= j < t2.len() implies is_scalar(#[trigger] t2[j]) by { if j < a { assert(is_scalar(t[j])); } else if j < a + l { assert(is_scalar(v[j - a])); } else { assert(is_scalar(t[j - a - l + b])); } }
}
pub proof fn lemma_mid_start(n0: NormalizedString, ss0: Seq<Split>) requires good_text(n0) ensures midw(n0, ss0, n0, ss0, 0, 0) { assert(ss0.take(0) =~= Seq::empty()); }
pub proof fn lemma_mid_end(n0: NormalizedString, ss0: Seq<Split>, n: NormalizedString, ss: Seq<Split>, d: int)
    requires midw(n0, ss0, n, ss, ss0.len() as int, d), rng(n0.normalized, ss0, 0, n0.normalized.len() as int)
    ensures ready(PreTokenizedString { normalized: n, splits: ss }), keeps_ok(al(n0), al(n)), ss.len() == ss0.len(), good_text(n), kept(n0.normalized, ss0, n.normalized, ss, ss0.len() as int)
{
    let k = ss0.len() as int;
    assert(ss.take(k) =~= ss);
    if k > 0 { lemma_rng_hi(n0.normalized, ss0, 0, n0.normalized.len() as int, k - 1); }
    lemma_rng_wide(n.normalized, ss, 0, fin(ss0, k) + d, n.normalized.len() as int);
}
// the characters of split i, which the text still holds
pub open spec fn chars_of(n0: NormalizedString, ss0: Seq<Split>, i: int) -> Seq<int> { n0.normalized.subrange(ss0[i].offsets.first, ss0[i].offsets.second) }
pub proof fn lemma_mid_at(n0: NormalizedString, ss0: Seq<Split>, n: NormalizedString, ss: Seq<Split>, i: int, d: int)
    requires midw(n0, ss0, n, ss, i, d), rng(n0.normalized, ss0, 0, n0.normalized.len() as int), 0 <= i < ss0.len(), good_text(n0)
    ensures ({ let s = ss0[i]; let w = chars_of(n0, ss0, i);
        &&& ss[i] == s && d >= 0 && 0 <= s.offsets.first <= s.offsets.second && s.offsets.second + d <= n.normalized.len()
        &&& scalars(w) && w == n.normalized.subrange(s.offsets.first + d, s.offsets.second + d) && al(n).len() == n.normalized.len() && n.normalized.len() == n0.normalized.len() + d && good_text(n)
        &&& w.len() > 0 ==> n.normalized[s.offsets.first + d] == n0.normalized[s.offsets.first]
        &&& s.tokens.len() == 0 ==> s.normalized == w_to8(w) && w8_ok(s.normalized) && w_from8(s.normalized) == w && (s.normalized.len() > 0 ==> w.len() > 0) })
{
    let nn = n0.normalized.len() as int;
    assert(rng_at(n0.normalized, ss0, i, 0, nn));
    lemma_rng_hi(n0.normalized, ss0, 0, nn, i);
    let w = chars_of(n0, ss0, i);
    let s = ss0[i];
    let x = fin(ss0, i);
    if i > 0 { lemma_rng_hi(n0.normalized, ss0, 0, nn, i - 1); }
    assert forall|k: int| 0 <= k < w.len() implies is_scalar(#[trigger] w[k]) by { assert(is_scalar(n0.normalized[s.offsets.first + k])); }
    axiom_w_to8(w);
    if w.len() == 0 { lemma_w8_empty(); assert(w =~= Seq::<int>::empty()); }
    assert(w =~= n0.normalized.skip(x).subrange(s.offsets.first - x, s.offsets.second - x));
    assert(n.normalized.subrange(s.offsets.first + d, s.offsets.second + d) =~= n.normalized.skip(x + d).subrange(s.offsets.first - x, s.offsets.second - x));
    assert(al(n).len() == n.offset_ranges.len());
    if w.len() > 0 { let y = n.normalized.subrange(s.offsets.first + d, s.offsets.second + d); assert(y == w); assert(y[0] == n.normalized[s.offsets.first + d]); assert(w[0] == n0.normalized[s.offsets.first]); }
}
// a space in front
pub proof fn lemma_space(w: Seq<int>) requires scalars(w) ensures w_to8(seq![32int] + w) == S" " + w_to8(w), scalars(seq![32int] + w)
{ axiom_ascii(32); assert(scalars(seq![32int])); lemma_w8_cat(seq![32int], w); }
// bytes of the first j characters
pub open spec fn wb(w: Seq<int>, j: int) -> int { slen(w_to8(w.take(j))) }
pub proof fn lemma_wb(w: Seq<int>, j: int)
    requires scalars(w), 0 <= j < w.len()
    ensures wb(w, j + 1) == wb(w, j) + slen(w_to8(seq![w[j]])), slen(w_to8(seq![w[j]])) >= 1, w8_ok(w_to8(seq![w[j]])), wb(w, j) >= j, is_scalar(w[j]), scalars(srep(1, w[j])), srep(1, w[j]) == seq![w[j]]
    decreases j
{
    assert forall|k: int| 0 <= k < w.take(j).len() implies is_scalar(#[trigger] w.take(j)[k]) by { assert(is_scalar(w[k])); }
    let c = seq![w[j]];
    assert(is_scalar(w[j]));
    assert(scalars(c));
    assert(srep(1, w[j]) =~= c);
    assert(w.take(j + 1) =~= w.take(j) + c);
    lemma_w8_cat(w.take(j), c);
    lemma_w8_len(c);
    axiom_w_to8(c);
    if j > 0 { lemma_wb(w, j - 1); } else { lemma_w8_empty(); assert(w.take(0) =~= Seq::<int>::empty()); }
}
pub proof fn lemma_bl_tiles(t: ByteLevelPreTokenizer) ensures f_tiles(bl_fn(t))
{
    lemma_re_tiles(t.regex);
    assert forall|u: Seq<int>| u_ok(u) implies f_at(#[trigger] bl_fn(t)(u), u) by {
        if t.use_regex { assert(bl_fn(t)(u) == re_split(t.regex)(u)); }
        else { let p = bl_fn(t)(u); assert(p =~= seq![mt(0, u.len() as int, false)]); assert(p.drop_last() =~= Seq::empty()); assert(tiles(p.drop_last(), 0, 0)); }
    }
}
""", only="C06,C22,C27")
spec(r"""
// ---- C27: the text that tokens and splits stand for; d: what an id stands for ----
pub type Txt = spec_fn(int) -> Seq<int>;
pub open spec fn tk_text(d: Txt, ts: Seq<Token>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { tk_text(d, ts, k - 1) + d(ts[k - 1].id) } }
pub open spec fn sp_text(d: Txt, s: Split) -> Seq<int> { if s.tokens.len() > 0 { tk_text(d, s.tokens, s.tokens.len() as int) } else { s.normalized } }
pub open spec fn ss_text(d: Txt, ss: Seq<Split>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { ss_text(d, ss, k - 1) + sp_text(d, ss[k - 1]) } }
pub open spec fn txt(d: Txt, p: PreTokenizedString) -> Seq<int> { ss_text(d, p.splits, p.splits.len() as int) }
pub open spec fn same_text(p: PreTokenizedString, q: PreTokenizedString) -> bool { forall|d: Txt| #[trigger] txt(d, q) == txt(d, p) }
pub open spec fn chars_ok(ss: Seq<Split>) -> bool { forall|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]).tokens.len() == 0 ==> is_chars(ss[i].normalized) }
// r holds the text of p in pieces, as the characters of its bytes
pub open spec fn bytes_of(p: PreTokenizedString, r: PreTokenizedString) -> bool { exists|q: PreTokenizedString| #[trigger] bl_texts(q, r) && same_text(p, q) && chars_ok(q.splits) }
pub proof fn lemma_ss_ext(d: Txt, a: Seq<Split>, b: Seq<Split>, k: int)
    requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == #[trigger] b[i] ensures ss_text(d, a, k) == ss_text(d, b, k) decreases k
{ if k > 0 { lemma_ss_ext(d, a, b, k - 1); assert(a[k - 1] == b[k - 1]); } }
pub proof fn lemma_ss_app(d: Txt, a: Seq<Split>, b: Seq<Split>, k: int)
    requires 0 <= k <= b.len() ensures ss_text(d, a + b, a.len() + k) == ss_text(d, a, a.len() as int) + ss_text(d, b, k) decreases k
{
    let r = a + b; let n = a.len() as int;
    if k > 0 {
        lemma_ss_app(d, a, b, k - 1);
        assert(r[n + k - 1] == b[k - 1]);
        assert(ss_text(d, r, n + k) =~= ss_text(d, a, n) + ss_text(d, b, k));
    } else { lemma_ss_ext(d, a, r, n); assert(ss_text(d, a, n) + ss_text(d, b, 0) =~= ss_text(d, a, n)); }
}
pub proof fn lemma_sn_text(d: Txt, s: Split, u: Seq<int>, ps: Seq<Mt>, b: int)
    requires tiles(ps, 0, b), u_ok(u), at_bounds(ps, u), 0 <= b <= u.len()
    ensures ({ let r = sn_k(s, u, ps, true, ps.len() as int); r.len() == ps.len() && ss_text(d, r, r.len() as int) == u_to8(u.take(b)) })
    decreases ps.len()
{
    let k = ps.len() as int;
    if k == 0 { axiom_u_empty(); assert(u.take(0) =~= Seq::empty()); }
    else {
        let m = ps.last(); let q = ps.drop_last(); let a = m.first.first;
        assert forall|i: int| #![trigger q[i]] 0 <= i < q.len() implies u_bound(u, q[i].first.first) && u_bound(u, q[i].first.second) by { assert(q[i] == ps[i]); }
        assert(u_bound(u, ps[k - 1].first.first));
        lemma_sn_text(d, s, u, q, a);
        lemma_sn_prefix(s, u, ps, q, k - 1);
        lemma_ok_cut(u, a);
        let t = u.subrange(a, b);
        assert(u.take(b) =~= u.take(a) + t);
        axiom_u_cat(u.take(a), t);
        let r = sn_k(s, u, ps, true, k); let p = sn_k(s, u, q, true, k - 1);
        assert(r =~= p.push(piece(s, u, m)));
        lemma_ss_ext(d, p, r, k - 1);
        assert(u_sub(u, a, b - a) =~= t);
    }
}
pub open spec fn texts_back(ss: Seq<Split>) -> bool { forall|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]).tokens.len() == 0 ==> u_to8(u_from8(ss[i].normalized)) == ss[i].normalized }
// cutting texts into isolated pieces keeps the whole text
pub proof fn lemma_sp_text(d: Txt, ss: Seq<Split>, f: spec_fn(Seq<int>) -> Seq<Mt>, k: int)
    requires texts_back(ss), f_tiles(f), 0 <= k <= ss.len()
    ensures ({ let r = sp_k(ss, f, true, k); ss_text(d, r, r.len() as int) == ss_text(d, ss, k) }) decreases k
{
    if k > 0 {
        lemma_sp_text(d, ss, f, k - 1);
        let s = ss[k - 1]; let p = sp_k(ss, f, true, k - 1); let r = sp_k(ss, f, true, k);
        if s.tokens.len() != 0 { lemma_ss_ext(d, p, r, p.len() as int); }
        else {
            let u = u_from8(s.normalized);
            axiom_u_wf(s.normalized);
            assert(f_at(f(u), u));
            lemma_sn_text(d, s, u, f(u), u.len() as int);
            assert(u.take(u.len() as int) =~= u);
            lemma_ss_app(d, p, sn(s, f, true), sn(s, f, true).len() as int);
        }
    }
}
pub proof fn lemma_ready_back(p: PreTokenizedString) requires ready(p) ensures texts_back(p.splits)
{
    let n = p.normalized.normalized; let l = n.len() as int;
    assert forall|i: int| 0 <= i < p.splits.len() && (#[trigger] p.splits[i]).tokens.len() == 0 implies u_to8(u_from8(p.splits[i].normalized)) == p.splits[i].normalized by {
        let s = p.splits[i];
        assert(rng_at(n, p.splits, i, 0, l));
        let w = n.subrange(s.offsets.first, s.offsets.second);
        assert forall|k: int| 0 <= k < w.len() implies is_scalar(#[trigger] w[k]) by { assert(is_scalar(n[s.offsets.first + k])); }
        axiom_w_u(w); axiom_w_u_to(w);
    }
}
pub proof fn lemma_split_text(p: PreTokenizedString, f: spec_fn(Seq<int>) -> Seq<Mt>)
    requires ready(p), f_tiles(f) ensures same_text(p, pt_split(p, f, 1)), ready(pt_split(p, f, 1))
{
    lemma_ready_back(p); lemma_split_ready(p, f, 1);
    assert forall|d: Txt| #[trigger] txt(d, pt_split(p, f, 1)) == txt(d, p) by { lemma_sp_text(d, p.splits, f, p.splits.len() as int); }
}
pub proof fn lemma_sn_chars(s: Split, u: Seq<int>, ms: Seq<Mt>, iso: bool, k: int)
    ensures forall|i: int| 0 <= i < sn_k(s, u, ms, iso, k).len() ==> is_chars((#[trigger] sn_k(s, u, ms, iso, k)[i]).normalized) decreases k
{
    if k > 0 {
        lemma_sn_chars(s, u, ms, iso, k - 1);
        let p = sn_k(s, u, ms, iso, k - 1); let r = sn_k(s, u, ms, iso, k); let m = ms[k - 1];
        axiom_u_chars(u_sub(u, m.first.first, m.first.second - m.first.first));
        assert forall|i: int| 0 <= i < r.len() implies is_chars((#[trigger] r[i]).normalized) by { if i < p.len() { assert(r[i] == p[i]); } else { assert(r[i] == piece(s, u, m)); } }
    }
}
pub proof fn lemma_sp_chars(ss: Seq<Split>, f: spec_fn(Seq<int>) -> Seq<Mt>, iso: bool, k: int) requires 0 <= k <= ss.len() ensures chars_ok(sp_k(ss, f, iso, k)) decreases k
{
    if k > 0 {
        lemma_sp_chars(ss, f, iso, k - 1);
        let s = ss[k - 1]; let p = sp_k(ss, f, iso, k - 1); let r = sp_k(ss, f, iso, k); let u = u_from8(s.normalized);
        lemma_sn_chars(s, u, f(u), iso, f(u).len() as int);
        assert forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]).tokens.len() == 0 implies is_chars(r[i].normalized) by { if i < p.len() { assert(r[i] == p[i]); } else if s.tokens.len() != 0 { assert(r[i] == s); } else { assert(r[i] == sn(s, f, iso)[i - p.len()]); } }
    }
}
pub proof fn lemma_bytes_of(p: PreTokenizedString, t: ByteLevelPreTokenizer, r: PreTokenizedString)
    requires ready(p), bl_texts(pt_split(p, bl_fn(t), 1), r) ensures bytes_of(p, r)
{
    let q = pt_split(p, bl_fn(t), 1);
    lemma_bl_tiles(t); lemma_split_text(p, bl_fn(t)); lemma_sp_chars(p.splits, bl_fn(t), true, p.splits.len() as int);
    assert(bl_texts(q, r));
}
""", only="C27")
spec(r"""
// @virt PreTokenizer::pre_tokenize
// uses: seq
// a pre-tokenizer that cuts texts and keeps them; one whose result holds the characters of the bytes
pub open spec fn pt_txt(x: PreTokenizer) -> bool { forall|p: PreTokenizedString| ready(p) ==> ready(#[trigger] virt_PreTokenizer_pre_tokenize(x, p)) && same_text(p, virt_PreTokenizer_pre_tokenize(x, p)) }
pub open spec fn pt_bytes(x: PreTokenizer) -> bool { forall|p: PreTokenizedString| ready(p) ==> bytes_of(p, #[trigger] virt_PreTokenizer_pre_tokenize(x, p)) }
pub open spec fn seq_bytes(ps: Seq<Option<PreTokenizer>>) -> bool { ps.len() > 0 && pt_bytes(ps.last()->0) && forall|i: int| 0 <= i < ps.len() - 1 ==> pt_txt((#[trigger] ps[i])->0) }
pub proof fn lemma_pt_seq_text(ps: Seq<Option<PreTokenizer>>, p: PreTokenizedString, k: int)
    requires seq_bytes(ps), 0 <= k < ps.len(), ready(p) ensures ready(pt_seq(ps, p, k)), same_text(p, pt_seq(ps, p, k)) decreases k
{
    if k > 0 {
        lemma_pt_seq_text(ps, p, k - 1);
        assert(pt_txt(ps[k - 1]->0));
        let q = pt_seq(ps, p, k - 1); let r = pt_seq(ps, p, k);
        assert forall|d: Txt| #[trigger] txt(d, r) == txt(d, p) by { assert(txt(d, r) == txt(d, q)); assert(txt(d, q) == txt(d, p)); }
    }
}
pub proof fn lemma_bytes_trans(p: PreTokenizedString, q: PreTokenizedString, r: PreTokenizedString) requires same_text(p, q), bytes_of(q, r) ensures bytes_of(p, r)
{
    let z = choose|z: PreTokenizedString| #[trigger] bl_texts(z, r) && same_text(q, z) && chars_ok(z.splits);
    assert forall|d: Txt| #[trigger] txt(d, z) == txt(d, p) by { assert(txt(d, z) == txt(d, q)); assert(txt(d, q) == txt(d, p)); }
    assert(bl_texts(z, r));
}
pub proof fn lemma_seq_bytes(ps: Seq<Option<PreTokenizer>>, p: PreTokenizedString)
    requires seq_bytes(ps), ready(p) ensures bytes_of(p, pt_seq(ps, p, ps.len() as int))
{
    let k = ps.len() - 1;
    lemma_pt_seq_text(ps, p, k);
    assert(ps.last() == ps[k]);
    lemma_bytes_trans(p, pt_seq(ps, p, k), pt_seq(ps, p, k + 1));
}
""", only="C27")
spec(r"""
// ---- C22: which characters the bytes belong to ----
// the positions a of the characters w, once for each of their bytes
pub open spec fn xal(w: Seq<int>, a: Seq<PI>, k: int) -> Seq<PI> decreases k { if k <= 0 { Seq::empty() } else { xal(w, a, k - 1) + srep(slen(w_to8(seq![w[k - 1]])), a[k - 1]) } }
// the positions after the texts of the first k splits have become their bytes; tokens keep theirs
pub open spec fn bal1(a: Seq<PI>, n: Seq<int>, s: Split) -> Seq<PI> {
    let x = a.subrange(s.offsets.first, s.offsets.second);
    if s.tokens.len() == 0 { xal(n.subrange(s.offsets.first, s.offsets.second), x, x.len() as int) } else { x }
}
pub open spec fn bal(a: Seq<PI>, n: Seq<int>, ss: Seq<Split>, k: int) -> Seq<PI> decreases k {
    if k <= 0 { Seq::empty() } else { bal(a, n, ss, k - 1) + a.subrange(fin(ss, k - 1), ss[k - 1].offsets.first) + bal1(a, n, ss[k - 1]) }
}
// the positions after a space (aligned with the character behind it) has been put in front of some of the first k splits
pub open spec fn grown(s: Split, q: Split) -> bool { q.normalized.len() > s.normalized.len() }
pub open spec fn pal(a: Seq<PI>, ss: Seq<Split>, qs: Seq<Split>, k: int) -> Seq<PI> decreases k {
    if k <= 0 { Seq::empty() } else { let s = ss[k - 1];
        pal(a, ss, qs, k - 1) + a.subrange(fin(ss, k - 1), s.offsets.first) + (if grown(s, qs[k - 1]) { seq![a[s.offsets.first]] } else { Seq::empty() }) + a.subrange(s.offsets.first, s.offsets.second) }
}
pub open spec fn bl_al(t: ByteLevelPreTokenizer, p: PreTokenizedString, q: PreTokenizedString, r: PreTokenizedString) -> bool {
    let m = p.splits.len() as int; let b = pt_split(q, bl_fn(t), 1).splits; let k = b.len() as int;
    &&& al(q.normalized) == pal(al(p.normalized), p.splits, q.splits, m) + al(p.normalized).skip(fin(p.splits, m))
    &&& al(r.normalized) == bal(al(q.normalized), q.normalized.normalized, b, k) + al(q.normalized).skip(fin(b, k))
}
pub proof fn lemma_al_start(a: Seq<PI>, n: Seq<int>, ss: Seq<Split>, qs: Seq<Split>)
    ensures a == pal(a, ss, qs, 0) + a.skip(fin(ss, 0)), a == bal(a, n, ss, 0) + a.skip(fin(ss, 0))
{ assert(Seq::<PI>::empty() + a.skip(0) =~= a); }
pub proof fn lemma_xal_len(w: Seq<int>, a: Seq<PI>, k: int)
    requires scalars(w), 0 <= k <= w.len(), a.len() == w.len() ensures xal(w, a, k).len() == wb(w, k), k <= wb(w, k) decreases k
{ if k > 0 { lemma_xal_len(w, a, k - 1); lemma_wb(w, k - 1); } else { assert(w.take(0) =~= Seq::<int>::empty()); lemma_w8_empty(); } }
pub proof fn lemma_xal_step(base: Seq<PI>, w: Seq<int>, a: Seq<PI>, rest: Seq<PI>, j: int, cur: Seq<PI>)
    requires scalars(w), 0 <= j < w.len(), a.len() == w.len(), cur == base + xal(w, a, j) + a.skip(j) + rest
    ensures ({ let i = base.len() + wb(w, j); let n = slen(w_to8(seq![w[j]])); spl_al(cur, i, 1, rr_mid(cur, i, 1, n)) == base + xal(w, a, j + 1) + a.skip(j + 1) + rest })
{
    let i = base.len() + wb(w, j); let n = slen(w_to8(seq![w[j]]));
    lemma_xal_len(w, a, j);
    let x = base + xal(w, a, j);
    assert(x.len() == i);
    assert(cur[i] == a[j]) by { assert(a.skip(j)[0] == a[j]); }
    assert(a[j] == (Pair { first: a[j].first, second: a[j].second }));
    assert(cur.take(i) =~= x);
    assert(cur.skip(i + 1) =~= a.skip(j + 1) + rest);
    assert(xal(w, a, j + 1) == xal(w, a, j) + srep(n, a[j]));
    assert(spl_al(cur, i, 1, rr_mid(cur, i, 1, n)) =~= base + xal(w, a, j + 1) + a.skip(j + 1) + rest);
}
// at split k: what stands before its characters
pub open spec fn bal_base(a: Seq<PI>, n: Seq<int>, ss: Seq<Split>, k: int) -> Seq<PI> { bal(a, n, ss, k) + a.subrange(fin(ss, k), ss[k].offsets.first) }
pub proof fn lemma_bal_head(a: Seq<PI>, n: Seq<int>, ss: Seq<Split>, k: int, cur: Seq<PI>, e: int)
    requires rng(n, ss, 0, n.len() as int), 0 <= k < ss.len(), a.len() == n.len(), cur == bal(a, n, ss, k) + a.skip(fin(ss, k)), cur.len() == n.len() + e
    ensures ({ let s = ss[k]; let x = a.subrange(s.offsets.first, s.offsets.second); let w = n.subrange(s.offsets.first, s.offsets.second);
        cur == bal_base(a, n, ss, k) + xal(w, x, 0) + x.skip(0) + a.skip(s.offsets.second) && bal_base(a, n, ss, k).len() == s.offsets.first + e && x.len() == w.len()
        && (s.tokens.len() > 0 ==> cur == bal(a, n, ss, k + 1) + a.skip(fin(ss, k + 1))) })
{
    let s = ss[k]; lemma_rng_hi(n, ss, 0, n.len() as int, k); assert(rng_at(n, ss, k, 0, n.len() as int));
    if k > 0 { lemma_rng_hi(n, ss, 0, n.len() as int, k - 1); }
    let x = a.subrange(s.offsets.first, s.offsets.second);
    assert(x.skip(0) =~= x);
    assert(a.skip(fin(ss, k)) =~= a.subrange(fin(ss, k), s.offsets.first) + x + a.skip(s.offsets.second));
    assert(cur =~= bal_base(a, n, ss, k) + xal(n.subrange(s.offsets.first, s.offsets.second), x, 0) + x.skip(0) + a.skip(s.offsets.second));
    if s.tokens.len() > 0 { assert(bal(a, n, ss, k + 1) =~= bal_base(a, n, ss, k) + x); assert(cur =~= bal(a, n, ss, k + 1) + a.skip(fin(ss, k + 1))); }
}
pub proof fn lemma_bal_end(a: Seq<PI>, n: Seq<int>, ss: Seq<Split>, k: int, cur: Seq<PI>)
    requires rng(n, ss, 0, n.len() as int), 0 <= k < ss.len(), a.len() == n.len(), ss[k].tokens.len() == 0,
        ({ let s = ss[k]; let x = a.subrange(s.offsets.first, s.offsets.second); let w = n.subrange(s.offsets.first, s.offsets.second);
           cur == bal_base(a, n, ss, k) + xal(w, x, w.len() as int) + x.skip(w.len() as int) + a.skip(s.offsets.second) })
    ensures cur == bal(a, n, ss, k + 1) + a.skip(fin(ss, k + 1))
{
    let s = ss[k]; lemma_rng_hi(n, ss, 0, n.len() as int, k); assert(rng_at(n, ss, k, 0, n.len() as int));
    let x = a.subrange(s.offsets.first, s.offsets.second); let w = n.subrange(s.offsets.first, s.offsets.second);
    assert(x.skip(w.len() as int) =~= Seq::<PI>::empty());
    assert(cur =~= bal(a, n, ss, k + 1) + a.skip(fin(ss, k + 1)));
}
pub proof fn lemma_pal_ext(a: Seq<PI>, ss: Seq<Split>, qs: Seq<Split>, rs: Seq<Split>, k: int)
    requires k <= qs.len(), k <= rs.len(), forall|j: int| 0 <= j < k ==> qs[j].normalized == (#[trigger] rs[j]).normalized ensures pal(a, ss, qs, k) == pal(a, ss, rs, k) decreases k
{ if k > 0 { lemma_pal_ext(a, ss, qs, rs, k - 1); assert(qs[k - 1].normalized == rs[k - 1].normalized); } }
pub proof fn lemma_pal_step(a: Seq<PI>, n: Seq<int>, ss: Seq<Split>, qs: Seq<Split>, rs: Seq<Split>, k: int, cur: Seq<PI>, d: int, r: Seq<PI>)
    requires rng(n, ss, 0, n.len() as int), 0 <= k < ss.len(), a.len() == n.len(), cur == pal(a, ss, qs, k) + a.skip(fin(ss, k)), cur.len() == n.len() + d, k < qs.len() == rs.len(), rs == qs.update(k, rs[k]),
        ({ let i = ss[k].offsets.first; if grown(ss[k], rs[k]) { i < ss[k].offsets.second && r == spl_al(cur, i + d, 1, srep(2, cur[i + d])) } else { r == cur } })
    ensures r == pal(a, ss, rs, k + 1) + a.skip(fin(ss, k + 1))
{
    let s = ss[k]; lemma_rng_hi(n, ss, 0, n.len() as int, k); assert(rng_at(n, ss, k, 0, n.len() as int));
    if k > 0 { lemma_rng_hi(n, ss, 0, n.len() as int, k - 1); }
    lemma_pal_ext(a, ss, qs, rs, k);
    let f = fin(ss, k); let x = a.subrange(s.offsets.first, s.offsets.second); let b = pal(a, ss, qs, k) + a.subrange(f, s.offsets.first);
    assert(b.len() == s.offsets.first + d);
    assert(a.skip(f) =~= a.subrange(f, s.offsets.first) + x + a.skip(s.offsets.second));
    assert(cur =~= b + x + a.skip(s.offsets.second));
    if grown(s, rs[k]) {
        let i = s.offsets.first + d;
        assert(cur[i] == x[0]); assert(cur.take(i) =~= b); assert(cur.skip(i + 1) =~= x.skip(1) + a.skip(s.offsets.second));
        assert(srep(2, cur[i]) =~= seq![x[0]] + seq![x[0]]); assert(seq![x[0]] + x.skip(1) =~= x);
        assert(r =~= b + seq![x[0]] + x + a.skip(s.offsets.second));
    }
    assert(pal(a, ss, rs, k + 1) =~= b + (if grown(s, rs[k]) { seq![x[0]] } else { Seq::empty() }) + x);
    assert(r =~= pal(a, ss, rs, k + 1) + a.skip(fin(ss, k + 1)));
}
""", only="C22")
fn("ByteLevelPreTokenizer::pre_tokenize", requires=["is_bc($this.BYTES_CHAR)", "ready($pre_tokenized)"],
   ensures={"C06:text": "exists|q: PreTokenizedString| bl_good($this, $pre_tokenized, q, $r)", "*:ready": "ready($r)", "C06,C22:positions": "keeps_ok(al($pre_tokenized.normalized), al($r.normalized))", "C22:keeps": "pt_ok($pre_tokenized, $r)", "C22:bytes": "exists|q: PreTokenizedString| #[trigger] bl_good($this, $pre_tokenized, q, $r) && bl_al($this, $pre_tokenized, q, $r)", "C27:texts": "!$this.add_prefix_space ==> bytes_of($pre_tokenized, $r)"},
   loops=[dict(inv=["midw(#n0, #s0, $pre_tokenized.normalized, $pre_tokenized.splits, #i, $shift)",
                    "!$this.add_prefix_space ==> $pre_tokenized =~~= $0pre_tokenized && $shift == 0",
                    "forall|j: int| 0 <= j < #i ==> one_prefixed($this.add_prefix_space, $0pre_tokenized.normalized.normalized, $0pre_tokenized.splits[j], #[trigger] $pre_tokenized.splits[j])",
                    ("C22", "al($pre_tokenized.normalized) == pal(al(#n0), #s0, $pre_tokenized.splits, #i) + al(#n0).skip(fin(#s0, #i))")],
               before=["@let n0 = $pre_tokenized.normalized; @let s0 = $pre_tokenized.splits; lemma_mid_start(#n0, #s0);", ("C22", "lemma_al_start(al(#n0), #n0.normalized, #s0, $pre_tokenized.splits);")],
               head="@let nn = $pre_tokenized.normalized; @let sp = $pre_tokenized.splits; @let d = $shift; @let k = #i; @let w = chars_of(#n0, #s0, #i); lemma_mid_at(#n0, #s0, #nn, #sp, #i, #d); lemma_space(#w); lemma_keeps_refl(al(#nn));",
               end=["let n2 = $pre_tokenized.normalized; let v = if $shift == #d { #w } else { seq![32int] + #w }; assert(n2.normalized =~= #nn.normalized.take(#s0[#k].offsets.first + #d) + v + #nn.normalized.skip(#s0[#k].offsets.second + #d)); assert(al(n2).len() == n2.offset_ranges.len()); lemma_mid(#n0, #s0, #nn, #sp, #k, #d, n2, $pre_tokenized.splits[#k], v); assert($pre_tokenized.splits =~= #sp.update(#k, $pre_tokenized.splits[#k]));",
                    ("C22", "lemma_pal_step(al(#n0), #n0.normalized, #s0, #sp, $pre_tokenized.splits, #k, al(#nn), #d, al(n2));")],
               after="@let q = $pre_tokenized; lemma_mid_end(#n0, #s0, #q.normalized, #q.splits, $shift);"),
          dict(inv=["midw(#n1, #s1, $pre_tokenized.normalized, $pre_tokenized.splits, #i, $shift)",
                    "forall|j: int| 0 <= j < #i ==> (#[trigger] $pre_tokenized.splits[j]).normalized == bl_one(#s1[j]).normalized && $pre_tokenized.splits[j].tokens == #s1[j].tokens", "#p == pt_split(#q, bl_fn($this), 1)",
                    ("C22", "al($pre_tokenized.normalized) == bal(al(#n1), #n1.normalized, #s1, #i) + al(#n1).skip(fin(#s1, #i))")],
               before=["@let p = $pre_tokenized; @let n1 = #p.normalized; @let s1 = #p.splits; assert(#clo0 =~= bl_fn($this)); lemma_bl_tiles($this); lemma_split_ready(#q, bl_fn($this), 1); lemma_mid_start(#n1, #s1);",
                       ("C22", "lemma_al_start(al(#n1), #n1.normalized, #s1, #s1);")],
               head=["@let mn = $pre_tokenized.normalized; @let ms = $pre_tokenized.splits; @let e = $shift; @let k = #i; @let w = chars_of(#n1, #s1, #i); @let aw = al(#n1).subrange(#s1[#k].offsets.first, #s1[#k].offsets.second); lemma_keeps_refl(al(#mn)); lemma_mid_at(#n1, #s1, #mn, #ms, #i, #e); assert(#w.take(0) =~= Seq::<int>::empty()); lemma_w8_empty(); assert(#w.take(#w.len() as int) =~= #w);",
                     ("C22", "reveal(chars_of); lemma_bal_head(al(#n1), #n1.normalized, #s1, #k, al(#mn), #e); assert(#w == #n1.normalized.subrange(#s1[#k].offsets.first, #s1[#k].offsets.second));")],
               end=["let n2 = $pre_tokenized.normalized; let t = #s1[#k].normalized; let v = if #s1[#k].tokens.len() > 0 { #w } else { enc_units(t) }; lemma_enc_w8(t); assert(n2.normalized =~= #mn.normalized.take(#s1[#k].offsets.first + #e) + v + #mn.normalized.skip(#s1[#k].offsets.second + #e)); assert(al(n2).len() == n2.offset_ranges.len()); lemma_mid(#n1, #s1, #mn, #ms, #k, #e, n2, $pre_tokenized.splits[#k], v); assert($pre_tokenized.splits =~= #ms.update(#k, $pre_tokenized.splits[#k]));",
                    ("C22", "if #s1[#k].tokens.len() == 0 { lemma_bal_end(al(#n1), #n1.normalized, #s1, #k, al(n2)); }")],
               after="lemma_mid_end(#n1, #s1, $pre_tokenized.normalized, $pre_tokenized.splits, $shift);"),
          dict(inv=["$pre_tokenized.normalized.normalized == #mn.normalized", "tab($pre_tokenized.normalized)", "keeps_ok(al(#mn), al($pre_tokenized.normalized))",
                    "$pre_tokenized.splits =~= #ms.update(#k, Split { offsets: Pair { first: #ms[#k].offsets.first + #e, second: #ms[#k].offsets.second }, ..#ms[#k] })",
                    "$characters == #w", "$position == #s1[#k].offsets.first + #e + wb(#w, #i)", "$shift == #e + wb(#w, #i) - #i", "$pre_tokenized.normalized.offset_ranges.len() == #mn.normalized.len() + wb(#w, #i) - #i", "wb(#w, #i) >= #i",
                    ("C22", "al($pre_tokenized.normalized) == bal_base(al(#n1), #n1.normalized, #s1, #k) + xal(#w, #aw, #i) + #aw.skip(#i) + al(#n1).skip(#s1[#k].offsets.second)")],
               head=["@let j = #i; @let aa = al($pre_tokenized.normalized); lemma_wb(#w, #i); assert(#aa.len() == $pre_tokenized.normalized.offset_ranges.len());",
                     ("C22", "lemma_xal_step(bal_base(al(#n1), #n1.normalized, #s1, #k), #w, #aw, al(#n1).skip(#s1[#k].offsets.second), #i, #aa);")], end="assert(al($pre_tokenized.normalized).len() == $pre_tokenized.normalized.offset_ranges.len()); assert(#aa.len() == #mn.normalized.len() + wb(#w, #j) - #j); lemma_keeps_trans(al(#mn), #aa, al($pre_tokenized.normalized));"),
          dict(inv=["$new_split_normalized == enc_upto(#s1[#k].normalized, #i)"], before="lemma_enc_w8(#s1[#k].normalized);")],
   hints={"return": ["lemma_keeps_trans(al($0pre_tokenized.normalized), al(#n1), al($r.normalized)); assert(bl_good($this, $0pre_tokenized, #q, $r));",
                     ("C27", "if !$this.add_prefix_space { assert(#q == $0pre_tokenized); lemma_bytes_of($0pre_tokenized, $this, $r); }"),
                     ("C22", "assert(bl_al($this, $0pre_tokenized, #q, $r)); assert forall|g: Tk| toks_say($0pre_tokenized, g) implies #[trigger] toks_say($r, g) by { lemma_kept_says($0pre_tokenized.normalized.normalized, $0pre_tokenized.splits, #q.normalized.normalized, #q.splits, g); lemma_sp_says(#q.normalized.normalized, #q.splits, bl_fn($this), true, #q.splits.len() as int, g); lemma_kept_says(#n1.normalized, #s1, $r.normalized.normalized, $r.splits, g); }; if orderly($0pre_tokenized.splits) { assert(orderly(#q.splits)) by { assert forall|i: int| 0 <= i < #q.splits.len() implies toks_in((#[trigger] #q.splits[i]).tokens) by { assert(toks_in($0pre_tokenized.splits[i].tokens)); } }; lemma_sp_orderly(#q.splits, bl_fn($this), true, #q.splits.len() as int); assert forall|i: int| 0 <= i < $r.splits.len() implies toks_in((#[trigger] $r.splits[i]).tokens) by { assert($r.splits[i].tokens == #p.splits[i].tokens); } }")]}, hide=["midw kept rng keeps_ok chars_of enc_units", ("C22", "bal pal xal bal_base")], rlimit=80)
