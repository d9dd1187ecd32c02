spec(r"""
// uses: utils
// ---- template ----
pub open spec fn st_idx(sts: Seq<SpecialToken>, id: Seq<int>, k: int) -> int decreases sts.len() - k {
    if k >= sts.len() { sts.len() as int } else if sts[k].id =~= id { k } else { st_idx(sts, id, k + 1) }
}
pub proof fn lemma_st_idx(sts: Seq<SpecialToken>, id: Seq<int>, k: int, n: int)
    requires 0 <= k <= n <= sts.len(), forall|j: int| k <= j < n ==> !((#[trigger] sts[j]).id =~= id), n < sts.len() ==> sts[n].id =~= id
    ensures st_idx(sts, id, k) == n
    decreases n - k
{ if k < n { lemma_st_idx(sts, id, k + 1, n); } }
pub open spec fn st_of(sts: Seq<SpecialToken>, id: Seq<int>) -> SpecialToken {
    if st_idx(sts, id, 0) < sts.len() { sts[st_idx(sts, id, 0)] } else { SpecialToken { id: Seq::empty(), ids: Seq::empty(), tokens: Seq::empty() } }
}
pub open spec fn st_enc(t: SpecialToken, type_id: int) -> Encoding {
    let n = t.ids.len() as int;
    Encoding { ids: t.ids, type_ids: srep(n, type_id), tokens: t.tokens, words: srep(n, None), offsets: srep(n, Pair { first: 0int, second: 0int }),
        special_tokens_mask: srep(n, 1int), attention_mask: srep(n, 1int), overflowing: Seq::empty() }
}
pub open spec fn enc_cat(a: Encoding, b: Encoding) -> Encoding {
    Encoding { ids: a.ids + b.ids, type_ids: a.type_ids + b.type_ids, tokens: a.tokens + b.tokens, words: a.words + b.words,
        offsets: a.offsets + b.offsets, special_tokens_mask: a.special_tokens_mask + b.special_tokens_mask,
        attention_mask: a.attention_mask + b.attention_mask, overflowing: a.overflowing }
}
pub open spec fn is_seq_piece(p: Pair<Seq<int>, Piece>) -> bool { p.first =~= S"Sequence" }
pub open spec fn is_special_piece(p: Pair<Seq<int>, Piece>) -> bool { p.first =~= S"SpecialToken" }
// the sequence after its first k pieces: a sequence A piece sets the type ids
pub open spec fn tp_cur(e: Encoding, ps: Seq<Pair<Seq<int>, Piece>>, k: int) -> Encoding decreases k {
    if k <= 0 { e } else {
        let p = ps[k - 1];
        let c = tp_cur(e, ps, k - 1);
        if is_seq_piece(p) && p.second.id =~= S"A" { Encoding { type_ids: srep(c.type_ids.len() as int, p.second.type_id), ..c } } else { c }
    }
}
pub open spec fn tp_piece(e: Encoding, ps: Seq<Pair<Seq<int>, Piece>>, sts: Seq<SpecialToken>, add: bool, k: int) -> Encoding {
    if is_seq_piece(ps[k]) { no_over(tp_cur(e, ps, k + 1)) }
    else if is_special_piece(ps[k]) && add { st_enc(st_of(sts, ps[k].second.id), ps[k].second.type_id) }
    else { empty_enc() }
}
pub open spec fn tp_out(e: Encoding, ps: Seq<Pair<Seq<int>, Piece>>, sts: Seq<SpecialToken>, add: bool, k: int) -> Encoding decreases k {
    if k <= 0 { empty_enc() } else { enc_cat(tp_out(e, ps, sts, add, k - 1), tp_piece(e, ps, sts, add, k - 1)) }
}
pub open spec fn tp_spec(t: TemplateProcessing, e: Encoding, add: bool) -> Encoding decreases e {
    Encoding { overflowing: Seq::new(e.overflowing.len(), |i: int| if 0 <= i < e.overflowing.len() { tp_spec(t, e.overflowing[i], add) } else { arbitrary() }),
        ..tp_out(e, t.single, t.special_tokens, add, t.single.len() as int) }
}
pub open spec fn cat_all(s: Seq<Encoding>) -> Encoding decreases s.len() {
    if s.len() == 0 { empty_enc() } else { enc_cat(cat_all(s.drop_last()), s.last()) }
}
pub proof fn lemma_cat_push(s: Seq<Encoding>, x: Encoding)
    ensures cat_all(s.push(x)) == enc_cat(cat_all(s), x)
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lemma_cat_empty(a: Encoding) ensures enc_cat(a, empty_enc()) == a
{
    let b = enc_cat(a, empty_enc());
    assert(b.ids =~= a.ids && b.type_ids =~= a.type_ids && b.tokens =~= a.tokens && b.words =~= a.words && b.offsets =~= a.offsets
        && b.special_tokens_mask =~= a.special_tokens_mask && b.attention_mask =~= a.attention_mask);
}
// what the template announces
pub open spec fn tp_added(ps: Seq<Pair<Seq<int>, Piece>>, sts: Seq<SpecialToken>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { tp_added(ps, sts, k - 1) + (if is_special_piece(ps[k - 1]) { st_of(sts, ps[k - 1].second.id).ids.len() as int } else { 0 }) }
}
pub proof fn lemma_tp_added(e: Encoding, ps: Seq<Pair<Seq<int>, Piece>>, sts: Seq<SpecialToken>, k: int)
    requires 0 <= k <= ps.len()
    ensures tp_out(e, ps, sts, true, k).ids.len() == tp_out(e, ps, sts, false, k).ids.len() + tp_added(ps, sts, k), tp_added(ps, sts, k) >= 0
    decreases k
{ if k > 0 { lemma_tp_added(e, ps, sts, k - 1); } }
pub open spec fn sts_ok(sts: Seq<SpecialToken>) -> bool { forall|i: int| 0 <= i < sts.len() ==> (#[trigger] sts[i]).ids.len() == sts[i].tokens.len() }
pub proof fn lemma_st_range(sts: Seq<SpecialToken>, id: Seq<int>, k: int)
    requires 0 <= k <= sts.len() ensures 0 <= st_idx(sts, id, k) <= sts.len() decreases sts.len() - k
{ if k < sts.len() { lemma_st_range(sts, id, k + 1); } }
pub proof fn lemma_tp_ok(e: Encoding, ps: Seq<Pair<Seq<int>, Piece>>, sts: Seq<SpecialToken>, add: bool, k: int)
    requires enc_ok(e), sts_ok(sts), 0 <= k <= ps.len()
    ensures enc_ok(tp_out(e, ps, sts, add, k)), enc_ok(tp_cur(e, ps, k))
    decreases k
{
    if k > 0 {
        lemma_tp_ok(e, ps, sts, add, k - 1);
        lemma_st_range(sts, ps[k - 1].second.id, 0);
    }
}
pub proof fn lemma_tp_deep(t: TemplateProcessing, e: Encoding, add: bool)
    requires deep_ok(e), sts_ok(t.special_tokens)
    ensures deep_ok(tp_spec(t, e, add))
    decreases e
{
    lemma_tp_ok(e, t.single, t.special_tokens, add, t.single.len() as int);
    let r = tp_spec(t, e, add);
    assert forall|i: int| 0 <= i < r.overflowing.len() implies deep_ok(#[trigger] r.overflowing[i]) by {
        lemma_tp_deep(t, e.overflowing[i], add);
    }
}
""")
# ---- C22: the offsets stay where they are ----
spec(r"""
// uses: utils
pub open spec fn any_says() -> Says { |t: Seq<int>, o: PII| true }
pub open spec fn all_special(e: Encoding) -> bool { forall|i: int| 0 <= i < e.special_tokens_mask.len() ==> #[trigger] e.special_tokens_mask[i] != 0 }
pub proof fn lemma_cat_placed(a: Encoding, b: Encoding, n: int, ord: bool, f: Says)
    requires placed1(a, n, ord, f), placed1(b, n, ord, f), ord ==> all_special(a) || all_special(b)
    ensures placed1(enc_cat(a, b), n, ord, f), all_special(a) && all_special(b) ==> all_special(enc_cat(a, b))
{
    let r = enc_cat(a, b);
    let k = a.ids.len() as int;
    assert forall|i: int| 0 <= i < r.offsets.len() implies (if i < k { (#[trigger] r.offsets[i]) == a.offsets[i] && r.special_tokens_mask[i] == a.special_tokens_mask[i] && r.tokens[i] == a.tokens[i] } else { r.offsets[i] == b.offsets[i - k] && r.special_tokens_mask[i] == b.special_tokens_mask[i - k] && r.tokens[i] == b.tokens[i - k] }) by {}
    assert(inside(r, n)); assert(says(r, f));
    if ord { assert(sorted(r)); }
    if all_special(a) && all_special(b) { assert forall|i: int| 0 <= i < r.special_tokens_mask.len() implies #[trigger] r.special_tokens_mask[i] != 0 by { assert(r.special_tokens_mask[i] == (if i < k { a.special_tokens_mask[i] } else { b.special_tokens_mask[i - k] })); } }
}
// how often the template gives the text
pub open spec fn tp_texts(ps: Seq<Pair<Seq<int>, Piece>>, k: int) -> int decreases k { if k <= 0 { 0 } else { tp_texts(ps, k - 1) + (if is_seq_piece(ps[k - 1]) { 1int } else { 0 }) } }
pub proof fn lemma_tp_texts(ps: Seq<Pair<Seq<int>, Piece>>, j: int, k: int) requires 0 <= j <= k ensures 0 <= tp_texts(ps, j) <= tp_texts(ps, k) decreases k { if j < k { lemma_tp_texts(ps, j, k - 1); } else if k > 0 { lemma_tp_texts(ps, k - 1, k - 1); } }
pub proof fn lemma_tp_same(e: Encoding, ps: Seq<Pair<Seq<int>, Piece>>, k: int)
    requires enc_ok(e), 0 <= k <= ps.len()
    ensures ({ let c = tp_cur(e, ps, k); enc_ok(c) && c.offsets == e.offsets && c.special_tokens_mask == e.special_tokens_mask && c.tokens == e.tokens }) decreases k
{ if k > 0 { lemma_tp_same(e, ps, k - 1); } }
pub proof fn lemma_tp_placed1(e: Encoding, ps: Seq<Pair<Seq<int>, Piece>>, sts: Seq<SpecialToken>, add: bool, k: int, n: int, ord: bool, f: Says)
    requires placed1(e, n, ord, f), sts_ok(sts), 0 <= k <= ps.len(), n >= 0, ord ==> tp_texts(ps, ps.len() as int) <= 1
    ensures placed1(tp_out(e, ps, sts, add, k), n, ord, f), tp_texts(ps, k) == 0 ==> all_special(tp_out(e, ps, sts, add, k))
    decreases k
{
    if k > 0 {
        lemma_tp_placed1(e, ps, sts, add, k - 1, n, ord, f);
        lemma_tp_texts(ps, k, ps.len() as int); lemma_tp_texts(ps, k - 1, k);
        lemma_tp_same(e, ps, k);
        let x = tp_piece(e, ps, sts, add, k - 1);
        let a = tp_out(e, ps, sts, add, k - 1);
        lemma_st_range(sts, ps[k - 1].second.id, 0);
        if is_seq_piece(ps[k - 1]) {
            assert forall|i: int| 0 <= i < x.offsets.len() implies off_in(#[trigger] x.offsets[i], n) by { assert(x.offsets[i] == e.offsets[i]); }
            assert forall|i: int| #![trigger x.offsets[i]] 0 <= i < x.offsets.len() && x.special_tokens_mask[i] == 0 implies f(x.tokens[i], x.offsets[i]) by { assert(x.offsets[i] == e.offsets[i]); }
            if ord { assert forall|i: int, j: int| #![trigger x.offsets[i], x.offsets[j]] 0 <= i < j < x.offsets.len() && x.special_tokens_mask[i] == 0 && x.special_tokens_mask[j] == 0 implies off_le(x.offsets[i], x.offsets[j]) by { assert(x.offsets[i] == e.offsets[i] && x.offsets[j] == e.offsets[j]); } }
            assert(placed1(x, n, ord, f));
        } else {
            assert forall|i: int| 0 <= i < x.ids.len() implies (#[trigger] x.offsets[i]) == (Pair { first: 0int, second: 0int }) && x.special_tokens_mask[i] == 1 by {}
            assert(all_special(x)); assert(enc_ok(x)); assert(placed1(x, n, ord, f));
        }
        lemma_cat_placed(a, x, n, ord, f);
    }
}
pub proof fn lemma_tp_placed(t: TemplateProcessing, e: Encoding, add: bool, n: int, ord: bool, f: Says)
    requires placed(e, n, ord, f), sts_ok(t.special_tokens), n >= 0, ord ==> tp_texts(t.single, t.single.len() as int) <= 1
    ensures placed(tp_spec(t, e, add), n, ord, f) decreases e
{
    let r = tp_spec(t, e, add);
    lemma_tp_placed1(e, t.single, t.special_tokens, add, t.single.len() as int, n, ord, f);
    let o = tp_out(e, t.single, t.special_tokens, add, t.single.len() as int);
    assert(r.offsets == o.offsets && r.special_tokens_mask == o.special_tokens_mask && r.tokens == o.tokens);
    assert(placed1(r, n, ord, f));
    assert forall|i: int| 0 <= i < r.overflowing.len() implies placed(#[trigger] r.overflowing[i], n, ord, f) by { lemma_tp_placed(t, e.overflowing[i], add, n, ord, f); }
}
pub open spec fn tp_keeps(t: TemplateProcessing, e: Encoding, r: Encoding) -> bool {
    forall|n: int, ord: bool, f: Says| #[trigger] placed(e, n, ord, f) && sts_ok(t.special_tokens) && n >= 0 && (ord ==> tp_texts(t.single, t.single.len() as int) <= 1) ==> placed(r, n, ord, f)
}
pub proof fn lemma_tp_keeps(t: TemplateProcessing, e: Encoding, add: bool) ensures tp_keeps(t, e, tp_spec(t, e, add))
{
    assert forall|n: int, ord: bool, f: Says| #[trigger] placed(e, n, ord, f) && sts_ok(t.special_tokens) && n >= 0 && (ord ==> tp_texts(t.single, t.single.len() as int) <= 1) implies placed(tp_spec(t, e, add), n, ord, f) by { lemma_tp_placed(t, e, add, n, ord, f); }
}
""", only="C22,C27")
fn("TemplateProcessing::process",
   spec="tp_spec($this, $encoding, $add_special_tokens)",
   ensures={"C04,C27:lengths": "deep_ok($encoding) && sts_ok($this.special_tokens) ==> deep_ok($r)",
            "C22:offsets": "tp_keeps($this, $encoding, $r)",
            "C27:ids": "!$add_special_tokens && tp_texts($this.single, $this.single.len() as int) == 1 ==> $r.ids == $encoding.ids",
            "C05:announced": "$r.ids.len() == tp_out($encoding, $this.single, $this.special_tokens, false, $this.single.len() as int).ids.len() + (if $add_special_tokens { tp_added($this.single, $this.special_tokens, $this.single.len() as int) } else { 0 })"},
   hints={"return": ["let q = tp_spec($0this, $0encoding, $0add_special_tokens);"
                    "assert($r.overflowing =~= q.overflowing);"
                    "lemma_tp_added($0encoding, $0this.single, $0this.special_tokens, $0this.single.len() as int);"
                    "if deep_ok($0encoding) && sts_ok($0this.special_tokens) { lemma_tp_deep($0this, $0encoding, $0add_special_tokens); }",
                    ("C22", "lemma_tp_keeps($0this, $0encoding, $0add_special_tokens);"),
                    ("C27", "if !$0add_special_tokens && tp_texts($0this.single, $0this.single.len() as int) == 1 { lemma_tp_ids($0encoding, $0this.single, $0this.special_tokens, $0this.single.len() as int); }")],
          "decl it": "lemma_st_idx($this.special_tokens, $piece.second.id, 0, $it);"},
   loops=[
       dict(inv=["$encoding == tp_cur($0encoding, $this.single, #i)",
                 "cat_all($final_encodings) == tp_out($0encoding, $this.single, $this.special_tokens, $add_special_tokens, #i)"],
            head="lemma_cat_empty(tp_out($0encoding, $this.single, $this.special_tokens, $add_special_tokens, #i));",
            end="assert forall|s: Seq<Encoding>, x: Encoding| cat_all(#[trigger] s.push(x)) == enc_cat(cat_all(s), x) by { lemma_cat_push(s, x); };"),
       dict(inv=["$result.overflowing.len() == #i", "$result.ids =~= Seq::<int>::empty()", "no_over($result) == empty_enc()",
                 "forall|k: int| 0 <= k < #i ==> #[trigger] $result.overflowing[k] == tp_spec($this, $0encoding.overflowing[k], $add_special_tokens)"],
            before="assert(no_over($result) =~= empty_enc()); assert($encoding.overflowing == $0encoding.overflowing) by { lemma_tp_over($0encoding, $this.single, $this.single.len() as int); }"),
       dict(inv=["no_over($result) == no_over(cat_all($final_encodings.take(#i)))"],
            before="assert($final_encodings.take(0) =~= Seq::<Encoding>::empty());",
            end="assert($final_encodings.take(#i).drop_last() =~= $final_encodings.take(#i - 1));",
            after="assert($final_encodings.take(#i) =~= $final_encodings);"),
   ])
spec(r"""
pub proof fn lemma_tp_over(e: Encoding, ps: Seq<Pair<Seq<int>, Piece>>, k: int)
    ensures tp_cur(e, ps, k).overflowing == e.overflowing decreases k
{ if k > 0 { lemma_tp_over(e, ps, k - 1); } }
""")
fn("TemplateProcessing::added_tokens",
   requires=["forall|k: int| 0 <= k <= $this.single.len() ==> #[trigger] tp_added($this.single, $this.special_tokens, k) < 0x7fff_ffff"],
   ensures={"C05:announced": "$r == tp_added($this.single, $this.special_tokens, $this.single.len() as int)"},
   loops=[dict(inv=["$result == tp_added($this.single, $this.special_tokens, #i)", "$result >= 0"],
               head="assert(tp_added($this.single, $this.special_tokens, #i + 1) < 0x7fff_ffff);"),
          dict(inv=["0 <= #i", "#brk ==> is_special_piece($piece) && $result == tp_added($this.single, $this.special_tokens, #i0 + 1)"],
               xinv=["$result == tp_added($this.single, $this.special_tokens, #i0)",
                     "forall|k: int| 0 <= k < #i ==> !((#[trigger] $this.special_tokens[k]).id =~= $piece.second.id)"],
               head="if $this.special_tokens[#i].id =~= $piece.second.id { lemma_st_idx($this.special_tokens, $piece.second.id, 0, #i); }",
               after="if !#brk { lemma_st_idx($this.special_tokens, $piece.second.id, 0, $this.special_tokens.len() as int); }"),
          ])
fn("TemplateProcessing::TemplateProcessing",
   ensures={"C05,C25:fields": "$r.single == $single && $r.special_tokens == $special_tokens", "C25:pair": "$r.pair == $pair"})
fn("SpecialToken::SpecialToken/3", ensures={"C05,C25:fields": "$r.id == $id && $r.ids == $ids && $r.tokens == $tokens"})
fn("Piece::Piece", ensures={"C05,C25:fields": "$r.id == $id && $r.type_id == $type_id"})

# ---- byte-level offsets ----
spec(r"""
// unit k of the token is the space of the byte-level alphabet
pub open spec fn is_sp(u: Seq<int>, sp: Seq<int>, k: int) -> bool { sp == u_to8(u_sub(u, k, 1)) }
pub open spec fn lead_n(u: Seq<int>, sp: Seq<int>, k: int) -> int decreases u.len() - k {
    if k >= u.len() || !is_sp(u, sp, k) { 0 } else { 1 + lead_n(u, sp, k + 1) }
}
pub open spec fn trail_n(u: Seq<int>, sp: Seq<int>, k: int) -> int decreases k + 1 {
    if k < 0 || !is_sp(u, sp, k) { 0 } else { 1 + trail_n(u, sp, k - 1) }
}
pub proof fn lemma_sp_counts(u: Seq<int>, sp: Seq<int>)
    ensures forall|k: int| k <= u.len() ==> 0 <= #[trigger] lead_n(u, sp, k), forall|k: int| 0 <= #[trigger] trail_n(u, sp, k)
{
    assert forall|k: int| k <= u.len() implies 0 <= #[trigger] lead_n(u, sp, k) by { lemma_lead_pos(u, sp, k); }
    assert forall|k: int| 0 <= #[trigger] trail_n(u, sp, k) by { lemma_trail_pos(u, sp, k); }
}
proof fn lemma_lead_pos(u: Seq<int>, sp: Seq<int>, k: int) ensures lead_n(u, sp, k) >= 0 decreases u.len() - k
{ if !(k >= u.len() || !is_sp(u, sp, k)) { lemma_lead_pos(u, sp, k + 1); } }
proof fn lemma_trail_pos(u: Seq<int>, sp: Seq<int>, k: int) ensures trail_n(u, sp, k) >= 0 decreases k + 1
{ if !(k < 0 || !is_sp(u, sp, k)) { lemma_trail_pos(u, sp, k - 1); } }
pub open spec fn bl_pair(o: Pair<int, int>, lead: int, trail: int, first: bool, add_prefix: bool) -> Pair<int, int> {
    let l = if first && add_prefix && lead == 1 { 0 } else { lead };
    let a = if lead > 0 { imin(o.first + l, o.second) } else { o.first };
    let b = if trail > 0 && o.second >= trail { imax(o.second - trail, a) } else { o.second };
    Pair { first: a, second: b }
}
pub open spec fn bl_off(t: ByteLevelProcessing, add_prefix: bool, e: Encoding, i: int) -> Pair<int, int> {
    let u = u_from8(e.tokens[i]);
    bl_pair(e.offsets[i], lead_n(u, t.BYTES_CHAR[32], 0), trail_n(u, t.BYTES_CHAR[32], u.len() - 1), i == 0 || e.offsets[i].first == 0, add_prefix)
}
pub open spec fn bl_enc(t: ByteLevelProcessing, add_prefix: bool, e: Encoding) -> Encoding {
    Encoding { offsets: Seq::new(e.offsets.len(), |i: int| bl_off(t, add_prefix, e, i)), ..e }
}
pub open spec fn bl_spec(t: ByteLevelProcessing, e: Encoding) -> Encoding {
    if !t.trim_offsets { e } else {
        Encoding { overflowing: Seq::new(e.overflowing.len(), |i: int| bl_enc(t, t.add_prefix_space, e.overflowing[i])), ..bl_enc(t, t.add_prefix_space, e) }
    }
}
pub proof fn lemma_bl_deep(t: ByteLevelProcessing, add_prefix: bool, e: Encoding)
    requires deep_ok(e) ensures deep_ok(bl_enc(t, add_prefix, e))
{}
pub proof fn lemma_bl_spec_deep(t: ByteLevelProcessing, e: Encoding)
    requires deep_ok(e) ensures deep_ok(bl_spec(t, e))
{
    let r = bl_spec(t, e);
    if t.trim_offsets {
        assert forall|i: int| 0 <= i < r.overflowing.len() implies deep_ok(#[trigger] r.overflowing[i]) by { lemma_bl_deep(t, t.add_prefix_space, e.overflowing[i]); }
    }
}
// the offsets never grow, never cross, and move only for tokens with spaces at an end
pub proof fn lemma_bl_pair(o: Pair<int, int>, lead: int, trail: int, first: bool, add_prefix: bool)
    requires o.first <= o.second, lead >= 0, trail >= 0
    ensures ({ let r = bl_pair(o, lead, trail, first, add_prefix);
        &&& o.first <= r.first <= r.second <= o.second
        &&& lead == 0 ==> r.first == o.first
        &&& trail == 0 ==> r.second == o.second
        &&& r.first == imin(o.first + (if lead == 1 && add_prefix && first { 0 } else { lead }), o.second) })
{}
""")
spec(r"""
pub proof fn lemma_bl_placed1(t: ByteLevelProcessing, add_prefix: bool, e: Encoding, n: int, ord: bool, f: Says)
    requires placed1(e, n, ord, f) ensures placed1(bl_enc(t, add_prefix, e), n, false, any_says())
{
    let r = bl_enc(t, add_prefix, e);
    assert forall|i: int| 0 <= i < r.offsets.len() implies off_in(#[trigger] r.offsets[i], n) by {
        let u = u_from8(e.tokens[i]); let sp = t.BYTES_CHAR[32];
        assert(off_in(e.offsets[i], n)); lemma_sp_counts(u, sp);
        assert(0 <= lead_n(u, sp, 0) && 0 <= trail_n(u, sp, u.len() - 1));
        lemma_bl_pair(e.offsets[i], lead_n(u, sp, 0), trail_n(u, sp, u.len() - 1), i == 0 || e.offsets[i].first == 0, add_prefix);
    }
}
pub proof fn lemma_bl_placed(t: ByteLevelProcessing, e: Encoding, n: int, ord: bool, f: Says)
    requires placed(e, n, ord, f) ensures placed(bl_spec(t, e), n, ord && !t.trim_offsets, if t.trim_offsets { any_says() } else { f })
{
    let r = bl_spec(t, e);
    if t.trim_offsets {
        lemma_bl_placed1(t, t.add_prefix_space, e, n, ord, f);
        assert(placed1(r, n, false, any_says())) by { let b = bl_enc(t, t.add_prefix_space, e); assert(placed1(b, n, false, any_says())); assert(r.offsets == b.offsets); }
        assert forall|i: int| 0 <= i < r.overflowing.len() implies placed(#[trigger] r.overflowing[i], n, false, any_says()) by {
            let o = e.overflowing[i];
            assert(placed(o, n, ord, f));
            lemma_bl_placed1(t, t.add_prefix_space, o, n, ord, f);
            let b = bl_enc(t, t.add_prefix_space, o);
            assert forall|j: int| 0 <= j < b.overflowing.len() implies placed(#[trigger] b.overflowing[j], n, false, any_says()) by { assert(placed(o.overflowing[j], n, ord, f)); lemma_placed_weak(o.overflowing[j], n, ord, f); }
        }
    }
}
pub proof fn lemma_placed_weak(e: Encoding, n: int, ord: bool, f: Says)
    requires placed(e, n, ord, f) ensures placed(e, n, false, any_says()) decreases e
{ assert forall|j: int| 0 <= j < e.overflowing.len() implies placed(#[trigger] e.overflowing[j], n, false, any_says()) by { lemma_placed_weak(e.overflowing[j], n, ord, f); } }
pub open spec fn bl_keeps(t: ByteLevelProcessing, e: Encoding, r: Encoding) -> bool {
    forall|n: int, ord: bool, f: Says| #[trigger] placed(e, n, ord, f) ==> placed(r, n, ord && !t.trim_offsets, if t.trim_offsets { any_says() } else { f })
}
pub proof fn lemma_bl_keeps(t: ByteLevelProcessing, e: Encoding) ensures bl_keeps(t, e, bl_spec(t, e))
{ assert forall|n: int, ord: bool, f: Says| #[trigger] placed(e, n, ord, f) implies placed(bl_spec(t, e), n, ord && !t.trim_offsets, if t.trim_offsets { any_says() } else { f }) by { lemma_bl_placed(t, e, n, ord, f); } }
""", only="C22,C27")
fn("ByteLevelProcessing::process_offsets",
   requires=["enc_ok($encoding)", "$this.BYTES_CHAR.dom().contains(32)"],
   spec="bl_enc($this, $add_prefix_space, $encoding)",
   props="C07",
   ensures={"C04:lengths": "deep_ok($encoding) ==> deep_ok($r)"},
   hints={"return": "let q = bl_enc($0this, $0add_prefix_space, $0encoding); assert($r.offsets =~= q.offsets); assert($r.tokens =~= q.tokens); if deep_ok($0encoding) { lemma_bl_deep($0this, $0add_prefix_space, $0encoding); }"},
   loops=[
       dict(inv=["$new_encoding.tokens =~= $encoding.tokens",
                 "forall|k: int| 0 <= k < $i ==> #[trigger] $new_encoding.offsets[k] == bl_off($this, $add_prefix_space, $encoding, k)",
                 "forall|k: int| $i <= k < $encoding.offsets.len() ==> #[trigger] $new_encoding.offsets[k] == $encoding.offsets[k]"]),
       dict(inv=["$leading_spaces + lead_n($unicode_token, $this.BYTES_CHAR[32], $leading_spaces) == lead_n($unicode_token, $this.BYTES_CHAR[32], 0)",
                 "0 <= $leading_spaces <= $unicode_token.len()",
                 "#brk ==> lead_n($unicode_token, $this.BYTES_CHAR[32], $leading_spaces) == 0"],
            xinv=["$leading_spaces == $j"]),
       dict(inv=["$trailing_spaces + trail_n($unicode_token, $this.BYTES_CHAR[32], $unicode_token.len() - 1 - $trailing_spaces) == trail_n($unicode_token, $this.BYTES_CHAR[32], $unicode_token.len() - 1)",
                 "0 <= $trailing_spaces <= $unicode_token.len()",
                 "#brk ==> trail_n($unicode_token, $this.BYTES_CHAR[32], $unicode_token.len() - 1 - $trailing_spaces) == 0"],
            xinv=["$trailing_spaces == $unicode_token.len() - 1 - $j"],
            before="lemma_sp_counts($unicode_token, $this.BYTES_CHAR[32]);"),
   ])
fn("ByteLevelProcessing::process",
   requires=["deep_ok($encoding)", "$this.BYTES_CHAR.dom().contains(32)"],
   spec="bl_spec($this, $encoding)", props="C07",
   ensures={"C04,C27:lengths": "deep_ok($r)", "C27:ids": "$r.ids == $encoding.ids", "C22:offsets": "bl_keeps($this, $encoding, $r)"},
   hints={"return": ["let q = bl_spec($0this, $0encoding); assert($r.overflowing =~= q.overflowing); assert(no_over($r) =~= no_over(q)); lemma_bl_spec_deep($0this, $0encoding);", ("C22", "lemma_bl_keeps($0this, $0encoding);")]},
   loops=[dict(inv=["forall|k: int| 0 <= k < #i ==> #[trigger] $encoding.overflowing[k] == bl_enc($this, $this.add_prefix_space, $0encoding.overflowing[k])",
                    "forall|k: int| #i <= k < $encoding.overflowing.len() ==> #[trigger] $encoding.overflowing[k] == $0encoding.overflowing[k]"],
               head="assert(deep_ok($0encoding.overflowing[#i]));")])
spec(r"""
// without special tokens, a template that gives the text once keeps its ids
pub proof fn lemma_tp_ids(e: Encoding, ps: Seq<Pair<Seq<int>, Piece>>, sts: Seq<SpecialToken>, k: int)
    requires 0 <= k <= ps.len(), tp_texts(ps, ps.len() as int) == 1
    ensures tp_cur(e, ps, k).ids == e.ids, tp_out(e, ps, sts, false, k).ids == (if tp_texts(ps, k) == 0 { Seq::<int>::empty() } else { e.ids }) decreases k
{
    if k > 0 {
        lemma_tp_ids(e, ps, sts, k - 1);
        lemma_tp_texts(ps, k, ps.len() as int); lemma_tp_texts(ps, k - 1, k);
        let a = tp_out(e, ps, sts, false, k - 1).ids; let b = tp_piece(e, ps, sts, false, k - 1).ids;
        assert(tp_out(e, ps, sts, false, k).ids == a + b);
        if is_seq_piece(ps[k - 1]) { assert(a + b =~= b); } else { assert(a + b =~= a); }
    }
}
""", only="C27")
# ---- sequence ----
virt("PostProcessor::process")
virt("PostProcessor::added_tokens")
spec(r"""
// @virt PostProcessor::process
// @virt PostProcessor::added_tokens
pub open spec fn pp_seq(ps: Seq<Option<PostProcessor>>, e: Encoding, add: bool, k: int) -> Encoding decreases k {
    if k <= 0 { e } else { virt_PostProcessor_process(ps[k - 1]->0, pp_seq(ps, e, add, k - 1), add) }
}
pub open spec fn pp_added(ps: Seq<Option<PostProcessor>>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { pp_added(ps, k - 1) + virt_PostProcessor_added_tokens(ps[k - 1]->0) }
}
""")
spec(r"""
pub proof fn lemma_pp_seq_deep(ps: Seq<Option<PostProcessor>>, e: Encoding, add: bool, k: int)
    requires deep_ok(e), 0 <= k <= ps.len(), forall|i: int, x: Encoding| 0 <= i < ps.len() && deep_ok(x) ==> deep_ok(#[trigger] virt_PostProcessor_process(ps[i]->0, x, add))
    ensures deep_ok(pp_seq(ps, e, add, k)) decreases k
{ if k > 0 { lemma_pp_seq_deep(ps, e, add, k - 1); } }
""", only="C04")
spec(r"""
// a post-processor that keeps the ids
pub open spec fn pp_ids(x: PostProcessor, add: bool) -> bool { forall|e: Encoding| deep_ok(e) ==> deep_ok(#[trigger] virt_PostProcessor_process(x, e, add)) && virt_PostProcessor_process(x, e, add).ids == e.ids }
pub open spec fn all_pp_ids(ps: Seq<Option<PostProcessor>>, add: bool) -> bool { forall|i: int| 0 <= i < ps.len() ==> pp_ids((#[trigger] ps[i])->0, add) }
pub proof fn lemma_pp_seq_ids(ps: Seq<Option<PostProcessor>>, e: Encoding, add: bool, k: int)
    requires deep_ok(e), 0 <= k <= ps.len(), all_pp_ids(ps, add) ensures deep_ok(pp_seq(ps, e, add, k)), pp_seq(ps, e, add, k).ids == e.ids decreases k
{ if k > 0 { lemma_pp_seq_ids(ps, e, add, k - 1); assert(pp_ids(ps[k - 1]->0, add)); } }
""", only="C27")
spec(r"""
// what a post-processor keeps of the order and of what holds of the tokens
pub open spec fn pp_keeps(p: PostProcessor, ord: bool, f: Says) -> bool { forall|e: Encoding, add: bool, n: int| n >= 0 && placed(e, n, ord, f) ==> #[trigger] placed(virt_PostProcessor_process(p, e, add), n, ord, f) }
pub open spec fn pps_keep(ps: Seq<Option<PostProcessor>>, ord: bool, f: Says) -> bool { forall|i: int| 0 <= i < ps.len() ==> pp_keeps((#[trigger] ps[i])->0, ord, f) }
pub proof fn lemma_pp_seq_placed(ps: Seq<Option<PostProcessor>>, e: Encoding, add: bool, k: int, n: int, ord: bool, f: Says)
    requires pps_keep(ps, ord, f), placed(e, n, ord, f), n >= 0, 0 <= k <= ps.len()
    ensures placed(pp_seq(ps, e, add, k), n, ord, f) decreases k
{ if k > 0 { lemma_pp_seq_placed(ps, e, add, k - 1, n, ord, f); assert(pp_keeps(ps[k - 1]->0, ord, f)); } }
pub open spec fn pp_seq_keeps(ps: Seq<Option<PostProcessor>>, e: Encoding, r: Encoding) -> bool {
    forall|n: int, ord: bool, f: Says| #[trigger] placed(e, n, ord, f) && n >= 0 && pps_keep(ps, ord, f) ==> placed(r, n, ord, f)
}
pub proof fn lemma_pp_seq_keeps(ps: Seq<Option<PostProcessor>>, e: Encoding, add: bool) ensures pp_seq_keeps(ps, e, pp_seq(ps, e, add, ps.len() as int))
{ assert forall|n: int, ord: bool, f: Says| #[trigger] placed(e, n, ord, f) && n >= 0 && pps_keep(ps, ord, f) implies placed(pp_seq(ps, e, add, ps.len() as int), n, ord, f) by { lemma_pp_seq_placed(ps, e, add, ps.len() as int, n, ord, f); } }
""", only="C22,C27")
fn("SequenceProcessing::process",
   requires=["forall|i: int| 0 <= i < $this.processors.len() ==> (#[trigger] $this.processors[i]).is_some()"],
   spec="pp_seq($this.processors, $encoding, $add_special_tokens, $this.processors.len() as int)", props="C24",
   ensures={"C27:ids": "deep_ok($encoding) && all_pp_ids($this.processors, $add_special_tokens) ==> deep_ok($r) && $r.ids == $encoding.ids",
            "C22:offsets": "pp_seq_keeps($this.processors, $encoding, $r)", "C04:lengths": "deep_ok($encoding) && (forall|i: int, x: Encoding| 0 <= i < $this.processors.len() && deep_ok(x) ==> deep_ok(#[trigger] virt_PostProcessor_process($this.processors[i]->0, x, $add_special_tokens))) ==> deep_ok($r)"},
   hints={"return": ["lemma_fold_is(#foldseq, $0encoding, #clo0, |k: int| pp_seq($0this.processors, $0encoding, $0add_special_tokens, k));",
            ("C27", "if deep_ok($0encoding) && all_pp_ids($0this.processors, $0add_special_tokens) { lemma_pp_seq_ids($0this.processors, $0encoding, $0add_special_tokens, $0this.processors.len() as int); }"),
            ("C22", "lemma_pp_seq_keeps($0this.processors, $0encoding, $0add_special_tokens);"),
            ("C04", "if deep_ok($0encoding) && (forall|i: int, x: Encoding| 0 <= i < $0this.processors.len() && deep_ok(x) ==> deep_ok(#[trigger] virt_PostProcessor_process($0this.processors[i]->0, x, $0add_special_tokens))) { lemma_pp_seq_deep($0this.processors, $0encoding, $0add_special_tokens, $0this.processors.len() as int); }")]})
fn("SequenceProcessing::added_tokens",
   requires=["forall|i: int| 0 <= i < $this.processors.len() ==> (#[trigger] $this.processors[i]).is_some()"],
   spec="pp_added($this.processors, $this.processors.len() as int)", props="C24",
   loops=[dict(inv=["$result == pp_added($this.processors, #i)"])])
fn("SequenceProcessing::SequenceProcessing", ensures={"C24,C25:fields": "$r.processors == $processors"})
