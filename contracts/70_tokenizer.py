virt("Decoder::decode_chain")
spec(r"""
// uses: added_vocabulary model
// @virt Decoder::decode_chain
// ---- decoding (C17) ----
pub open spec fn dec_tok(t: Tokenizer, id: int) -> Option<Seq<int>> {
    if t.added_vocabulary.is_some() && av_tok(t.added_vocabulary->0, id).is_some() { av_tok(t.added_vocabulary->0, id) }
    else if t.model.is_some() { id_tok(t.model->0.vocab_r, id) } else { None }
}
pub open spec fn dec_drop(t: Tokenizer, skip: bool, x: Seq<int>) -> bool { skip && t.added_vocabulary.is_some() && av_special(t.added_vocabulary->0, x) }
pub open spec fn dec_k(t: Tokenizer, ids: Seq<int>, skip: bool, k: int) -> Seq<Seq<int>> decreases k {
    if k <= 0 { Seq::empty() } else {
        match dec_tok(t, ids[k - 1]) { Some(x) => if dec_drop(t, skip, x) { dec_k(t, ids, skip, k - 1) } else { dec_k(t, ids, skip, k - 1).push(x) }, None => dec_k(t, ids, skip, k - 1) }
    }
}
pub open spec fn cat_k(ts: Seq<Seq<int>>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { cat_k(ts, k - 1) + ts[k - 1] } }
pub open spec fn dec_chain(t: Tokenizer, ts: Seq<Seq<int>>) -> Seq<Seq<int>> { match t.decoder { Some(d) => virt_Decoder_decode_chain(d, ts), None => ts } }
pub open spec fn dec_text(t: Tokenizer, ids: Seq<int>, skip: bool) -> Seq<int> { let ts = dec_chain(t, dec_k(t, ids, skip, ids.len() as int)); cat_k(ts, ts.len() as int) }
""", only="C17,C13,C27")
fn("Tokenizer::decode", spec="dec_text($this, $ids, $skip_special_tokens)", props="C13,C17,C27",
   loops=[dict(inv=["$tokens == dec_k($this, $ids, $skip_special_tokens, #i)"])],
   hints={"return": "assert(fold(#foldseq, Seq::<int>::empty(), #clo0) == cat_k(#foldseq, #foldseq.len() as int)) by { lemma_fold_is(#foldseq, Seq::<int>::empty(), #clo0, |k: int| cat_k(#foldseq, k)); }"})
# ---- encoding (C23, C22, C04) ----
virt("Model::tokenize")
spec(r"""
// uses: norm pre_tokenizer added_vocabulary utils post seq
// @virt Normalizer::normalize
// @virt PreTokenizer::pre_tokenize
// @virt Model::tokenize
// @virt PostProcessor::process
// @virt PostProcessor::added_tokens
// the part of the original text that character i is aligned with
pub open spec fn og(n: NormalizedString, i: int) -> PI {
    let r = n.offset_ranges[i];
    Pair { first: n.offsets[r.first].first, second: n.offsets[r.first + r.second - 1].second }
}
pub open spec fn tok_first(s: Split, t: Token) -> int { s.offsets.first + imin(t.offsets.first, s.offsets.second - s.offsets.first - 1) }
pub open spec fn tok_last(s: Split, t: Token) -> int { imax(s.offsets.first + imin(t.offsets.second, s.offsets.second - s.offsets.first) - 1, tok_first(s, t)) }
pub open spec fn ie_tok(e: Encoding, n: NormalizedString, s: Split, t: Token, word: int, ty: int) -> Encoding {
    Encoding { ids: e.ids.push(t.id), tokens: e.tokens.push(t.value),
        offsets: e.offsets.push(Pair { first: og(n, tok_first(s, t)).first, second: og(n, tok_last(s, t)).second }),
        words: e.words.push(Some(word)), type_ids: e.type_ids.push(ty), special_tokens_mask: e.special_tokens_mask.push(0),
        attention_mask: e.attention_mask.push(1), ..e }
}
// the first j tokens of split s, after e
pub open spec fn ie_in(e: Encoding, n: NormalizedString, s: Split, word: int, ty: int, j: int) -> Encoding decreases j {
    if j <= 0 { e } else { ie_tok(ie_in(e, n, s, word, ty, j - 1), n, s, s.tokens[j - 1], word, ty) }
}
pub open spec fn ie_word(wi: Option<int>, k: int) -> int { match wi { Some(w) => w, None => k } }
// the tokens of the first k splits
pub open spec fn ie_k(p: PreTokenizedString, wi: Option<int>, ty: int, k: int) -> Encoding decreases k {
    if k <= 0 { empty_enc() } else { ie_in(ie_k(p, wi, ty, k - 1), p.normalized, p.splits[k - 1], ie_word(wi, k - 1), ty, p.splits[k - 1].tokens.len() as int) }
}
pub open spec fn ie(p: PreTokenizedString, wi: Option<int>, ty: int) -> Encoding { ie_k(p, wi, ty, p.splits.len() as int) }
// a split with tokens stands over at least one character of the text, and its tokens begin in it
pub open spec fn ie_split_ok(s: Split, n: int) -> bool {
    &&& s.tokens.len() > 0 ==> 0 <= s.offsets.first < s.offsets.second <= n
    &&& forall|j: int| 0 <= j < s.tokens.len() ==> 0 <= (#[trigger] s.tokens[j]).offsets.first <= s.tokens[j].offsets.second
}
pub open spec fn ie_ok(p: PreTokenizedString) -> bool { wf(p.normalized) && forall|i: int| 0 <= i < p.splits.len() ==> ie_split_ok(#[trigger] p.splits[i], p.normalized.normalized.len() as int) }
pub proof fn lemma_og(n: NormalizedString, i: int)
    requires wf(n), 0 <= i < n.normalized.len()
    ensures og(n, i) == al(n)[i], ({ let r = n.offset_ranges[i]; 0 <= r.first && 1 <= r.second && r.first + r.second <= n.offsets.len() })
{
    reveal(table);
    lemma_rpos(n.offsets, n.offset_ranges, i, i + 1);
    assert(link(n.offset_ranges, n.offsets.len() as int, i));
    let r = n.offset_ranges[i];
    assert(n.offsets[r.first + r.second - 1] == n.offsets[n.offset_ranges[i].first]);
}
""", only="C23,C22,C04,C13,C27")
fn("original_offsets", props="C23", requires=["wf($normalized)", "0 <= $i < $normalized.normalized.len()"], spec="og($normalized, $i)", hints={"entry": "lemma_og($normalized, $i);"})
fn("into_encoding", props="C23", requires=["ie_ok($pre_tokenized)"], spec="ie($pre_tokenized, $word_idx, $type_id)",
   loops=[dict(inv=["$encoding =~~= ie_k($pre_tokenized, $word_idx, $type_id, $idx)", "0 <= $idx <= $pre_tokenized.splits.len()"]),
          dict(inv=["$encoding =~~= ie_in(ie_k($pre_tokenized, $word_idx, $type_id, $idx), $pre_tokenized.normalized, $split, ie_word($word_idx, $idx), $type_id, #i)"],
               head="assert($split == $pre_tokenized.splits[$idx] && ie_split_ok($split, $pre_tokenized.normalized.normalized.len() as int));")])
spec(r"""
pub open spec fn st_norm(t: Tokenizer, w: Seq<int>) -> PreTokenizedString {
    match t.added_vocabulary {
        Some(a) => ex_all(a, t.normalizer, w),
        None => match t.normalizer { Some(n) => whole(virt_Normalizer_normalize(n, fresh(w))), None => whole(fresh(w)) } }
}
pub open spec fn st_pre(t: Tokenizer, p: PreTokenizedString) -> PreTokenizedString { match t.pre_tokenizer { Some(x) => virt_PreTokenizer_pre_tokenize(x, p), None => p } }
pub open spec fn st_model(t: Tokenizer, p: PreTokenizedString) -> PreTokenizedString { match t.model { Some(m) => virt_Model_tokenize(m, p), None => p } }
// the room that truncation leaves for special tokens
pub open spec fn st_reserved(t: Tokenizer, add: bool) -> int { if add && t.post_processor.is_some() { virt_PostProcessor_added_tokens(t.post_processor->0) } else { 0 } }
// r is e cut as configured (e itself without truncation)
pub open spec fn st_cut(t: Tokenizer, e: Encoding, add: bool, r: Encoding) -> bool {
    match t.truncation {
        Some(c) => ({ let m = t_room(c, st_reserved(t, add));
            &&& if t_cuts(c) || m == 0 { cut_main(e, r, m, is_left(c.direction)) } else { r == e }
            &&& t_cuts(c) ==> cut_windows(e, r, m, c.stride, is_left(c.direction)) }),
        None => r == e }
}
pub open spec fn st_cut_ok(t: Tokenizer, e: Encoding, add: bool) -> bool {
    t.truncation.is_some() ==> e.ids.len() < 0x7fff_ffff && t.truncation->0.stride >= 0 && in32(t.truncation->0.max_length - st_reserved(t, add))
}
// the stride does not fit the room
pub open spec fn st_bad(t: Tokenizer, e: Encoding, add: bool) -> bool {
    t.truncation.is_some() && ({ let c = t.truncation->0; let m = t_room(c, st_reserved(t, add)); 0 < m && m < e.ids.len() && c.stride >= m && t_cuts(c) })
}
pub open spec fn st_post(t: Tokenizer, e: Encoding, add: bool) -> Encoding { match t.post_processor { Some(p) => virt_PostProcessor_process(p, e, add), None => e } }
pub open spec fn st_pad(t: Tokenizer, e: Encoding) -> Encoding {
    match t.padding { Some(p) => pad_spec(e, pad_target(p, e.ids.len() as int), p.pad_id, p.pad_type_id, p.pad_token, p.direction), None => e }
}
pub open spec fn st_pad_ok(t: Tokenizer, e: Encoding) -> bool { t.padding.is_some() ==> (t.padding->0.strategy == 1 ==> t.padding->0.fixed_size >= 0) && in32(pad_target(t.padding->0, e.ids.len() as int)) }
// sizes fit
pub open spec fn st_fits(t: Tokenizer, e: Encoding, add: bool) -> bool {
    st_cut_ok(t, e, add) && forall|c: Encoding| #[trigger] st_cut(t, e, add, c) ==> st_pad_ok(t, st_post(t, c, add))
}
pub open spec fn st_final(t: Tokenizer, e: Encoding, add: bool, r: Encoding) -> bool { exists|c: Encoding| #[trigger] st_cut(t, e, add, c) && r == st_pad(t, st_post(t, c, add)) }
pub open spec fn st_tokens(t: Tokenizer, w: Seq<int>) -> PreTokenizedString { st_model(t, st_pre(t, st_norm(t, w))) }
// the text and the tables that the extraction needs
pub open spec fn st_ready(t: Tokenizer, w: Seq<int>) -> bool {
    &&& scalars(w)
    &&& nz_ok(t.normalizer)
    &&& t.added_vocabulary.is_some() ==> av_ready(t.added_vocabulary->0)
}
pub proof fn lemma_ie_in(e: Encoding, n: NormalizedString, s: Split, word: int, ty: int, j: int)
    requires enc_ok(e) ensures enc_ok(ie_in(e, n, s, word, ty, j)), ie_in(e, n, s, word, ty, j).overflowing == e.overflowing decreases j
{ if j > 0 { lemma_ie_in(e, n, s, word, ty, j - 1); } }
pub proof fn lemma_ie(p: PreTokenizedString, wi: Option<int>, ty: int, k: int)
    ensures deep_ok(ie_k(p, wi, ty, k)) decreases k
{ if k > 0 { lemma_ie(p, wi, ty, k - 1); lemma_ie_in(ie_k(p, wi, ty, k - 1), p.normalized, p.splits[k - 1], ie_word(wi, k - 1), ty, p.splits[k - 1].tokens.len() as int); } }
""", only="C23,C22,C04,C13,C27")
spec(r"""
// ---- C04: the lengths agree at every stage ----
pub open spec fn keeps_deep(p: PostProcessor) -> bool { forall|e: Encoding, add: bool| deep_ok(e) ==> deep_ok(#[trigger] virt_PostProcessor_process(p, e, add)) }
pub proof fn lemma_stages_deep(t: Tokenizer, e: Encoding, add: bool, r: Encoding)
    requires deep_ok(e), st_cut_ok(t, e, add), !st_bad(t, e, add), st_final(t, e, add, r), t.post_processor.is_some() ==> keeps_deep(t.post_processor->0)
    ensures deep_ok(r)
{
    let c = choose|c: Encoding| #[trigger] st_cut(t, e, add, c) && r == st_pad(t, st_post(t, c, add));
    if t.truncation.is_some() {
        let k = t.truncation->0;
        let m = t_room(k, st_reserved(t, add));
        if t_cuts(k) { lemma_cut_deep(e, c, m, k.stride, is_left(k.direction)); }
    }
    let p = st_post(t, c, add);
    if t.padding.is_some() { let k = t.padding->0; lemma_pad_deep(p, pad_target(k, p.ids.len() as int), k.pad_id, k.pad_type_id, k.pad_token, k.direction); }
}
""", only="C04")
spec(r"""
// ---- C13: the stages after the model leave no choice ----
pub proof fn lemma_one_result(t: Tokenizer, e: Encoding, add: bool, a: Encoding, b: Encoding)
    requires st_final(t, e, add, a), st_final(t, e, add, b), st_cut_ok(t, e, add), !st_bad(t, e, add)
    ensures a == b
{
    let c = choose|c: Encoding| #[trigger] st_cut(t, e, add, c) && a == st_pad(t, st_post(t, c, add));
    let d = choose|d: Encoding| #[trigger] st_cut(t, e, add, d) && b == st_pad(t, st_post(t, d, add));
    assert(no_over(c) == no_over(d) ==> c =~~= d || c.overflowing != d.overflowing);
    if t.truncation.is_some() { let k = t.truncation->0; let m = t_room(k, st_reserved(t, add)); if t_cuts(k) && 0 < m && m < e.ids.len() { assert(c.overflowing =~= d.overflowing); } }
    assert(c =~~= d);
}
""", only="C13")
spec(r"""
// ---- C22: where the tokens of an encoding lie ----
// the part of the original text of token t of split s
pub open spec fn tok_off(p: PreTokenizedString, s: Split, t: Token) -> PII { let a = al(p.normalized); Pair { first: a[tok_first(s, t)].first, second: a[tok_last(s, t)].second } }
// f holds of every token with its part of the text
pub open spec fn all_say(p: PreTokenizedString, f: Says) -> bool {
    forall|i: int, j: int| #![trigger p.splits[i].tokens[j]] 0 <= i < p.splits.len() && 0 <= j < p.splits[i].tokens.len() ==> f(p.splits[i].tokens[j].value, tok_off(p, p.splits[i], p.splits[i].tokens[j]))
}
// no token is beyond position x, y of the text
pub open spec fn upto(e: Encoding, a: Seq<PI>, x: int, y: int) -> bool {
    forall|i: int, k: int| #![trigger e.offsets[i], a[k]] 0 <= i < e.offsets.len() && 0 <= k < a.len() ==> (x <= k ==> e.offsets[i].first <= a[k].first) && (y <= k ==> e.offsets[i].second <= a[k].second)
}
pub open spec fn lies(e: Encoding, a: Seq<PI>, x: int, y: int, n: int, f: Says) -> bool { placed1(e, n, true, f) && e.overflowing.len() == 0 && upto(e, a, x, y) }
pub proof fn lemma_tok_pos(s: Split, t: Token)
    requires s.offsets.first < s.offsets.second, 0 <= t.offsets.first <= t.offsets.second ensures s.offsets.first <= tok_first(s, t) <= tok_last(s, t) < s.offsets.second {}
pub proof fn lemma_lies_in(e: Encoding, p: PreTokenizedString, i: int, word: int, ty: int, n: int, f: Says, j: int)
    requires steady(p), ok_al(al(p.normalized), n), 0 <= i < p.splits.len(), all_say(p, f), 0 <= j <= p.splits[i].tokens.len(), lies(e, al(p.normalized), p.splits[i].offsets.first, p.splits[i].offsets.first, n, f)
    ensures ({ let s = p.splits[i]; let r = ie_in(e, p.normalized, s, word, ty, j);
        lies(r, al(p.normalized), if j > 0 { tok_first(s, s.tokens[j - 1]) } else { s.offsets.first }, if j > 0 { tok_last(s, s.tokens[j - 1]) } else { s.offsets.first }, n, f) })
    decreases j
{
    let s = p.splits[i]; let a = al(p.normalized); let l = p.normalized.normalized.len() as int;
    if j > 0 {
        lemma_lies_in(e, p, i, word, ty, n, f, j - 1);
        let q = ie_in(e, p.normalized, s, word, ty, j - 1); let r = ie_in(e, p.normalized, s, word, ty, j);
        let t = s.tokens[j - 1];
        assert(rng_at(p.normalized.normalized, p.splits, i, 0, l)); lemma_rng_hi(p.normalized.normalized, p.splits, 0, l, i);
        assert(toks_in(s.tokens));
        lemma_tok_pos(s, t);
        let x = tok_first(s, t); let y = tok_last(s, t);
        assert(a.len() == l);
        lemma_og(p.normalized, x); lemma_og(p.normalized, y);
        if j > 1 { let t0 = s.tokens[j - 2]; assert(off_le(t0.offsets, t.offsets)); lemma_tok_pos(s, t0); assert(tok_first(s, t0) <= x && tok_last(s, t0) <= y); }
        let o = tok_off(p, s, t);
        assert(r.offsets == q.offsets.push(o));
        assert(f(t.value, o)) by { assert(p.splits[i].tokens[j - 1] == t); }
        assert(a[x].first < a[x].second && a[y].first < a[y].second); if x < y { assert(a[x].second <= a[y].second); }
        assert(off_in(o, n));
        assert forall|k: int| 0 <= k < r.offsets.len() implies (if k < q.offsets.len() { (#[trigger] r.offsets[k]) == q.offsets[k] && r.tokens[k] == q.tokens[k] && r.special_tokens_mask[k] == q.special_tokens_mask[k] && q.offsets[k].first <= a[x].first && q.offsets[k].second <= a[y].second } else { r.offsets[k] == o && r.tokens[k] == t.value }) by {}
        assert(inside(r, n)); assert(says(r, f)); assert(sorted(r));
        assert forall|k: int, m: int| #![trigger r.offsets[k], a[m]] 0 <= k < r.offsets.len() && 0 <= m < a.len() implies (x <= m ==> r.offsets[k].first <= a[m].first) && (y <= m ==> r.offsets[k].second <= a[m].second) by {
            assert(r.offsets[k] == (if k < q.offsets.len() { q.offsets[k] } else { o }));
            if x < m { assert(a[x].first <= a[m].first); } if y < m { assert(a[y].second <= a[m].second); }
        }
    }
}
pub proof fn lemma_upto_wide(e: Encoding, a: Seq<PI>, x: int, y: int, x2: int, y2: int) requires upto(e, a, x, y), x <= x2, y <= y2 ensures upto(e, a, x2, y2) {}
pub proof fn lemma_lies(p: PreTokenizedString, wi: Option<int>, ty: int, n: int, f: Says, k: int)
    requires steady(p), ok_al(al(p.normalized), n), all_say(p, f), 0 <= k <= p.splits.len(), n >= 0
    ensures lies(ie_k(p, wi, ty, k), al(p.normalized), fin(p.splits, k), fin(p.splits, k), n, f)
    decreases k
{
    if k > 0 {
        lemma_lies(p, wi, ty, n, f, k - 1);
        let a = al(p.normalized); let l = p.normalized.normalized.len() as int; let s = p.splits[k - 1]; let e = ie_k(p, wi, ty, k - 1); let m = s.tokens.len() as int;
        assert(rng_at(p.normalized.normalized, p.splits, k - 1, 0, l)); lemma_rng_hi(p.normalized.normalized, p.splits, 0, l, k - 1);
        let z = fin(p.splits, k - 1); let r = ie_in(e, p.normalized, s, ie_word(wi, k - 1), ty, m);
        lemma_upto_wide(e, a, z, z, s.offsets.first, s.offsets.first);
        lemma_lies_in(e, p, k - 1, ie_word(wi, k - 1), ty, n, f, m);
        if m > 0 { assert(toks_in(s.tokens)); lemma_tok_pos(s, s.tokens[m - 1]); lemma_upto_wide(r, a, tok_first(s, s.tokens[m - 1]), tok_last(s, s.tokens[m - 1]), s.offsets.second, s.offsets.second); }
        else { lemma_upto_wide(r, a, s.offsets.first, s.offsets.first, s.offsets.second, s.offsets.second); }
    }
}
// the components in front of the post-processor keep splits and tokens in order and the text aligned
pub open spec fn md_keeps(m: Model) -> bool { forall|p: PreTokenizedString| md_ok(p, #[trigger] virt_Model_tokenize(m, p)) }
pub open spec fn st_keeps(t: Tokenizer) -> bool { (t.pre_tokenizer.is_some() ==> pt_keeps(t.pre_tokenizer->0)) && (t.model.is_some() ==> md_keeps(t.model->0)) }
pub open spec fn st_sound(t: Tokenizer, w: Seq<int>) -> bool { let p = st_tokens(t, w); steady(p) && ok_al(al(p.normalized), w.len() as int) }
pub proof fn lemma_whole_steady(s: NormalizedString) requires good_text(s) ensures steady(whole(s))
{
    let p = whole(s); let n = s.normalized; let l = n.len() as int;
    assert(n.subrange(0, l) =~= n);
    assert forall|i: int| 0 <= i < p.splits.len() implies #[trigger] rng_at(n, p.splits, i, 0, l) by {}
}
pub proof fn lemma_st_sound(t: Tokenizer, w: Seq<int>)
    requires st_ready(t, w), st_keeps(t) ensures st_sound(t, w), ie_ok(st_tokens(t, w))
{
    let n = w.len() as int;
    let a = st_norm(t, w);
    match t.added_vocabulary {
        Some(v) => { lemma_ex_steady(v, t.normalizer, w); }
        None => { lemma_fresh_wf(w); match t.normalizer { Some(x) => { assert(norm_ok(fresh(w), virt_Normalizer_normalize(x, fresh(w)))); lemma_whole_steady(virt_Normalizer_normalize(x, fresh(w))); } None => { lemma_whole_steady(fresh(w)); } } }
    }
    assert(steady(a) && ok_al(al(a.normalized), n));
    let b = st_pre(t, a);
    if t.pre_tokenizer.is_some() { assert(pt_ok(a, b)); }
    let c = st_model(t, b);
    if t.model.is_some() { assert(md_ok(b, c)); }
    let p = st_tokens(t, w); let l = p.normalized.normalized.len() as int;
    assert forall|i: int| 0 <= i < p.splits.len() implies ie_split_ok(#[trigger] p.splits[i], l) by { assert(rng_at(p.normalized.normalized, p.splits, i, 0, l)); lemma_rng_hi(p.normalized.normalized, p.splits, 0, l, i); assert(toks_in(p.splits[i].tokens)); }
}
// every stage after the model leaves the tokens where they are
pub proof fn lemma_stages_placed(t: Tokenizer, w: Seq<int>, add: bool, r: Encoding, ord: bool, f: Says)
    requires st_sound(t, w), all_say(st_tokens(t, w), f), ({ let e = ie(st_tokens(t, w), None, 0); st_cut_ok(t, e, add) && !st_bad(t, e, add) && st_final(t, e, add, r) }),
        t.post_processor.is_some() ==> pp_keeps(t.post_processor->0, ord, f)
    ensures placed(r, w.len() as int, ord, f)
{
    let n = w.len() as int; let p = st_tokens(t, w);
    let e = ie(p, None, 0);
    lemma_lies(p, None, 0, n, f, p.splits.len() as int);
    assert(placed(e, n, ord, f));
    let c = choose|c: Encoding| #[trigger] st_cut(t, e, add, c) && r == st_pad(t, st_post(t, c, add));
    if t.truncation.is_some() {
        let k = t.truncation->0; let m = t_room(k, st_reserved(t, add));
        if t_cuts(k) || m == 0 { lemma_cut_placed(e, c, m, k.stride, is_left(k.direction), n, ord, f); }
    }
    let q = st_post(t, c, add);
    assert(placed(q, n, ord, f));
    if t.padding.is_some() { let k = t.padding->0; lemma_pad_placed(q, pad_target(k, q.ids.len() as int), k.pad_id, k.pad_type_id, k.pad_token, k.direction, n, ord, f); }
}
// the value is the text of the characters at the offsets, also behind pre, or x
pub open spec fn f_text(w: Seq<int>, pre: Seq<int>, x: Seq<int>) -> Says {
    |v: Seq<int>, o: PII| 0 <= o.first < o.second <= w.len() && ({ let y = w_to8(w.subrange(o.first, o.second)); v == y || v == pre + y || v == x })
}
// without a normalizer and with a pre-tokenizer that leaves the characters as they are
pub open spec fn pt_same(x: PreTokenizer) -> bool { forall|p: PreTokenizedString| (#[trigger] virt_PreTokenizer_pre_tokenize(x, p)).normalized == p.normalized }
// the model stands for every character of the words that it gets (WordPiece, and BPE with words_stand, by their contracts)
pub open spec fn st_stands(t: Tokenizer, w: Seq<int>, pre: Seq<int>, x: Seq<int>) -> bool { t.model.is_some() && md_says(st_pre(t, st_norm(t, w)), st_tokens(t, w), g_text(pre, x)) }
pub open spec fn st_plain(t: Tokenizer, w: Seq<int>, pre: Seq<int>, x: Seq<int>) -> bool {
    t.normalizer.is_none() && (t.pre_tokenizer.is_some() ==> pt_same(t.pre_tokenizer->0)) && st_stands(t, w, pre, x)
}
// then every token's value is the text at its offsets
pub proof fn lemma_st_texts(t: Tokenizer, w: Seq<int>, pre: Seq<int>, x: Seq<int>)
    requires st_ready(t, w), st_keeps(t), st_plain(t, w, pre, x) ensures all_say(st_tokens(t, w), f_text(w, pre, x))
{
    let n = w.len() as int;
    let a = st_norm(t, w); let b = st_pre(t, a); let p = st_tokens(t, w); let f = f_text(w, pre, x); let g = g_text(pre, x);
    lemma_fresh_wf(w);
    match t.added_vocabulary {
        Some(v) => { lemma_ex_steady(v, t.normalizer, w); }
        None => { lemma_whole_steady(fresh(w)); assert(toks_say(a, g_whole())); }
    }
    assert(al(a.normalized) == al_id(n) && a.normalized.normalized == w);
    if t.pre_tokenizer.is_some() { assert(pt_ok(a, b)); assert(toks_say(b, g_whole())); }
    assert(md_ok(b, p)); assert(md_says(b, p, g)); assert(toks_say(p, g));
    assert(p.normalized == a.normalized);
    assert forall|i: int, j: int| #![trigger p.splits[i].tokens[j]] 0 <= i < p.splits.len() && 0 <= j < p.splits[i].tokens.len() implies f(p.splits[i].tokens[j].value, tok_off(p, p.splits[i], p.splits[i].tokens[j])) by {
        let s = p.splits[i]; let k = s.tokens[j];
        assert(sp_says(w, s, g)); assert(g(part(w, s), k));
        assert(rng_at(w, p.splits, i, 0, n)); lemma_rng_hi(w, p.splits, 0, n, i);
        let o = tok_off(p, s, k);
        assert(o == (Pair { first: s.offsets.first + k.offsets.first, second: s.offsets.first + k.offsets.second }));
        assert(part(w, s).subrange(k.offsets.first, k.offsets.second) =~= w.subrange(o.first, o.second));
    }
}
// the value is the text of the characters of n that the offsets are aligned with, also behind pre, or x
pub open spec fn al_text(n: NormalizedString, pre: Seq<int>, x: Seq<int>, v: Seq<int>, o: PII, a: int, b: int) -> bool {
    0 <= a < b <= n.normalized.len() && o.first == al(n)[a].first && o.second == al(n)[b - 1].second && ({ let y = w_to8(n.normalized.subrange(a, b)); v == y || v == pre + y || v == x })
}
pub open spec fn f_al(n: NormalizedString, pre: Seq<int>, x: Seq<int>) -> Says { |v: Seq<int>, o: PII| exists|a: int, b: int| #[trigger] al_text(n, pre, x, v, o, a, b) }
pub proof fn lemma_st_aligned(t: Tokenizer, w: Seq<int>, pre: Seq<int>, x: Seq<int>)
    requires st_ready(t, w), st_keeps(t), st_stands(t, w, pre, x) ensures all_say(st_tokens(t, w), f_al(st_tokens(t, w).normalized, pre, x))
{
    let a = st_norm(t, w); let b = st_pre(t, a); let p = st_tokens(t, w); let g = g_text(pre, x); let m = p.normalized; let f = f_al(m, pre, x);
    lemma_fresh_wf(w);
    match t.added_vocabulary {
        Some(v) => { lemma_ex_steady(v, t.normalizer, w); }
        None => { match t.normalizer { Some(z) => { lemma_whole_steady(virt_Normalizer_normalize(z, fresh(w))); } None => { lemma_whole_steady(fresh(w)); } } assert(toks_say(a, g_whole())); }
    }
    if t.pre_tokenizer.is_some() { assert(pt_ok(a, b)); assert(toks_say(b, g_whole())); }
    assert(md_ok(b, p)); assert(md_says(b, p, g)); assert(toks_say(p, g));
    assert forall|i: int, j: int| #![trigger p.splits[i].tokens[j]] 0 <= i < p.splits.len() && 0 <= j < p.splits[i].tokens.len() implies f(p.splits[i].tokens[j].value, tok_off(p, p.splits[i], p.splits[i].tokens[j])) by {
        let s = p.splits[i]; let k = s.tokens[j]; let l = m.normalized.len() as int;
        assert(sp_says(m.normalized, s, g)); assert(g(part(m.normalized, s), k));
        assert(rng_at(m.normalized, p.splits, i, 0, l)); lemma_rng_hi(m.normalized, p.splits, 0, l, i);
        let x0 = s.offsets.first + k.offsets.first; let y0 = s.offsets.first + k.offsets.second;
        assert(part(m.normalized, s).subrange(k.offsets.first, k.offsets.second) =~= m.normalized.subrange(x0, y0));
        assert(al_text(m, pre, x, k.value, tok_off(p, s, k), x0, y0));
    }
}
pub open spec fn st_aligned(t: Tokenizer, w: Seq<int>, r: Encoding) -> bool {
    forall|pre: Seq<int>, x: Seq<int>, ord: bool| st_stands(t, w, pre, x) && (t.post_processor.is_some() ==> pp_keeps(t.post_processor->0, ord, f_al(st_tokens(t, w).normalized, pre, x))) ==> #[trigger] placed(r, w.len() as int, ord, f_al(st_tokens(t, w).normalized, pre, x))
}
pub proof fn lemma_all_aligned(t: Tokenizer, w: Seq<int>, r: Encoding)
    requires st_ready(t, w), st_keeps(t), st_placed(t, w, r) ensures st_aligned(t, w, r)
{
    assert forall|pre: Seq<int>, x: Seq<int>, ord: bool| st_stands(t, w, pre, x) && (t.post_processor.is_some() ==> pp_keeps(t.post_processor->0, ord, f_al(st_tokens(t, w).normalized, pre, x))) implies #[trigger] placed(r, w.len() as int, ord, f_al(st_tokens(t, w).normalized, pre, x)) by { lemma_st_aligned(t, w, pre, x); }
}
pub open spec fn st_texts(t: Tokenizer, w: Seq<int>, r: Encoding) -> bool {
    forall|pre: Seq<int>, x: Seq<int>, ord: bool| st_plain(t, w, pre, x) && (t.post_processor.is_some() ==> pp_keeps(t.post_processor->0, ord, f_text(w, pre, x))) ==> #[trigger] placed(r, w.len() as int, ord, f_text(w, pre, x))
}
pub proof fn lemma_all_texts(t: Tokenizer, w: Seq<int>, r: Encoding)
    requires st_ready(t, w), st_keeps(t), st_placed(t, w, r) ensures st_texts(t, w, r)
{
    assert forall|pre: Seq<int>, x: Seq<int>, ord: bool| st_plain(t, w, pre, x) && (t.post_processor.is_some() ==> pp_keeps(t.post_processor->0, ord, f_text(w, pre, x))) implies #[trigger] placed(r, w.len() as int, ord, f_text(w, pre, x)) by { lemma_st_texts(t, w, pre, x); }
}
pub open spec fn st_placed(t: Tokenizer, w: Seq<int>, r: Encoding) -> bool {
    forall|ord: bool, f: Says| all_say(st_tokens(t, w), f) && (t.post_processor.is_some() ==> pp_keeps(t.post_processor->0, ord, f)) ==> #[trigger] placed(r, w.len() as int, ord, f)
}
pub proof fn lemma_st_placed(t: Tokenizer, w: Seq<int>, add: bool, r: Encoding)
    requires st_ready(t, w), st_keeps(t), ({ let e = ie(st_tokens(t, w), None, 0); st_cut_ok(t, e, add) && !st_bad(t, e, add) && st_final(t, e, add, r) })
    ensures st_placed(t, w, r)
{
    lemma_st_sound(t, w);
    assert forall|ord: bool, f: Says| all_say(st_tokens(t, w), f) && (t.post_processor.is_some() ==> pp_keeps(t.post_processor->0, ord, f)) implies #[trigger] placed(r, w.len() as int, ord, f) by { lemma_stages_placed(t, w, add, r, ord, f); }
}
""", only="C22,C27")
spec(r"""
// uses: bpe bytes
// ---- C27: encoding loses nothing ----
// what the ids of a tokenizer stand for
pub open spec fn id_bytes(t: Tokenizer) -> Txt { |id: int| match dec_tok(t, id) { Some(x) => tok_bytes(x), None => Seq::empty() } }
pub open spec fn ids_text(d: Txt, ids: Seq<int>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { ids_text(d, ids, k - 1) + d(ids[k - 1]) } }
pub proof fn lemma_ids_ext(d: Txt, a: Seq<int>, b: Seq<int>, k: int) requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == #[trigger] b[i] ensures ids_text(d, a, k) == ids_text(d, b, k) decreases k
{ if k > 0 { lemma_ids_ext(d, a, b, k - 1); assert(a[k - 1] == b[k - 1]); } }
pub proof fn lemma_tb_ext(a: Seq<Seq<int>>, b: Seq<Seq<int>>, k: int) requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == #[trigger] b[i] ensures toks_bytes(a, k) == toks_bytes(b, k) decreases k
{ if k > 0 { lemma_tb_ext(a, b, k - 1); assert(a[k - 1] == b[k - 1]); } }
pub proof fn lemma_dec_ids(t: Tokenizer, ids: Seq<int>, k: int)
    requires 0 <= k <= ids.len() ensures ({ let r = dec_k(t, ids, false, k); toks_bytes(r, r.len() as int) == ids_text(id_bytes(t), ids, k) }) decreases k
{
    if k > 0 {
        lemma_dec_ids(t, ids, k - 1);
        let p = dec_k(t, ids, false, k - 1); let r = dec_k(t, ids, false, k);
        match dec_tok(t, ids[k - 1]) { Some(x) => { assert(r =~= p.push(x)); lemma_tb_ext(p, r, p.len() as int); } None => { assert(ids_text(id_bytes(t), ids, k) =~= ids_text(id_bytes(t), ids, k - 1)); } }
    }
}
pub proof fn lemma_in_ids(d: Txt, e: Encoding, n: NormalizedString, s: Split, word: int, ty: int, j: int)
    requires 0 <= j <= s.tokens.len()
    ensures ({ let r = ie_in(e, n, s, word, ty, j); r.ids.len() == e.ids.len() + j && ids_text(d, r.ids, r.ids.len() as int) == ids_text(d, e.ids, e.ids.len() as int) + tk_text(d, s.tokens, j) }) decreases j
{
    if j > 0 {
        lemma_in_ids(d, e, n, s, word, ty, j - 1);
        let q = ie_in(e, n, s, word, ty, j - 1); let r = ie_in(e, n, s, word, ty, j);
        assert(r.ids =~= q.ids.push(s.tokens[j - 1].id));
        lemma_ids_ext(d, q.ids, r.ids, q.ids.len() as int);
        assert(ids_text(d, r.ids, r.ids.len() as int) =~= ids_text(d, e.ids, e.ids.len() as int) + tk_text(d, s.tokens, j));
    } else { assert(ids_text(d, e.ids, e.ids.len() as int) + tk_text(d, s.tokens, 0) =~= ids_text(d, e.ids, e.ids.len() as int)); }
}
pub proof fn lemma_ie_ids(d: Txt, p: PreTokenizedString, k: int)
    requires 0 <= k <= p.splits.len() ensures ({ let r = ie_k(p, None, 0, k); ids_text(d, r.ids, r.ids.len() as int) == toks_text(d, p.splits, k) }) decreases k
{ if k > 0 { lemma_ie_ids(d, p, k - 1); lemma_in_ids(d, ie_k(p, None, 0, k - 1), p.normalized, p.splits[k - 1], k - 1, 0, p.splits[k - 1].tokens.len() as int); } }
// a byte-level configuration: text cut and turned into the characters of its bytes, a byte-level BPE model, a byte-level decoder,
// added tokens that decoding leaves as they are, and no stage that changes the text or the ids
pub open spec fn md_bytes(x: Model) -> bool { forall|p: PreTokenizedString| md_bytes_on(x.vocab_r, p, #[trigger] virt_Model_tokenize(x, p)) }
pub open spec fn dc_bytes(x: Decoder) -> bool { forall|ts: Seq<Seq<int>>| #[trigger] virt_Decoder_decode_chain(x, ts) == seq![toks_bytes(ts, ts.len() as int)] }
pub open spec fn st_lossless(t: Tokenizer, add: bool) -> bool {
    &&& t.normalizer.is_none() && t.truncation.is_none() && t.padding.is_none()
    &&& t.pre_tokenizer.is_some() && pt_bytes(t.pre_tokenizer->0)
    &&& t.model.is_some() && md_bytes(t.model->0)
    &&& t.decoder.is_some() && dc_bytes(t.decoder->0)
    &&& t.post_processor.is_some() ==> pp_ids(t.post_processor->0, add)
    &&& t.added_vocabulary.is_some() ==> av_plain(t.added_vocabulary->0) && av_agrees(t.added_vocabulary->0, t.model->0.vocab_r)
}
pub proof fn lemma_lossless(t: Tokenizer, w: Seq<int>, add: bool, r: Encoding)
    requires st_ready(t, w), st_lossless(t, add), st_final(t, ie(st_tokens(t, w), None, 0), add, r) ensures dec_text(t, r.ids, false) == w_to8(w)
{
    let d = id_bytes(t); let vr = t.model->0.vocab_r;
    let a = st_norm(t, w); let b = st_pre(t, a); let p = st_tokens(t, w); let e = ie(p, None, 0);
    assert(voc_says(d, vr)) by { assert forall|id: int| #[trigger] vr.dom().contains(id) implies d(id) == tok_bytes(vr[id]) by {} }
    match t.added_vocabulary {
        Some(v) => { assert(av_says(d, v)) by { assert forall|id: int| #[trigger] v.added_tokens_map_r.dom().contains(id) implies d(id) == tok_bytes(v.added_tokens_map_r[id].content) by {} } lemma_ex_text(d, v, w); }
        None => { lemma_fresh_wf(w); lemma_whole_steady(fresh(w)); assert(txt(d, a) =~= w_to8(w)) by { reveal_with_fuel(ss_text, 2); } }
    }
    assert(ready(a) && txt(d, a) == w_to8(w));
    assert(bytes_of(a, b));
    let q = choose|q: PreTokenizedString| #[trigger] bl_texts(q, b) && same_text(a, q) && chars_ok(q.splits);
    assert(txt(d, q) == txt(d, a));
    assert(md_bytes_on(vr, b, p));
    assert(toks_text(d, p.splits, p.splits.len() as int) == txt(d, q));
    lemma_ie_ids(d, p, p.splits.len() as int); lemma_ie(p, None, 0, p.splits.len() as int);
    let c = choose|c: Encoding| #[trigger] st_cut(t, e, add, c) && r == st_pad(t, st_post(t, c, add));
    assert(r.ids == e.ids);
    lemma_dec_ids(t, r.ids, r.ids.len() as int);
    let ts = dec_k(t, r.ids, false, r.ids.len() as int);
    let ds = dec_chain(t, ts);
    assert(ds == seq![toks_bytes(ts, ts.len() as int)]);
    assert(cat_k(ds, 1) =~= ds[0]) by { reveal_with_fuel(cat_k, 2); }
}
""", only="C27")
trust("a virtual member function of a component is a function of the component and its arguments (its override is under contract where it exists)", only="C23,C22,C04,C24,C17,C13,C27")
fn("Tokenizer::do_tokenize", props="C23", requires=["ie_ok(st_model($this, $pre_tokenized))"], spec="ie(st_model($this, $pre_tokenized), $word_idx, $type_id)")
fn("Tokenizer::do_post_process", props="C23", requires=["enc_ok($encoding)", "st_fits($this, $encoding, $add_special_tokens)"],
   throws="st_bad($this, $encoding, $add_special_tokens)", ensures={"*:stages": "st_final($this, $encoding, $add_special_tokens, $r)"},
   hints={"entry": "if $this.truncation.is_none() { assert(st_cut($this, $encoding, $add_special_tokens, $encoding)); }",
          "call Truncation::truncate_encoding#0": "assert(st_cut($this, $0encoding, $add_special_tokens, #call));"})
fn("Tokenizer::encode", mut=["this"], props="C13,C23,C04",
   requires=["st_ready($this, $sequence)", "ie_ok(st_tokens($this, $sequence))", "st_fits($this, ie(st_tokens($this, $sequence), None, 0), $add_special_tokens)"],
   throws="st_bad($this, ie(st_tokens($this, $sequence), None, 0), $add_special_tokens)",
   ensures={"C13,C23:same": "$this' == $this", "*:stages": "st_final($this, ie(st_tokens($this, $sequence), None, 0), $add_special_tokens, $r)",
            "C04:lengths": "($this.post_processor.is_some() ==> keeps_deep($this.post_processor->0)) ==> deep_ok($r)",
            "C22:offsets": "st_keeps($this) ==> st_placed($this, $sequence, $r)", "C22:texts": "st_keeps($this) ==> st_texts($this, $sequence, $r)", "C22:aligned": "st_keeps($this) ==> st_aligned($this, $sequence, $r)",
            "C27:lossless": "st_lossless($this, $add_special_tokens) ==> dec_text($this, $r.ids, false) == w_to8($sequence)"},
   hints={"return": [("C27", "if st_lossless($0this, $0add_special_tokens) { lemma_lossless($0this, $0sequence, $0add_special_tokens, $r); }"), ("C22", "if st_keeps($0this) { lemma_st_placed($0this, $0sequence, $0add_special_tokens, $r); lemma_all_texts($0this, $0sequence, $r); lemma_all_aligned($0this, $0sequence, $r); }"), ("C04", "if $0this.post_processor.is_some() ==> keeps_deep($0this.post_processor->0) { lemma_stages_deep($0this, ie(st_tokens($0this, $0sequence), None, 0), $0add_special_tokens, $r); }")],
          "entry": "lemma_fresh_wf($sequence); let t = st_tokens($this, $sequence); lemma_ie(t, None, 0, t.splits.len() as int);"})
# ---- adding tokens to a tokenizer (C15) ----
spec(r"""
// uses: added_vocabulary model
pub open spec fn tk_av(t: Tokenizer) -> AddedVocabulary { match t.added_vocabulary { Some(a) => a, None => av_new() } }
pub open spec fn tk_room(t: Tokenizer, ts: Seq<AddedToken>) -> bool { (t.added_vocabulary.is_none() ==> ids_fit(Map::empty(), md_of(t.model), ts.len() as int)) && (t.added_vocabulary.is_some() ==> ids_fit(t.added_vocabulary->0.added_tokens_map, md_of(t.model), ts.len() as int)) }
""", only="C15,C25,C27")
for m in ("add_tokens", "add_special_tokens"):
    fn("Tokenizer::" + m, mut=["this"], props="C15", requires=["tk_room($this, $tokens)"],
       ensures={"C15:own": "dense(md_of($this.model)) && av_own(tk_av($this), md_of($this.model)) ==> av_own(tk_av($this'), md_of($this.model))",
                "C27:still": "dense(md_of($this.model)) && inverse(md_of($this.model).vocab, md_of($this.model).vocab_r) && av_mine(tk_av($this), md_of($this.model)) && own_tokens($tokens) ==> av_mine(tk_av($this'), md_of($this.model)) && av_plain(tk_av($this')) && av_agrees(tk_av($this'), md_of($this.model).vocab_r)",
                "C15,C25,C27:state": "$this' =~~= (Tokenizer { added_vocabulary: Some(av_add(tk_av($this), $tokens, md_of($this.model))), ..$this })", "C15:count": "$r == nonempty($tokens, $tokens.len() as int)"},
       hints={"return": [("C15", "if dense(md_of($0this.model)) && av_own(tk_av($0this), md_of($0this.model)) { lemma_av_own(tk_av($0this), $tokens, md_of($0this.model)); }"),
                         ("C27", "if dense(md_of($0this.model)) && inverse(md_of($0this.model).vocab, md_of($0this.model).vocab_r) && av_mine(tk_av($0this), md_of($0this.model)) && own_tokens($tokens) { lemma_mine(tk_av($0this), $tokens, md_of($0this.model)); }")]})
