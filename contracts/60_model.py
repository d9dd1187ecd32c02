# The model's vocabulary (C14) and WordPiece (C10).
spec(r"""
// different tokens have different ids
pub open spec fn injective(v: Map<Seq<int>, int>) -> bool {
    forall|a: Seq<int>, b: Seq<int>| #![trigger v.dom().contains(a), v.dom().contains(b)] v.dom().contains(a) && v.dom().contains(b) && v[a] == v[b] ==> a == b
}
pub open spec fn has_id(v: Map<Seq<int>, int>, id: int) -> bool { exists|t: Seq<int>| #[trigger] v.dom().contains(t) && v[t] == id }
// r maps exactly the ids of v, each to one of its tokens
pub open spec fn inverse(v: Map<Seq<int>, int>, r: Map<int, Seq<int>>) -> bool {
    &&& forall|id: int| #[trigger] r.dom().contains(id) ==> v.dom().contains(r[id]) && v[r[id]] == id
    &&& forall|t: Seq<int>| #[trigger] v.dom().contains(t) ==> r.dom().contains(v[t])
}
pub open spec fn tok_id(v: Map<Seq<int>, int>, t: Seq<int>) -> Option<int> { if v.dom().contains(t) { Some(v[t]) } else { None } }
pub open spec fn id_tok(r: Map<int, Seq<int>>, id: int) -> Option<Seq<int>> { if r.dom().contains(id) { Some(r[id]) } else { None } }
// with an injective vocabulary the two lookups invert each other
pub proof fn lemma_lookups(v: Map<Seq<int>, int>, r: Map<int, Seq<int>>, t: Seq<int>, id: int)
    requires inverse(v, r), injective(v)
    ensures tok_id(v, t) == Some(id) <==> id_tok(r, id) == Some(t), id_tok(r, id).is_some() == has_id(v, id)
{
    if v.dom().contains(t) { assert(r.dom().contains(v[t])); }
    if has_id(v, id) { let x = choose|x: Seq<int>| #[trigger] v.dom().contains(x) && v[x] == id; assert(r.dom().contains(v[x])); }
}
""")
fn("Model::Model", props="C14", ensures={"*:tokens": "$r.vocab == $vocab", "*:inverse": "inverse($r.vocab, $r.vocab_r)"},
   loops=[dict(inv=["$this.vocab == $0vocab", "$vocab == $0vocab",
                    "forall|id: int| #[trigger] $this.vocab_r.dom().contains(id) ==> $vocab.dom().contains($this.vocab_r[id]) && $vocab[$this.vocab_r[id]] == id",
                    "forall|j: int| 0 <= j < #i ==> $this.vocab_r.dom().contains((#[trigger] #r[j]).second)"],
               before="axiom_map_enum($vocab);",
               after="assert forall|t: Seq<int>| #[trigger] $vocab.dom().contains(t) implies $this.vocab_r.dom().contains($vocab[t]) by { let i = choose|i: int| 0 <= i < #r.len() && #[trigger] #r[i] == (Pair { first: t, second: $vocab[t] }); };")])
fn("Model::get_vocab_size", ensures={"*:size": "$r == $this.vocab.dom().len()"}, props="C14")
fn("Model::token_to_id", spec="tok_id($this.vocab, $token)", total=True, props="C14")
fn("Model::id_to_token", spec="id_tok($this.vocab_r, $id)", total=True, props="C14")
spec(r"""
pub open spec fn wp_sub(m: WordPiece, w: Seq<int>, s: int, e: int) -> Seq<int> { if s > 0 { m.continuing_subword_prefix + w_to8(ssub(w, s, e - s)) } else { w_to8(ssub(w, s, e - s)) } }
pub open spec fn wp_is(m: WordPiece, w: Seq<int>, s: int, e: int) -> bool { m.vocab.dom().contains(wp_sub(m, w, s, e)) }
// the end of the longest piece that starts at s and ends at e at the latest; s if there is none
pub open spec fn wp_end(m: WordPiece, w: Seq<int>, s: int, e: int) -> int decreases e - s {
    if e <= s { s } else if wp_is(m, w, s, e) { e } else { wp_end(m, w, s, e - 1) }
}
pub proof fn lemma_wp_end(m: WordPiece, w: Seq<int>, s: int, e: int)
    requires s <= e
    ensures s <= wp_end(m, w, s, e) <= e, wp_end(m, w, s, e) > s ==> wp_is(m, w, s, wp_end(m, w, s, e)),
        forall|x: int| wp_end(m, w, s, e) < x <= e && x > s ==> !#[trigger] wp_is(m, w, s, x)
    decreases e - s
{ if e > s && !wp_is(m, w, s, e) { lemma_wp_end(m, w, s, e - 1); } }
pub open spec fn wp_tok(m: WordPiece, w: Seq<int>, s: int, e: int) -> Token { Token { id: m.vocab[wp_sub(m, w, s, e)], value: wp_sub(m, w, s, e), offsets: Pair { first: s, second: e } } }
// the longest pieces from position s on, if they reach the end
pub open spec fn wp_toks(m: WordPiece, w: Seq<int>, s: int) -> Option<Seq<Token>> decreases w.len() - s {
    let e = wp_end(m, w, s, w.len() as int);
    if s >= w.len() { Some(Seq::empty()) } else if e <= s || e > w.len() { None } else { wp_cons(wp_tok(m, w, s, e), wp_toks(m, w, e)) }
}
pub open spec fn wp_cons(t: Token, r: Option<Seq<Token>>) -> Option<Seq<Token>> { match r { Some(x) => Some(seq![t] + x), None => None } }
pub open spec fn wp_cat(a: Seq<Token>, r: Option<Seq<Token>>) -> Option<Seq<Token>> { match r { Some(x) => Some(a + x), None => None } }
pub open spec fn wp_unk(m: WordPiece, n: int) -> Seq<Token> {
    seq![Token { id: if m.vocab.dom().contains(m.unk_token) { m.vocab[m.unk_token] } else { 0 }, value: m.unk_token, offsets: Pair { first: 0int, second: n } }]
}
pub open spec fn wp_word(m: WordPiece, text: Seq<int>) -> Seq<Token> {
    let w = w_from8(text);
    if w.len() > m.max_input_chars_per_word { wp_unk(m, w.len() as int) } else { match wp_toks(m, w, 0) { Some(x) => x, None => wp_unk(m, w.len() as int) } }
}
pub open spec fn wp_split(m: WordPiece, s: Split) -> Split { if s.tokens.len() > 0 { s } else { Split { tokens: wp_word(m, s.normalized), ..s } } }
pub open spec fn wp_k(m: WordPiece, ss: Seq<Split>, k: int) -> Seq<Split> { Seq::new(ss.len(), |i: int| if i < k { wp_split(m, ss[i]) } else { ss[i] }) }
pub open spec fn texts_ok(ss: Seq<Split>) -> bool { forall|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]).tokens.len() == 0 ==> w8_ok(ss[i].normalized) }
""", only="C10,C22,C04,C23,C13,C27")
spec(r"""
// uses: pre_tokenizer
// ---- C22: tokens in order, each over a part of the text ----
pub open spec fn md_ok(a: PreTokenizedString, b: PreTokenizedString) -> bool { steady(a) ==> steady(b) && b.normalized == a.normalized }
// b is a with tokens
pub open spec fn with_toks(a: Split, b: Split) -> bool {
    &&& b.offsets == a.offsets && b.normalized == a.normalized
    &&& a.tokens.len() > 0 ==> b == a
    &&& a.tokens.len() == 0 ==> toks_in(b.tokens) && (b.tokens.len() > 0 ==> a.normalized.len() > 0)
}
pub proof fn lemma_part(n: Seq<int>, s: Split)
    requires scalars(n), spl_ok(n, s), s.tokens.len() == 0
    ensures ({ let w = n.subrange(s.offsets.first, s.offsets.second); scalars(w) && w8_ok(s.normalized) && w_from8(s.normalized) == w && s.normalized == w_to8(w) && (s.normalized.len() == 0 <==> s.offsets.first == s.offsets.second) })
{
    let w = n.subrange(s.offsets.first, s.offsets.second);
    assert forall|i: int| 0 <= i < w.len() implies is_scalar(#[trigger] w[i]) by { assert(is_scalar(n[s.offsets.first + i])); }
    axiom_w_to8(w);
    if w.len() > 0 { lemma_w8_len(w); } else { lemma_w8_empty(); assert(w =~= Seq::<int>::empty()); }
}
pub proof fn lemma_with_toks(a: PreTokenizedString, b: PreTokenizedString)
    requires steady(a), b.normalized == a.normalized, b.splits.len() == a.splits.len(), forall|i: int| 0 <= i < a.splits.len() ==> with_toks(a.splits[i], #[trigger] b.splits[i])
    ensures steady(b)
{
    let n = a.normalized.normalized; let l = n.len() as int;
    assert forall|i: int| 0 <= i < b.splits.len() implies #[trigger] rng_at(n, b.splits, i, 0, l) by {
        assert(rng_at(n, a.splits, i, 0, l)); assert(with_toks(a.splits[i], b.splits[i])); if i > 0 { assert(with_toks(a.splits[i - 1], b.splits[i - 1])); }
        if a.splits[i].tokens.len() == 0 { lemma_part(n, a.splits[i]); }
    }
    assert forall|i: int| 0 <= i < b.splits.len() implies toks_in((#[trigger] b.splits[i]).tokens) by { assert(with_toks(a.splits[i], b.splits[i])); assert(toks_in(a.splits[i].tokens)); }
}
pub proof fn lemma_steady_texts(p: PreTokenizedString, i: int)
    requires steady(p), 0 <= i < p.splits.len(), p.splits[i].tokens.len() == 0
    ensures spl_ok(p.normalized.normalized, p.splits[i]), ({ let s = p.splits[i]; let w = p.normalized.normalized.subrange(s.offsets.first, s.offsets.second); scalars(w) && w8_ok(s.normalized) && w_from8(s.normalized) == w && s.normalized == w_to8(w) && (s.normalized.len() == 0 <==> s.offsets.first == s.offsets.second) })
{ assert(rng_at(p.normalized.normalized, p.splits, i, 0, p.normalized.normalized.len() as int)); lemma_part(p.normalized.normalized, p.splits[i]); }
// a token over all characters of its split whose value is their text
pub open spec fn g_whole() -> Tk { |w: Seq<int>, t: Token| t.value == w_to8(w) && t.offsets.first == 0 && t.offsets.second == w.len() }
// a token whose value is the text of the characters that it stands over, also behind pre, or x in place of them
pub open spec fn g_text(pre: Seq<int>, x: Seq<int>) -> Tk {
    |w: Seq<int>, t: Token| 0 <= t.offsets.first < t.offsets.second <= w.len() && ({ let v = w_to8(w.subrange(t.offsets.first, t.offsets.second)); t.value == v || t.value == pre + v || t.value == x })
}
pub open spec fn md_says(a: PreTokenizedString, b: PreTokenizedString, g: Tk) -> bool { steady(a) && toks_say(a, g_whole()) ==> toks_say(b, g) }
// the pieces of a word: in order, from position s on
pub proof fn lemma_wp_in(m: WordPiece, w: Seq<int>, s: int)
    requires 0 <= s <= w.len(), wp_toks(m, w, s).is_some()
    ensures ({ let ts = wp_toks(m, w, s)->0; toks_in(ts) && (forall|i: int| 0 <= i < ts.len() ==> s <= (#[trigger] ts[i]).offsets.first < ts[i].offsets.second <= w.len() && ts[i].value == wp_sub(m, w, ts[i].offsets.first, ts[i].offsets.second)) && (s < w.len() <==> ts.len() > 0) })
    decreases w.len() - s
{
    let e = wp_end(m, w, s, w.len() as int);
    if s < w.len() {
        lemma_wp_in(m, w, e);
        let r = wp_toks(m, w, e)->0; let ts = wp_toks(m, w, s)->0;
        assert(ts =~= seq![wp_tok(m, w, s, e)] + r);
        assert forall|i: int| 0 <= i < ts.len() implies s <= (#[trigger] ts[i]).offsets.first < ts[i].offsets.second <= w.len() && (i > 0 ==> e <= ts[i].offsets.first) && ts[i].value == wp_sub(m, w, ts[i].offsets.first, ts[i].offsets.second) by { if i > 0 { assert(ts[i] == r[i - 1]); } }
        assert forall|j: int, k: int| #![trigger ts[j], ts[k]] 0 <= j < k < ts.len() implies off_le(ts[j].offsets, ts[k].offsets) by { assert(ts[k] == r[k - 1]); if j > 0 { assert(ts[j] == r[j - 1]); } else { assert(ts[j].offsets.second == e); } }
    }
}
pub proof fn lemma_wp_keeps(m: WordPiece, p: PreTokenizedString, r: PreTokenizedString)
    requires m.max_input_chars_per_word >= 0, steady(p), r == (PreTokenizedString { splits: wp_k(m, p.splits, p.splits.len() as int), ..p })
    ensures md_ok(p, r)
{
    assert forall|i: int| 0 <= i < p.splits.len() implies with_toks(p.splits[i], #[trigger] r.splits[i]) by {
        let a = p.splits[i];
        if a.tokens.len() == 0 {
            lemma_steady_texts(p, i);
            let w = w_from8(a.normalized);
            if wp_toks(m, w, 0).is_some() { lemma_wp_in(m, w, 0); }
        }
    }
    lemma_with_toks(p, r);
}
pub proof fn lemma_wp_says(m: WordPiece, p: PreTokenizedString, r: PreTokenizedString)
    requires m.max_input_chars_per_word >= 0, steady(p), toks_say(p, g_whole()), r == (PreTokenizedString { splits: wp_k(m, p.splits, p.splits.len() as int), ..p })
    ensures toks_say(r, g_text(m.continuing_subword_prefix, m.unk_token))
{
    let n = p.normalized.normalized; let g = g_text(m.continuing_subword_prefix, m.unk_token);
    assert forall|i: int| 0 <= i < r.splits.len() implies sp_says(n, #[trigger] r.splits[i], g) by {
        let a = p.splits[i]; let w = part(n, a);
        assert(rng_at(n, p.splits, i, 0, n.len() as int));
        if a.tokens.len() == 0 {
            lemma_steady_texts(p, i);
            if wp_toks(m, w, 0).is_some() {
                lemma_wp_in(m, w, 0);
                let ts = wp_toks(m, w, 0)->0;
                assert forall|j: int| 0 <= j < ts.len() implies g(w, #[trigger] ts[j]) by { assert(ssub(w, ts[j].offsets.first, ts[j].offsets.second - ts[j].offsets.first) =~= w.subrange(ts[j].offsets.first, ts[j].offsets.second)); }
            }
        } else {
            assert(sp_says(n, a, g_whole()));
            assert forall|j: int| 0 <= j < a.tokens.len() implies g(w, #[trigger] a.tokens[j]) by { assert(g_whole()(w, a.tokens[j])); assert(w.subrange(0, w.len() as int) =~= w); }
        }
    }
}
""", only="C22,C27")
fn("WordPiece::WordPiece", ensures={"C10,C25:fields": "$r.vocab == $vocab && $r.unk_token == $unk_token && $r.max_input_chars_per_word == $max_input_chars_per_word && $r.continuing_subword_prefix == $continuing_subword_prefix",
                                    "C14,C25:lookups": "$r.vocab == $vocab && inverse($r.vocab, $r.vocab_r)"})
fn("WordPiece::tokenize", requires=["texts_ok($pre_tokenized.splits)"], props="C10",
   ensures={"C10:tokens": "$r =~~= (PreTokenizedString { splits: wp_k($this, $pre_tokenized.splits, $pre_tokenized.splits.len() as int), ..$pre_tokenized })", "C22:keeps": "$this.max_input_chars_per_word >= 0 ==> md_ok($pre_tokenized, $r)",
            "C22:texts": "$this.max_input_chars_per_word >= 0 ==> md_says($pre_tokenized, $r, g_text($this.continuing_subword_prefix, $this.unk_token))"},
   hints={"return": [("C22", "if $this.max_input_chars_per_word >= 0 && steady($0pre_tokenized) { lemma_wp_keeps($this, $0pre_tokenized, $r); if toks_say($0pre_tokenized, g_whole()) { lemma_wp_says($this, $0pre_tokenized, $r); } }")]},
   loops=[dict(inv=["$pre_tokenized =~~= (PreTokenizedString { splits: wp_k($this, $0pre_tokenized.splits, #i), ..$0pre_tokenized })"],
               head="@let ps = $pre_tokenized; @let text = #r[#i].normalized; @let w = w_from8(#text); axiom_w_from8(#text); assert(#r[#i] == $0pre_tokenized.splits[#i]);"),
          dict(inv=["0 <= $start", "$start <= #w.len()", "$pre_tokenized == #ps", "!$is_bad ==> wp_cat($sub_tokens, wp_toks($this, #w, $start)) == wp_toks($this, #w, 0)", "$is_bad ==> wp_toks($this, #w, 0).is_none()"],
               exit=["$is_bad || $start >= #w.len()"], xinv=["!$is_bad"], dec="imax(0, slen(#w) - $start)",
               before="if wp_toks($this, #w, 0).is_some() { assert(Seq::<Token>::empty() + wp_toks($this, #w, 0)->0 =~= wp_toks($this, #w, 0)->0); }",
               head="@let s0 = $start; @let e0 = wp_end($this, #w, $start, #w.len() as int); @let t0 = $sub_tokens; lemma_wp_end($this, #w, $start, #w.len() as int);",
               end="if !$is_bad && wp_toks($this, #w, #e0).is_some() { assert(#t0 + (seq![wp_tok($this, #w, #s0, #e0)] + wp_toks($this, #w, #e0)->0) =~= $sub_tokens + wp_toks($this, #w, #e0)->0); }",
               after="if !$is_bad { assert($sub_tokens + Seq::<Token>::empty() =~= $sub_tokens); }"),
          dict(inv=["$start <= $end", "wp_end($this, #w, $start, $end) == #e0", "$pre_tokenized == #ps",
                    "$cur_sequence_token == (if #brk { Some(wp_tok($this, #w, $start, #e0)) } else { None::<Token> })", "#brk ==> $end == #e0 && #e0 > $start"],
               exit=["#brk || $end <= $start"], dec="imax(0, $end - $start)")])
