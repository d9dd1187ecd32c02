# Added tokens: lookups (C17), adding (C15), extraction (C16).
spec(r"""
pub open spec fn av_tok(a: AddedVocabulary, id: int) -> Option<Seq<int>> { if a.added_tokens_map_r.dom().contains(id) { Some(a.added_tokens_map_r[id].content) } else { None } }
pub open spec fn av_special(a: AddedVocabulary, t: Seq<int>) -> bool { a.special_tokens_set.contains(t) }
""")
fn("AddedVocabulary::is_special_token", spec="av_special($this, $token)", total=True, props="C17")
fn("AddedVocabulary::id_to_token", spec="av_tok($this, $id)", total=True, props="C17,C15")
# ---- adding tokens (C15) ----
spec(r"""
// uses: model
// a new id: at least the vocabulary's size, above every id given so far, and no greater than needed for that
pub open spec fn is_new_id(m: Map<Seq<int>, int>, n: int, id: int) -> bool {
    &&& id >= n
    &&& forall|c: Seq<int>| #[trigger] m.dom().contains(c) ==> m[c] < id
    &&& (id == n || exists|c: Seq<int>| #[trigger] m.dom().contains(c) && m[c] == id - 1)
}
pub open spec fn new_id(m: Map<Seq<int>, int>, n: int) -> int { choose|id: int| is_new_id(m, n, id) }
pub proof fn lemma_new_id(m: Map<Seq<int>, int>, n: int, id: int)
    requires is_new_id(m, n, id)
    ensures new_id(m, n) == id
{ assert(is_new_id(m, n, new_id(m, n))); }
// the id of a content: the one it was given before, else the model's, else a new one
pub open spec fn add_id(m: Map<Seq<int>, int>, md: Model, c: Seq<int>) -> int {
    if m.dom().contains(c) { m[c] } else if md.vocab.dom().contains(c) { md.vocab[c] } else { new_id(m, md.vocab.dom().len() as int) }
}
pub open spec fn add_map(m: Map<Seq<int>, int>, md: Model, ts: Seq<AddedToken>, k: int) -> Map<Seq<int>, int> decreases k {
    if k <= 0 { m } else {
        let p = add_map(m, md, ts, k - 1);
        if ts[k - 1].content.len() == 0 { p } else { p.insert(ts[k - 1].content, add_id(p, md, ts[k - 1].content)) }
    }
}
pub open spec fn add_rev(r: Map<int, AddedToken>, m: Map<Seq<int>, int>, md: Model, ts: Seq<AddedToken>, k: int) -> Map<int, AddedToken> decreases k {
    if k <= 0 { r } else {
        let p = add_rev(r, m, md, ts, k - 1);
        if ts[k - 1].content.len() == 0 { p } else { p.insert(add_id(add_map(m, md, ts, k - 1), md, ts[k - 1].content), ts[k - 1]) }
    }
}
pub open spec fn nonempty(ts: Seq<AddedToken>, k: int) -> int decreases k { if k <= 0 { 0 } else { nonempty(ts, k - 1) + (if ts[k - 1].content.len() > 0 { 1int } else { 0 }) } }
// special tokens: a content becomes special with the first special token of that content, and stays so
pub open spec fn sp_new(s: Set<Seq<int>>, t: AddedToken) -> bool { t.special && t.content.len() > 0 && !s.contains(t.content) }
pub open spec fn sp_set(s: Set<Seq<int>>, ts: Seq<AddedToken>, k: int) -> Set<Seq<int>> decreases k {
    if k <= 0 { s } else { let p = sp_set(s, ts, k - 1); if sp_new(p, ts[k - 1]) { p.insert(ts[k - 1].content) } else { p } }
}
pub open spec fn sp_list(l: Seq<AddedToken>, s: Set<Seq<int>>, ts: Seq<AddedToken>, k: int) -> Seq<AddedToken> decreases k {
    if k <= 0 { l } else { let p = sp_list(l, s, ts, k - 1); if sp_new(sp_set(s, ts, k - 1), ts[k - 1]) { p.push(ts[k - 1]) } else { p } }
}
// the others, in order
pub open spec fn plain_list(l: Seq<AddedToken>, s: Set<Seq<int>>, ts: Seq<AddedToken>, k: int) -> Seq<AddedToken> decreases k {
    if k <= 0 { l } else { let p = plain_list(l, s, ts, k - 1); if ts[k - 1].content.len() > 0 && !s.contains(ts[k - 1].content) { p.push(ts[k - 1]) } else { p } }
}
// the contents (and ids) that are searched for in the given text, original or normalized
pub open spec fn pairs_k(m: Map<Seq<int>, int>, ts: Seq<AddedToken>, norm: bool, k: int) -> Seq<Pair<AddedToken, int>> decreases k {
    if k <= 0 { Seq::empty() } else {
        let p = pairs_k(m, ts, norm, k - 1);
        if m.dom().contains(ts[k - 1].content) && ts[k - 1].normalized == norm { p.push(Pair { first: ts[k - 1], second: m[ts[k - 1].content] }) } else { p }
    }
}
pub open spec fn trie_pairs(a: AddedVocabulary, norm: bool) -> Seq<Pair<AddedToken, int>> {
    pairs_k(a.added_tokens_map, a.special_tokens, norm, a.special_tokens.len() as int) + pairs_k(a.added_tokens_map, a.added_tokens, norm, a.added_tokens.len() as int)
}
pub open spec fn trie_of(l: Seq<Pair<AddedToken, int>>) -> Pair<Seq<Seq<int>>, Seq<int>> {
    Pair { first: Seq::new(l.len(), |i: int| l[i].first.content), second: Seq::new(l.len(), |i: int| l[i].second) }
}
pub open spec fn av_new() -> AddedVocabulary {
    AddedVocabulary { special_tokens: Seq::empty(), special_tokens_set: Set::empty(), added_tokens: Seq::empty(), added_tokens_map: Map::empty(), added_tokens_map_r: Map::empty(),
        split_normalized_trie: trie_of(Seq::empty()), split_non_normalized_trie: trie_of(Seq::empty()), encode_special_tokens: false }
}
// without a model there is no other vocabulary
pub open spec fn md_of(m: Option<Model>) -> Model { match m { Some(x) => x, None => Model { vocab: Map::empty(), vocab_r: Map::empty(), dyn_id: arbitrary() } } }
pub open spec fn av_refresh(a: AddedVocabulary) -> AddedVocabulary {
    AddedVocabulary { split_normalized_trie: trie_of(trie_pairs(a, true)), split_non_normalized_trie: trie_of(trie_pairs(a, false)), ..a }
}
pub open spec fn av_add(a: AddedVocabulary, ts: Seq<AddedToken>, md: Model) -> AddedVocabulary {
    let n = ts.len() as int;
    let s = sp_set(a.special_tokens_set, ts, n);
    av_refresh(AddedVocabulary { special_tokens: sp_list(a.special_tokens, a.special_tokens_set, ts, n), special_tokens_set: s,
        added_tokens: plain_list(a.added_tokens, s, ts, n), added_tokens_map: add_map(a.added_tokens_map, md, ts, n),
        added_tokens_map_r: add_rev(a.added_tokens_map_r, a.added_tokens_map, md, ts, n), ..a })
}
// ids leave room for new ones
pub open spec fn ids_fit(m: Map<Seq<int>, int>, md: Model, room: int) -> bool {
    &&& md.vocab.dom().len() + room < 0x7FFF_FFFF
    &&& forall|c: Seq<int>| #[trigger] m.dom().contains(c) ==> m[c] + room < 0x7FFF_FFFF
    &&& forall|c: Seq<int>| #[trigger] md.vocab.dom().contains(c) ==> md.vocab[c] + room < 0x7FFF_FFFF
}
// ids given earlier never change; every content of the list has an id from then on
pub proof fn lemma_add_keeps(m: Map<Seq<int>, int>, md: Model, ts: Seq<AddedToken>, k: int)
    requires 0 <= k <= ts.len()
    ensures forall|c: Seq<int>| #[trigger] m.dom().contains(c) ==> add_map(m, md, ts, k).dom().contains(c) && add_map(m, md, ts, k)[c] == m[c], forall|j: int| 0 <= j < k && (#[trigger] ts[j]).content.len() > 0 ==> add_map(m, md, ts, k).dom().contains(ts[j].content)
    decreases k
{
    if k > 0 {
        lemma_add_keeps(m, md, ts, k - 1);
        let p = add_map(m, md, ts, k - 1);
        assert forall|c: Seq<int>| #[trigger] m.dom().contains(c) implies add_map(m, md, ts, k).dom().contains(c) && add_map(m, md, ts, k)[c] == m[c] by { assert(p.dom().contains(c) && p[c] == m[c]); }
    }
}
// a content that the model knows and that was not added before keeps the model's id
pub proof fn lemma_add_model(m: Map<Seq<int>, int>, md: Model, ts: Seq<AddedToken>, k: int, c: Seq<int>)
    requires 0 <= k <= ts.len(), md.vocab.dom().contains(c), m.dom().contains(c) ==> m[c] == md.vocab[c]
    ensures add_map(m, md, ts, k).dom().contains(c) ==> add_map(m, md, ts, k)[c] == md.vocab[c]
    decreases k
{ if k > 0 { lemma_add_model(m, md, ts, k - 1, c); } }
""", only="C15,C16,C17,C23,C04,C22,C13,C25,C27")
spec(r"""
// ---- no two contents share an id; ids and entries go together ----
pub open spec fn dense(md: Model) -> bool { injective(md.vocab) && forall|c: Seq<int>| #[trigger] md.vocab.dom().contains(c) ==> 0 <= md.vocab[c] < md.vocab.dom().len() }
pub open spec fn id_place(md: Model, c: Seq<int>, id: int) -> bool { if md.vocab.dom().contains(c) { id == md.vocab[c] } else { id >= md.vocab.dom().len() } }
pub open spec fn ids_own(m: Map<Seq<int>, int>, r: Map<int, AddedToken>, md: Model) -> bool {
    &&& forall|c: Seq<int>| #[trigger] m.dom().contains(c) ==> r.dom().contains(m[c]) && r[m[c]].content == c && id_place(md, c, m[c])
    &&& forall|id: int| #[trigger] r.dom().contains(id) ==> m.dom().contains(r[id].content) && m[r[id].content] == id
}
pub proof fn lemma_add_id(m: Map<Seq<int>, int>, md: Model, c: Seq<int>)
    requires exists|id: int| is_new_id(m, md.vocab.dom().len() as int, id)
    ensures ({ let id = add_id(m, md, c); m.dom().contains(c) || md.vocab.dom().contains(c) || (id >= md.vocab.dom().len() && forall|x: Seq<int>| #[trigger] m.dom().contains(x) ==> m[x] < id) })
{ let n = md.vocab.dom().len() as int; assert(is_new_id(m, n, new_id(m, n))); }
pub proof fn lemma_has_new(m: Map<Seq<int>, int>, n: int) ensures exists|id: int| is_new_id(m, n, id)
{
    axiom_map_enum(m); let es = map_enum(m);
    let f = |a: Pair<Seq<int>, int>, b: Pair<Seq<int>, int>| a.second < b.second;
    assert(is_order(f));
    if es.len() > 0 {
        lemma_max_elt(es, f);
        let b = es[max_elt(es, f)];
        assert forall|c: Seq<int>| #[trigger] m.dom().contains(c) implies m[c] <= b.second by { let i = choose|i: int| 0 <= i < es.len() && #[trigger] es[i] == (Pair { first: c, second: m[c] }); assert(!f(b, es[i])); };
        assert(m.dom().contains(b.first));
        assert(is_new_id(m, n, if b.second >= n { b.second + 1 } else { n }));
    } else {
        assert forall|c: Seq<int>| !#[trigger] m.dom().contains(c) by { if m.dom().contains(c) { let i = choose|i: int| 0 <= i < es.len() && #[trigger] es[i] == (Pair { first: c, second: m[c] }); } };
        assert(is_new_id(m, n, n));
    }
}
pub proof fn lemma_ids_own(m: Map<Seq<int>, int>, r: Map<int, AddedToken>, md: Model, ts: Seq<AddedToken>, k: int)
    requires dense(md), ids_own(m, r, md), 0 <= k <= ts.len()
    ensures ids_own(add_map(m, md, ts, k), add_rev(r, m, md, ts, k), md) decreases k
{
    if k > 0 {
        lemma_ids_own(m, r, md, ts, k - 1);
        let p = add_map(m, md, ts, k - 1); let q = add_rev(r, m, md, ts, k - 1); let c = ts[k - 1].content;
        if c.len() > 0 {
            lemma_has_new(p, md.vocab.dom().len() as int); lemma_add_id(p, md, c);
            let id = add_id(p, md, c);
            let p1 = add_map(m, md, ts, k); let q1 = add_rev(r, m, md, ts, k);
            assert(p1 == p.insert(c, id) && q1 == q.insert(id, ts[k - 1]));
            // the id is c's own
            assert(q.dom().contains(id) ==> q[id].content == c) by {
                if q.dom().contains(id) && q[id].content != c {
                    let x = q[id].content;
                    assert(p.dom().contains(x) && p[x] == id && id_place(md, x, id));
                    if p.dom().contains(c) { assert(q[p[c]].content == c); }
                    else if md.vocab.dom().contains(c) { if md.vocab.dom().contains(x) { assert(md.vocab[x] == md.vocab[c]); } }
                }
            }
            assert forall|x: Seq<int>| #[trigger] p1.dom().contains(x) implies q1.dom().contains(p1[x]) && q1[p1[x]].content == x && id_place(md, x, p1[x]) by {
                if x != c { assert(p.dom().contains(x)); assert(p[x] == p1[x]); if p[x] == id { assert(q.dom().contains(id)); } }
                else if p.dom().contains(c) { assert(id_place(md, c, p[c])); }
            }
            assert forall|j: int| #[trigger] q1.dom().contains(j) implies p1.dom().contains(q1[j].content) && p1[q1[j].content] == j by {
                if j != id { assert(q.dom().contains(j)); let x = q[j].content; assert(p.dom().contains(x) && p[x] == j); if x == c { assert(p.dom().contains(c)); } }
            }
        }
    }
}
pub open spec fn av_own(a: AddedVocabulary, md: Model) -> bool { ids_own(a.added_tokens_map, a.added_tokens_map_r, md) }
pub proof fn lemma_av_own(a: AddedVocabulary, ts: Seq<AddedToken>, md: Model) requires dense(md), av_own(a, md) ensures av_own(av_add(a, ts, md), md)
{ lemma_ids_own(a.added_tokens_map, a.added_tokens_map_r, md, ts, ts.len() as int); }
""", only="C15,C27")
MAXID = r"""let m = $this.added_tokens_map; let n = md_of($model).vocab.dom().len() as int; axiom_map_enum(m); let f = #clo0; let es = map_enum(m);
    assert(is_order(f));
    if es.len() > 0 {
        lemma_max_elt(es, f);
        let b = es[max_elt(es, f)];
        assert forall|c: Seq<int>| #[trigger] m.dom().contains(c) implies m[c] <= b.second by { let i = choose|i: int| 0 <= i < es.len() && #[trigger] es[i] == (Pair { first: c, second: m[c] }); assert(!f(b, es[i])); };
        assert(m.dom().contains(b.first));
        lemma_new_id(m, n, if b.second >= n { b.second + 1 } else { n });
    } else {
        assert forall|c: Seq<int>| !#[trigger] m.dom().contains(c) by { if m.dom().contains(c) { let i = choose|i: int| 0 <= i < es.len() && #[trigger] es[i] == (Pair { first: c, second: m[c] }); } };
        lemma_new_id(m, n, n);
    }"""
OWN = "dense(md_of($model)) && av_own($this, md_of($model)) ==> av_own($this', md_of($model))"
OWNH = [("C15", "if dense(md_of($model)) && av_own($0this, md_of($model)) { lemma_av_own($0this, $tokens, md_of($model)); }")]
fn("AddedVocabulary::refresh_added_tokens", mut=["this"], props="C15,C16,C17", ensures={"*:tries": "$this' =~~= av_refresh($this)"},
   loops=[dict(inv=["$this == $0this", "$normalized =~~= pairs_k($this.added_tokens_map, $this.special_tokens, true, #i)", "$non_normalized =~~= pairs_k($this.added_tokens_map, $this.special_tokens, false, #i)"]),
          dict(inv=["$this == $0this", "$normalized =~~= pairs_k($this.added_tokens_map, $this.special_tokens, true, $this.special_tokens.len() as int) + pairs_k($this.added_tokens_map, $this.added_tokens, true, #i)",
                    "$non_normalized =~~= pairs_k($this.added_tokens_map, $this.special_tokens, false, $this.special_tokens.len() as int) + pairs_k($this.added_tokens_map, $this.added_tokens, false, #i)"]),
          dict(inv=["$normalized == trie_pairs($0this, true)", "$normalized_tokens =~~= trie_of($normalized).first.take(#i)", "$normalized_ids =~~= trie_of($normalized).second.take(#i)"]),
          dict(inv=["$non_normalized == trie_pairs($0this, false)", "$non_normalized_tokens =~~= trie_of($non_normalized).first.take(#i)", "$non_normalized_ids =~~= trie_of($non_normalized).second.take(#i)"])])
fn("AddedVocabulary::add_tokens", mut=["this"], requires=["ids_fit($this.added_tokens_map, md_of($model), $tokens.len() as int)"],
   ensures={"*:state": "$this' =~~= av_add($this, $tokens, md_of($model))", "*:count": "$r == nonempty($tokens, $tokens.len() as int)", "C15:own": OWN}, props="C15,C16,C17",
   loops=[dict(inv=["$this =~~= (AddedVocabulary { special_tokens: sp_list($0this.special_tokens, $0this.special_tokens_set, $tokens, #i), special_tokens_set: sp_set($0this.special_tokens_set, $tokens, #i), ..$0this })"]),
          dict(before="@let t1 = $this;",
               inv=["$this =~~= (AddedVocabulary { added_tokens: plain_list($0this.added_tokens, #t1.special_tokens_set, $tokens, #i), added_tokens_map: add_map($0this.added_tokens_map, md_of($model), $tokens, #i), added_tokens_map_r: add_rev($0this.added_tokens_map_r, $0this.added_tokens_map, md_of($model), $tokens, #i), ..#t1 })",
                    "ids_fit($this.added_tokens_map, md_of($model), $tokens.len() - #i)", "$ignored == #i - nonempty($tokens, #i)", "0 <= $ignored", "$ignored <= #i"])],
   hints={"decl max_val_token": MAXID, "return": OWNH})
fn("AddedVocabulary::add_special_tokens", mut=["this"], requires=["ids_fit($this.added_tokens_map, md_of($model), $tokens.len() as int)"],
   ensures={"*:state": "$this' =~~= av_add($this, $tokens, md_of($model))", "*:count": "$r == nonempty($tokens, $tokens.len() as int)", "C15:own": OWN}, props="C15,C16,C17")
# ---- finding added tokens (C16) ----
spec(r"""
// @icu u_isUWhiteSpace
// @icu u_charType
pub type Occ = Tup3<int, int, int>;
pub type Pc = Pair<Option<int>, Pair<int, int>>;
pub open spec fn us(ws: Seq<Seq<int>>) -> Seq<Seq<int>> { Seq::new(ws.len(), |i: int| u_from8(ws[i])) }
// word i stands at position c of u
pub open spec fn at_word(u: Seq<int>, w: Seq<int>, c: int) -> bool { u_sub(u, c, w.len() as int) =~= w }
// the longest of the first k words that stand at c, the first one of them, as (length, index); length 0: none
pub open spec fn longest(u: Seq<int>, ws: Seq<Seq<int>>, c: int, k: int) -> Pair<int, int> decreases k {
    if k <= 0 { Pair { first: 0int, second: 0int } } else {
        let p = longest(u, ws, c, k - 1);
        if ws[k - 1].len() > p.first && at_word(u, ws[k - 1], c) { Pair { first: ws[k - 1].len() as int, second: k - 1 } } else { p }
    }
}
pub proof fn lemma_longest(u: Seq<int>, ws: Seq<Seq<int>>, c: int, k: int)
    requires 0 <= c < u.len(), 0 <= k <= ws.len()
    ensures ({ let p = longest(u, ws, c, k); &&& p.first >= 0
        &&& p.first > 0 ==> 0 <= p.second < k && ws[p.second].len() == p.first && at_word(u, ws[p.second], c) && c + p.first <= u.len()
        &&& forall|i: int| 0 <= i < k && at_word(u, #[trigger] ws[i], c) ==> ws[i].len() <= p.first })
    decreases k
{ if k > 0 { lemma_longest(u, ws, c, k - 1); } }
pub open spec fn lg_id(ids: Seq<int>, p: Pair<int, int>) -> int { if p.first > 0 { ids[p.second] } else { 0 } }
// the leftmost-longest occurrences from c on
pub open spec fn occs(u: Seq<int>, ws: Seq<Seq<int>>, ids: Seq<int>, c: int) -> Seq<Occ> decreases u.len() - c {
    let p = longest(u, ws, c, ws.len() as int);
    if c >= u.len() || c < 0 { Seq::empty() }
    else if p.first > 0 && c + p.first <= u.len() { seq![Tup3 { t0: c, t1: c + p.first, t2: ids[p.second] }] + occs(u, ws, ids, c + p.first) }
    else { occs(u, ws, ids, c + 1) }
}
pub open spec fn is_word(c: int) -> bool { u_hasBinaryProperty(c, 0) != 0 || u_charType(c) == 6 || u_charType(c) == 7 || u_charType(c) == 8 || u_charType(c) == 9 || u_charType(c) == 22 }
pub open spec fn end_word(u: Seq<int>) -> bool { u.len() > 0 && is_word(u_at32(u, u.len() - 1)) }
pub open spec fn start_word(u: Seq<int>) -> bool { u.len() > 0 && is_word(u_at32(u, 0)) }
pub open spec fn left_sp(u: Seq<int>, k: int) -> int decreases k { if k > 0 && u_isUWhiteSpace(u_at(u, k - 1)) != 0 { left_sp(u, k - 1) } else { k } }
pub open spec fn right_sp(u: Seq<int>, k: int) -> int decreases u.len() - k { if k < u.len() && u_isUWhiteSpace(u_at(u, k)) != 0 { right_sp(u, k + 1) } else { k } }
pub proof fn lemma_sp(u: Seq<int>, k: int) requires 0 <= k <= u.len() ensures 0 <= left_sp(u, k) <= k decreases k { if k > 0 { lemma_sp(u, k - 1); } }
pub proof fn lemma_rsp(u: Seq<int>, k: int) requires 0 <= k <= u.len() ensures k <= right_sp(u, k) <= u.len() decreases u.len() - k { if k < u.len() { lemma_rsp(u, k + 1); } }
// whether an occurrence becomes a segment
pub open spec fn taken(a: AddedVocabulary, u: Seq<int>, m: Occ, so: int) -> bool {
    let t = a.added_tokens_map_r[m.t2];
    &&& m.t0 >= so
    &&& !(a.encode_special_tokens && a.special_tokens_set.contains(t.content))
    &&& t.single_word ==> !end_word(u_sub(u, 0, m.t0)) && !start_word(u_sub(u, m.t1, u.len() as int))
}
pub open spec fn seg_start(a: AddedVocabulary, u: Seq<int>, m: Occ, so: int) -> int {
    if a.added_tokens_map_r[m.t2].lstrip { imax(left_sp(u_sub(u, 0, m.t0), slen(u_sub(u, 0, m.t0))), so) } else { m.t0 }
}
pub open spec fn seg_stop(a: AddedVocabulary, u: Seq<int>, m: Occ) -> int {
    if a.added_tokens_map_r[m.t2].rstrip { m.t1 + right_sp(u_sub(u, m.t1, u.len() as int), 0) } else { m.t1 }
}
pub open spec fn pc(id: Option<int>, a: int, b: int) -> Pc { Pair { first: id, second: Pair { first: a, second: b } } }
// the end of the last segment after k occurrences, and the segments
pub open spec fn so_k(a: AddedVocabulary, u: Seq<int>, ms: Seq<Occ>, k: int) -> int decreases k {
    if k <= 0 { 0 } else if taken(a, u, ms[k - 1], so_k(a, u, ms, k - 1)) { seg_stop(a, u, ms[k - 1]) } else { so_k(a, u, ms, k - 1) }
}
pub open spec fn seg_step(a: AddedVocabulary, u: Seq<int>, m: Occ, so: int, p: Seq<Pc>) -> Seq<Pc> {
    if !taken(a, u, m, so) { p }
    else { (if so < seg_start(a, u, m, so) { p.push(pc(None, so, seg_start(a, u, m, so))) } else { p }).push(pc(Some(m.t2), seg_start(a, u, m, so), seg_stop(a, u, m))) }
}
pub open spec fn seg_k(a: AddedVocabulary, u: Seq<int>, ms: Seq<Occ>, k: int) -> Seq<Pc> decreases k {
    if k <= 0 { Seq::empty() } else { seg_step(a, u, ms[k - 1], so_k(a, u, ms, k - 1), seg_k(a, u, ms, k - 1)) }
}
pub open spec fn segs(a: AddedVocabulary, u: Seq<int>, ms: Seq<Occ>) -> Seq<Pc> {
    let n = ms.len() as int;
    if so_k(a, u, ms, n) != u.len() { seg_k(a, u, ms, n).push(pc(None, so_k(a, u, ms, n), u.len() as int)) } else { seg_k(a, u, ms, n) }
}
// in characters
pub open spec fn to_chars(u: Seq<int>, p: Pc) -> Pc { pc(p.first, u_count32(u_sub(u, 0, p.second.first)), u_count32(u_sub(u, 0, p.second.second))) }
pub open spec fn am_units(a: AddedVocabulary, u: Seq<int>, t: Pair<Seq<Seq<int>>, Seq<int>>) -> Seq<Pc> { segs(a, u, occs(u, us(t.first), t.second, 0)) }
pub open spec fn am(a: AddedVocabulary, u: Seq<int>, t: Pair<Seq<Seq<int>>, Seq<int>>) -> Seq<Pc> { Seq::new(am_units(a, u, t).len(), |i: int| to_chars(u, am_units(a, u, t)[i])) }
// every id that is searched for is one of an added token
pub open spec fn trie_ok(a: AddedVocabulary, t: Pair<Seq<Seq<int>>, Seq<int>>) -> bool {
    t.first.len() == t.second.len() && forall|i: int| 0 <= i < t.second.len() ==> a.added_tokens_map_r.dom().contains(#[trigger] t.second[i])
}
pub proof fn lemma_occs(u: Seq<int>, ws: Seq<Seq<int>>, ids: Seq<int>, c: int, j: int)
    requires 0 <= c, ws.len() == ids.len(), 0 <= j < occs(u, ws, ids, c).len()
    ensures ({ let m = occs(u, ws, ids, c)[j]; &&& c <= m.t0 < m.t1 <= u.len()
        &&& (j > 0 ==> occs(u, ws, ids, c)[j - 1].t1 <= m.t0)
        &&& (exists|i: int| 0 <= i < ws.len() && #[trigger] ids[i] == m.t2 && at_word(u, ws[i], m.t0) && ws[i].len() == m.t1 - m.t0) })
    decreases u.len() - c
{
    if c < u.len() {
        let p = longest(u, ws, c, ws.len() as int);
        lemma_longest(u, ws, c, ws.len() as int);
        if p.first > 0 {
            let r = occs(u, ws, ids, c + p.first);
            let s = seq![Tup3 { t0: c, t1: c + p.first, t2: ids[p.second] }];
            assert(occs(u, ws, ids, c) == s + r);
            if j > 0 { lemma_occs(u, ws, ids, c + p.first, j - 1); assert((s + r)[j] == r[j - 1]); if j > 1 { assert((s + r)[j - 1] == r[j - 2]); } }
            else { assert((s + r)[0] == s[0]); assert(ids[p.second] == s[0].t2); }
        } else { lemma_occs(u, ws, ids, c + 1, j); }
    }
}
// segments without gap or overlap from a to b
pub open spec fn seg_tiles(ps: Seq<Pc>, a: int, b: int) -> bool decreases ps.len() {
    if ps.len() == 0 { a == b } else { seg_tiles(ps.drop_last(), a, ps.last().second.first) && ps.last().second.first < ps.last().second.second && ps.last().second.second == b }
}
pub proof fn lemma_seg_k(a: AddedVocabulary, u: Seq<int>, t: Pair<Seq<Seq<int>>, Seq<int>>, k: int)
    requires trie_ok(a, t), 0 <= k <= occs(u, us(t.first), t.second, 0).len()
    ensures ({ let ms = occs(u, us(t.first), t.second, 0); seg_tiles(seg_k(a, u, ms, k), 0, so_k(a, u, ms, k)) && 0 <= so_k(a, u, ms, k) <= u.len() })
    decreases k
{
    let ms = occs(u, us(t.first), t.second, 0);
    if k > 0 {
        lemma_seg_k(a, u, t, k - 1);
        lemma_occs(u, us(t.first), t.second, 0, k - 1);
        let so = so_k(a, u, ms, k - 1);
        let m = ms[k - 1];
        if taken(a, u, m, so) {
            lemma_sp(u_sub(u, 0, m.t0), slen(u_sub(u, 0, m.t0)));
            lemma_rsp(u_sub(u, m.t1, u.len() as int), 0);
            let p = seg_k(a, u, ms, k - 1);
            let s = seg_start(a, u, m, so);
            let q = if so < s { p.push(pc(None, so, s)) } else { p };
            assert(p.push(pc(None, so, s)).drop_last() =~= p);
            assert(seg_tiles(q, 0, s));
            assert(q.push(pc(Some(m.t2), s, seg_stop(a, u, m))).drop_last() =~= q);
        }
    }
}
// the segments are the whole text
pub proof fn lemma_segs(a: AddedVocabulary, u: Seq<int>, t: Pair<Seq<Seq<int>>, Seq<int>>)
    requires trie_ok(a, t) ensures seg_tiles(am_units(a, u, t), 0, u.len() as int)
{
    let ms = occs(u, us(t.first), t.second, 0);
    lemma_seg_k(a, u, t, ms.len() as int);
    assert(seg_k(a, u, ms, ms.len() as int).push(pc(None, so_k(a, u, ms, ms.len() as int), u.len() as int)).drop_last() =~= seg_k(a, u, ms, ms.len() as int));
}
pub proof fn lemma_gc_bits(k: int)
    requires 0 <= k < 30 ensures (band(shl(1, k), 0x4003C0) != 0) == (k == 6 || k == 7 || k == 8 || k == 9 || k == 22)
{
    let x = k as u64;
    assert(x < 30 ==> ((1u64 << x) & 0x4003C0 != 0) == (x == 6 || x == 7 || x == 8 || x == 9 || x == 22)) by (bit_vector);
}
""", only="C16,C22,C23,C04,C13,C27")
trust("u_charType gives one of the 30 general categories", only="C16,C22,C23,C04,C13,C27")
fn("is_word_char", hints={"entry": "axiom_charType($c); lemma_gc_bits(u_charType($c));"}, spec="is_word($c)", total=True, props="C16")
fn("ends_with_word", spec="end_word($sentence)", total=True, props="C16")
fn("starts_with_word", spec="start_word($sentence)", total=True, props="C16")
fn("space_leftmost_at_end", spec="left_sp($sentence, slen($sentence))", total=True, props="C16",
   loops=[dict(inv=["0 <= $start <= $sentence.len()", "left_sp($sentence, $start) == left_sp($sentence, slen($sentence))"], dec="imax(0, $start)")])
fn("space_rightmost_at_start", spec="right_sp($sentence, 0)", total=True, props="C16",
   loops=[dict(inv=["0 <= $stop <= $sentence.len()", "right_sp($sentence, $stop) == right_sp($sentence, 0)"], dec="imax(0, slen($sentence) - $stop)")])
fn("AddedVocabulary::find_matches", mut=["this"], requires=["trie_ok($this, $split_re)"], props="C16",
   ensures={"*:same": "$this' == $this", "*:segments": "$r =~~= am($this, u_from8($sentence), $split_re)"},
   loops=[dict(inv=["$words =~= us($split_re.first).take(#i)"]),
          dict(before="@let u = u_from8($sentence); @let ws = us($split_re.first); @let ids = $split_re.second; assert($words =~= #ws);",
               inv=["0 <= $cur <= #u.len()", "$matches + occs(#u, #ws, #ids, $cur) =~= occs(#u, #ws, #ids, 0)", "$words == #ws"],
               dec="imax(0, slen(#u) - $cur)", head="@let c0 = $cur; @let m0 = $matches; lemma_longest(#u, #ws, $cur, #ws.len() as int);", after="@let ms = $matches; assert(#ms =~= occs(#u, #ws, #ids, 0));"),
          dict(inv=["$longest == longest(#u, #ws, $cur, $i).first", "$longest_id == lg_id(#ids, longest(#u, #ws, $cur, $i))", "$words == #ws"], dec="imax(0, slen($words) - $i)", head="lemma_longest(#u, #ws, $cur, $i);"),
          dict(inv=["$this == $0this", "$start_offset == so_k($this, #u, #ms, #i)", "$result =~= seg_k($this, #u, #ms, #i)"],
               head="lemma_seg_k($this, #u, $split_re, #i); lemma_occs(#u, #ws, #ids, 0, #i); lemma_sp(u_sub(#u, 0, #ms[#i].t0), slen(u_sub(#u, 0, #ms[#i].t0))); lemma_rsp(u_sub(#u, #ms[#i].t1, slen(#u)), 0);"),
          dict(before="@let sg = $result; assert(#sg =~= am_units($this, #u, $split_re));",
               inv=["$result =~= Seq::new(#sg.len(), |j: int| if j < #i { to_chars(#u, #sg[j]) } else { #sg[j] })"])])
spec(r"""
// uses: norm seq pre_tokenizer
// @virt Normalizer::normalize
// consecutive ranges from a to b
pub open spec fn ppos(ps: Seq<Pc>, i: int, b: int) -> int { if i < ps.len() { ps[i].second.first } else { b } }
pub open spec fn plink(ps: Seq<Pc>, i: int, b: int) -> bool { ps[i].second.first <= ps[i].second.second && ps[i].second.second == ppos(ps, i + 1, b) }
pub open spec fn pchain(ps: Seq<Pc>, a: int, b: int) -> bool { ppos(ps, 0, b) == a && forall|i: int| 0 <= i < ps.len() ==> #[trigger] plink(ps, i, b) }
pub proof fn lemma_tiles_chain(ps: Seq<Pc>, a: int, b: int)
    requires seg_tiles(ps, a, b) ensures pchain(ps, a, b), ps.len() > 0 ==> a < b, a <= b decreases ps.len()
{
    if ps.len() > 0 {
        let q = ps.drop_last();
        let e = ps.last().second.first;
        lemma_tiles_chain(q, a, e);
        if q.len() > 0 { assert(plink(q, 0, e)); }
        assert forall|i: int| 0 <= i < ps.len() implies #[trigger] plink(ps, i, b) by { if i < q.len() { assert(plink(q, i, e)); } }
    }
}
pub proof fn lemma_chain_in(ps: Seq<Pc>, a: int, b: int, i: int)
    requires pchain(ps, a, b), 0 <= i <= ps.len() ensures a <= ppos(ps, i, b) decreases i
{ if i > 0 { lemma_chain_in(ps, a, b, i - 1); assert(plink(ps, i - 1, b)); } }
pub proof fn lemma_chain_le(ps: Seq<Pc>, a: int, b: int, i: int)
    requires pchain(ps, a, b), 0 <= i <= ps.len() ensures ppos(ps, i, b) <= b decreases ps.len() - i
{ if i < ps.len() { lemma_chain_le(ps, a, b, i + 1); assert(plink(ps, i, b)); } }
// the segments of a text are consecutive and make it up
pub proof fn lemma_am(a: AddedVocabulary, w: Seq<int>, t: Pair<Seq<Seq<int>>, Seq<int>>)
    requires trie_ok(a, t), scalars(w)
    ensures pchain(am(a, u_from8(w_to8(w)), t), 0, w.len() as int), am(a, u_from8(w_to8(w)), t).len() == 0 ==> w.len() == 0
{
    axiom_w_u(w);
    lemma_count_from32(w);
    let u = u_from32(w);
    let us_ = am_units(a, u, t);
    let ps = am(a, u, t);
    let n = u.len() as int;
    lemma_segs(a, u, t);
    lemma_tiles_chain(us_, 0, n);
    assert(u.take(n) =~= u);
    assert(u.take(0) =~= Seq::<int>::empty());
    assert forall|i: int| 0 <= i < ps.len() implies #[trigger] plink(ps, i, w.len() as int) by {
        assert(plink(us_, i, n));
        lemma_chain_in(us_, 0, n, i); lemma_chain_le(us_, 0, n, i);
        lemma_chain_in(us_, 0, n, i + 1); lemma_chain_le(us_, 0, n, i + 1);
        lemma_count_mono(u, us_[i].second.first, us_[i].second.second);
        assert(u_sub(u, 0, us_[i].second.first) =~= u.take(us_[i].second.first));
        assert(u_sub(u, 0, us_[i].second.second) =~= u.take(us_[i].second.second));
    }
    if ps.len() > 0 { assert(plink(us_, 0, n)); assert(u_sub(u, 0, 0) =~= u.take(0)); }
}
// ---- the splits that the segments become ----
pub open spec fn seg_split(w: Seq<int>, p: Pc, base: int) -> Split {
    let t = w_to8(ssub(w, p.second.first, p.second.second - p.second.first));
    Split { normalized: t, offsets: Pair { first: p.second.first + base, second: p.second.second + base },
        tokens: match p.first { Some(id) => seq![Token { id: id, value: t, offsets: Pair { first: 0int, second: p.second.second - p.second.first } }], None => Seq::empty() } }
}
pub open spec fn seg_splits(w: Seq<int>, ps: Seq<Pc>, base: int, k: int) -> Seq<Split> { Seq::new(if k > 0 { k as nat } else { 0 }, |i: int| seg_split(w, ps[i], base)) }
pub open spec fn ex1(a: AddedVocabulary, w: Seq<int>) -> Seq<Split> {
    let ps = am(a, u_from8(w_to8(w)), a.split_non_normalized_trie);
    if ps.len() > 0 { seg_splits(w, ps, 0, ps.len() as int) } else { whole(fresh(w)).splits }
}
pub open spec fn nsub(nz: Option<Normalizer>, t: Seq<int>) -> NormalizedString { match nz { Some(n) => virt_Normalizer_normalize(n, fresh(w_from8(t))), None => fresh(w_from8(t)) } }
pub type ExSt = Tup3<NormalizedString, Seq<Split>, int>;
pub open spec fn ex_step(a: AddedVocabulary, nz: Option<Normalizer>, p: ExSt, s: Split) -> ExSt {
    let len = s.offsets.second - s.offsets.first;
    if s.tokens.len() > 0 { Tup3 { t0: p.t0, t1: p.t1.push(Split { offsets: Pair { first: p.t2, second: p.t2 + len }, ..s }), t2: p.t2 + len } }
    else {
        let m = nsub(nz, s.normalized);
        let ps = am(a, u_from8(w_to8(m.normalized)), a.split_normalized_trie);
        Tup3 { t0: tr_range(p.t0, p.t2, p.t2 + len, m), t1: p.t1 + seg_splits(m.normalized, ps, p.t2, ps.len() as int), t2: p.t2 + m.normalized.len() }
    }
}
pub open spec fn ex_st(a: AddedVocabulary, nz: Option<Normalizer>, w: Seq<int>, k: int) -> ExSt decreases k {
    if k <= 0 { Tup3 { t0: fresh(w), t1: Seq::empty(), t2: 0 } } else { ex_step(a, nz, ex_st(a, nz, w, k - 1), ex1(a, w)[k - 1]) }
}
pub open spec fn ex_all(a: AddedVocabulary, nz: Option<Normalizer>, w: Seq<int>) -> PreTokenizedString {
    let s = ex_st(a, nz, w, ex1(a, w).len() as int);
    PreTokenizedString { normalized: s.t0, splits: s.t1 }
}
// ---- what is true of them: consecutive pieces of the text, tokens over whole pieces ----
pub open spec fn piece_ok(s: Split, w: Seq<int>) -> bool {
    &&& 0 <= s.offsets.first <= s.offsets.second <= w.len()
    &&& s.normalized == w_to8(w.subrange(s.offsets.first, s.offsets.second))
    &&& s.tokens.len() > 0 ==> s.tokens.len() == 1 && s.tokens[0].value == s.normalized && s.tokens[0].offsets == (Pair { first: 0int, second: s.offsets.second - s.offsets.first })
}
pub open spec fn spos(ss: Seq<Split>, i: int, b: int) -> int { if i < ss.len() { ss[i].offsets.first } else { b } }
pub open spec fn sgood(ss: Seq<Split>, w: Seq<int>, i: int, b: int) -> bool { piece_ok(ss[i], w) && ss[i].offsets.second == spos(ss, i + 1, b) }
// the splits are consecutive pieces that make up the first b characters of w
pub open spec fn pieces(ss: Seq<Split>, w: Seq<int>, b: int) -> bool { 0 <= b <= w.len() && spos(ss, 0, b) == 0 && forall|i: int| 0 <= i < ss.len() ==> #[trigger] sgood(ss, w, i, b) }
pub proof fn lemma_ex1(a: AddedVocabulary, w: Seq<int>)
    requires trie_ok(a, a.split_non_normalized_trie), scalars(w)
    ensures pieces(ex1(a, w), w, w.len() as int), ex1(a, w).len() > 0
{
    let t = a.split_non_normalized_trie;
    let ps = am(a, u_from8(w_to8(w)), t);
    let n = w.len() as int;
    lemma_am(a, w, t);
    let ss = ex1(a, w);
    if ps.len() > 0 {
        assert forall|i: int| 0 <= i < ss.len() implies #[trigger] sgood(ss, w, i, n) by {
            assert(plink(ps, i, n)); lemma_chain_in(ps, 0, n, i); lemma_chain_le(ps, 0, n, i + 1);
            assert(ssub(w, ps[i].second.first, ps[i].second.second - ps[i].second.first) =~= w.subrange(ps[i].second.first, ps[i].second.second));
        }
        assert(plink(ps, 0, n));
    } else { assert(w.subrange(0, n) =~= w); assert(sgood(ss, w, 0, n)); }
}
""", only="C16,C22,C23,C04,C13,C27")

spec(r"""
pub open spec fn nz_ok(nz: Option<Normalizer>) -> bool { nz.is_some() ==> keeps_tables(nz) }
pub open spec fn av_ready(a: AddedVocabulary) -> bool { trie_ok(a, a.split_non_normalized_trie) && trie_ok(a, a.split_normalized_trie) }
pub proof fn lemma_sub_scalars(w: Seq<int>, i: int, j: int) requires scalars(w), 0 <= i <= j <= w.len() ensures scalars(w.subrange(i, j)) {}
pub proof fn lemma_nsub(nz: Option<Normalizer>, w: Seq<int>)
    requires scalars(w), nz_ok(nz)
    ensures ({ let m = nsub(nz, w_to8(w)); good_text(m) && ok_al(al(m), w.len() as int) }), w_from8(w_to8(w)) == w, w8_ok(w_to8(w))
{
    axiom_w_to8(w);
    lemma_fresh_wf(w);
    if nz.is_some() { assert(norm_ok(fresh(w), virt_Normalizer_normalize(nz->0, fresh(w)))); }
}
pub open spec fn ex_good(a: AddedVocabulary, w: Seq<int>, k: int, s: ExSt) -> bool {
    &&& good_text(s.t0)
    &&& pieces(s.t1, s.t0.normalized, s.t2)
    &&& s.t0.normalized.len() == s.t2 + w.len() - spos(ex1(a, w), k, w.len() as int)
    &&& s.t0.normalized.skip(s.t2) =~= w.skip(spos(ex1(a, w), k, w.len() as int))
}
pub proof fn lemma_pieces_end(ss: Seq<Split>, w: Seq<int>, b: int) requires pieces(ss, w, b), ss.len() > 0 ensures ss.last().offsets.second == b { assert(sgood(ss, w, ss.len() - 1, b)); }
pub proof fn lemma_spos(ss: Seq<Split>, w: Seq<int>, b: int, i: int) requires pieces(ss, w, b), 0 <= i <= ss.len() ensures 0 <= spos(ss, i, b) <= b decreases ss.len() - i
{ if i < ss.len() { lemma_spos(ss, w, b, i + 1); assert(sgood(ss, w, i, b)); } }
// pieces of a text are pieces of every text that begins with the same characters; more pieces follow
pub proof fn lemma_pieces_app(ss: Seq<Split>, w: Seq<int>, b: int, ts: Seq<Split>, v: Seq<int>, c: int)
    requires pieces(ss, w, b), b <= c <= v.len(), v.take(b) =~= w.take(b), spos(ts, 0, c) == b,
        forall|i: int| 0 <= i < ts.len() ==> #[trigger] sgood(ts, v, i, c)
    ensures pieces(ss + ts, v, c)
{
    let r = ss + ts;
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] sgood(r, v, i, c) by {
        if i < ss.len() {
            assert(sgood(ss, w, i, b)); lemma_spos(ss, w, b, i + 1);
            let s = ss[i];
            assert(v.subrange(s.offsets.first, s.offsets.second) =~= v.take(b).subrange(s.offsets.first, s.offsets.second));
            assert(w.subrange(s.offsets.first, s.offsets.second) =~= w.take(b).subrange(s.offsets.first, s.offsets.second));
        } else { assert(sgood(ts, v, i - ss.len(), c)); assert(r[i] == ts[i - ss.len()]); }
    }
    if ss.len() > 0 { assert(sgood(ss, w, 0, b)); }
}
pub proof fn lemma_ex_step(a: AddedVocabulary, nz: Option<Normalizer>, w: Seq<int>, k: int, p: ExSt)
    requires av_ready(a), nz_ok(nz), scalars(w), 0 <= k < ex1(a, w).len(), ex_good(a, w, k, p)
    ensures ex_good(a, w, k + 1, ex_step(a, nz, p, ex1(a, w)[k])),
        ({ let s = ex1(a, w)[k]; 0 <= s.offsets.first <= s.offsets.second <= w.len() && s.normalized == w_to8(w.subrange(s.offsets.first, s.offsets.second)) && scalars(w.subrange(s.offsets.first, s.offsets.second))
            && p.t2 >= 0 && p.t2 + s.offsets.second - s.offsets.first <= p.t0.normalized.len() })
{
    let ss = ex1(a, w);
    let n = w.len() as int;
    lemma_ex1(a, w);
    let s = ss[k];
    assert(sgood(ss, w, k, n));
    lemma_spos(ss, w, n, k); lemma_spos(ss, w, n, k + 1);
    let x = s.offsets.first; let y = s.offsets.second; let len = y - x;
    let e = p.t2;
    let v = p.t0.normalized;
    lemma_sub_scalars(w, x, y);
    let q = ex_step(a, nz, p, s);
    assert(v.skip(e).skip(len) =~= v.skip(e + len)); assert(w.skip(x).skip(len) =~= w.skip(y));
    assert(v.skip(e + len) == w.skip(y));
    if s.tokens.len() > 0 {
        let t = Split { offsets: Pair { first: e, second: e + len }, ..s };
        assert(v.skip(e).take(len) =~= v.subrange(e, e + len)); assert(w.skip(x).take(len) =~= w.subrange(x, y));
        let ts = seq![t];
        assert(sgood(ts, v, 0, e + len));
        lemma_pieces_app(p.t1, v, e, ts, v, e + len);
        assert(p.t1.push(t) =~= p.t1 + ts);
        assert(q.t0.normalized.skip(q.t2) =~= w.skip(y));
    } else {
        let m = nsub(nz, s.normalized);
        lemma_nsub(nz, w.subrange(x, y));
        let ps = am(a, u_from8(w_to8(m.normalized)), a.split_normalized_trie);
        lemma_am(a, m.normalized, a.split_normalized_trie);
        let z = q.t0.normalized;
        let l = m.normalized.len() as int;
        lemma_tr_range(p.t0, e, e + len, m);
        assert(z =~= v.take(e) + m.normalized + v.skip(e + len));
        assert(z.take(e) =~= v.take(e));
        assert(z.skip(e + l) =~= w.skip(y));
        assert forall|i: int| 0 <= i < z.len() implies is_scalar(#[trigger] z[i]) by { if i < e { assert(is_scalar(v[i])); } else if i < e + l { assert(is_scalar(m.normalized[i - e])); } else { assert(is_scalar(w[i - e - l + y])); } }
        let ts = seg_splits(m.normalized, ps, e, ps.len() as int);
        assert forall|i: int| 0 <= i < ts.len() implies #[trigger] sgood(ts, z, i, e + l) by {
            assert(plink(ps, i, l)); lemma_chain_in(ps, 0, l, i); lemma_chain_le(ps, 0, l, i + 1);
            let f = ps[i].second.first; let g = ps[i].second.second;
            assert(ssub(m.normalized, f, g - f) =~= m.normalized.subrange(f, g));
            assert(z.subrange(e + f, e + g) =~= m.normalized.subrange(f, g));
        }
        if ts.len() > 0 { assert(plink(ps, 0, l)); }
        lemma_pieces_app(p.t1, v, e, ts, z, e + l);
    }
}
pub proof fn lemma_ex_st(a: AddedVocabulary, nz: Option<Normalizer>, w: Seq<int>, k: int)
    requires av_ready(a), nz_ok(nz), scalars(w), 0 <= k <= ex1(a, w).len()
    ensures ex_good(a, w, k, ex_st(a, nz, w, k)) decreases k
{
    if k > 0 { lemma_ex_st(a, nz, w, k - 1); lemma_ex_step(a, nz, w, k - 1, ex_st(a, nz, w, k - 1)); }
    else { lemma_fresh_wf(w); lemma_ex1(a, w); assert(sgood(ex1(a, w), w, 0, w.len() as int)); assert(w.skip(0) =~= w); }
}
""", only="C16,C22,C23,C04,C13,C27")
spec(r"""
// uses: model
// ---- C22: what is extracted is in order, and the text stays aligned ----
pub proof fn lemma_count_strict(u: Seq<int>, i: int, x: int, j: int)
    requires u_ok(u), 0 <= i <= x < j <= u.len(), u_bound(u, x) ensures u_count32(u.take(i)) < u_count32(u.take(j))
{
    lemma_count_mono(u, i, x);
    lemma_ok_cut(u, x);
    let b = u.subrange(x, j);
    assert(u.take(j) =~= u.take(x) + b);
    lemma_count_cat(u.take(x), b);
    if b.len() >= 2 { lemma_count_nonneg(b.subrange(2, b.len() as int)); }
    lemma_count_nonneg(b.subrange(1, b.len() as int));
}
// a token's segment holds the first unit of a character
pub open spec fn seg_full(u: Seq<int>, p: Pc) -> bool { p.first.is_some() ==> exists|x: int| p.second.first <= x < p.second.second && #[trigger] u_bound(u, x) }
pub proof fn lemma_seg_full(a: AddedVocabulary, u: Seq<int>, t: Pair<Seq<Seq<int>>, Seq<int>>, k: int)
    requires trie_ok(a, t), 0 <= k <= occs(u, us(t.first), t.second, 0).len()
    ensures ({ let q = seg_k(a, u, occs(u, us(t.first), t.second, 0), k); forall|i: int| 0 <= i < q.len() ==> seg_full(u, #[trigger] q[i]) })
    decreases k
{
    let ms = occs(u, us(t.first), t.second, 0);
    if k > 0 {
        lemma_seg_full(a, u, t, k - 1);
        let m = ms[k - 1]; let so = so_k(a, u, ms, k - 1);
        lemma_occs(u, us(t.first), t.second, 0, k - 1);
        if taken(a, u, m, so) {
            lemma_sp(u_sub(u, 0, m.t0), slen(u_sub(u, 0, m.t0)));
            lemma_rsp(u_sub(u, m.t1, u.len() as int), 0);
            let i = choose|i: int| 0 <= i < t.second.len() && #[trigger] t.second[i] == m.t2 && at_word(u, us(t.first)[i], m.t0) && us(t.first)[i].len() == m.t1 - m.t0;
            let w = us(t.first)[i];
            axiom_u_wf(t.first[i]);
            assert(u_ok(w));
            assert(u_sub(u, m.t0, w.len() as int)[0] == w[0]);
            assert(u[m.t0] == w[0]);
            assert(u_bound(u, m.t0));
            let p = seg_k(a, u, ms, k - 1); let r = seg_k(a, u, ms, k);
            assert(seg_full(u, r.last()));
            assert forall|j: int| 0 <= j < r.len() implies seg_full(u, #[trigger] r[j]) by { if j < p.len() { assert(r[j] == p[j]); } }
        }
    }
}
pub proof fn lemma_am_full(a: AddedVocabulary, w: Seq<int>, t: Pair<Seq<Seq<int>>, Seq<int>>)
    requires trie_ok(a, t), scalars(w)
    ensures ({ let ps = am(a, u_from8(w_to8(w)), t); forall|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).first.is_some() ==> ps[i].second.first < ps[i].second.second })
{
    axiom_w_u(w); lemma_count_from32(w);
    let u = u_from32(w);
    let q = am_units(a, u, t); let ps = am(a, u, t);
    let ms = occs(u, us(t.first), t.second, 0);
    lemma_segs(a, u, t); lemma_tiles_chain(q, 0, u.len() as int);
    lemma_seg_full(a, u, t, ms.len() as int);
    let r = seg_k(a, u, ms, ms.len() as int);
    assert forall|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).first.is_some() implies ps[i].second.first < ps[i].second.second by {
        assert(plink(q, i, u.len() as int)); lemma_chain_in(q, 0, u.len() as int, i); lemma_chain_le(q, 0, u.len() as int, i + 1);
        assert(i < r.len()); assert(q[i] == r[i]); assert(seg_full(u, q[i]));
        let x = choose|x: int| q[i].second.first <= x < q[i].second.second && #[trigger] u_bound(u, x);
        lemma_count_strict(u, q[i].second.first, x, q[i].second.second);
        assert(u_sub(u, 0, q[i].second.first) =~= u.take(q[i].second.first));
        assert(u_sub(u, 0, q[i].second.second) =~= u.take(q[i].second.second));
    }
}
pub open spec fn full(ss: Seq<Split>) -> bool { forall|i: int| 0 <= i < ss.len() && (#[trigger] ss[i]).tokens.len() > 0 ==> ss[i].offsets.first < ss[i].offsets.second }
pub proof fn lemma_seg_splits_full(a: AddedVocabulary, w: Seq<int>, t: Pair<Seq<Seq<int>>, Seq<int>>, base: int)
    requires trie_ok(a, t), scalars(w) ensures ({ let ps = am(a, u_from8(w_to8(w)), t); full(seg_splits(w, ps, base, ps.len() as int)) })
{ lemma_am_full(a, w, t); }
// the first t2 positions have been made from the first x characters, the others are as they were
pub open spec fn al_st(al_: Seq<PI>, t2: int, x: int, n: int) -> bool {
    &&& ok_al(al_, n) && al_.len() == t2 + n - x && 0 <= t2 && 0 <= x <= n
    &&& forall|i: int| 0 <= i < t2 ==> (#[trigger] al_[i]).second <= x
    &&& forall|i: int| t2 <= i < al_.len() ==> #[trigger] al_[i] == (Pair { first: i - t2 + x, second: i - t2 + x + 1 })
}
pub proof fn lemma_al_splice(b: Seq<PI>, t2: int, x: int, y: int, n: int, c: Seq<PI>)
    requires al_st(b, t2, x, n), x <= y <= n, ok_al(c, y - x)
    ensures ({ let d: int = if x < y { x } else { 0 }; let m = Seq::new(c.len(), |i: int| Pair { first: c[i].first + d, second: c[i].second + d }); al_st(spl_al(b, t2, y - x, m), t2 + c.len(), y, n) })
{
    let d: int = if x < y { x } else { 0 };
    let m = Seq::new(c.len(), |i: int| Pair { first: c[i].first + d, second: c[i].second + d });
    let r = spl_al(b, t2, y - x, m);
    let l = c.len() as int;
    if x == y && l > 0 { assert(c[0].first < c[0].second); }
    assert forall|i: int| 0 <= i < r.len() implies (if i < t2 { (#[trigger] r[i]) == b[i] && 0 <= r[i].first < r[i].second <= x } else if i < t2 + l { r[i] == (Pair { first: c[i - t2].first + x, second: c[i - t2].second + x }) && x <= r[i].first < r[i].second <= y } else { r[i] == b[i - l + y - x] && r[i] == (Pair { first: i - t2 - l + y, second: i - t2 - l + y + 1 }) }) by {
        if i < t2 { assert(b[i].second <= x); } else if i < t2 + l { assert(c[i - t2].first < c[i - t2].second); } else { assert(b[i - l + y - x] == b[i - l + y - x]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).first <= (#[trigger] r[j]).first && r[i].second <= r[j].second by {
        if j < t2 { assert(b[i].first <= b[j].first); } else if t2 <= i && j < t2 + l { assert(c[i - t2].first <= c[j - t2].first && c[i - t2].second <= c[j - t2].second); }
    }
}
pub open spec fn ex_al(a: AddedVocabulary, nz: Option<Normalizer>, w: Seq<int>, k: int, s: ExSt) -> bool {
    let x = spos(ex1(a, w), k, w.len() as int);
    &&& full(s.t1)
    &&& al_st(al(s.t0), s.t2, x, w.len() as int)
    &&& nz.is_none() ==> s.t0.normalized =~= w && al(s.t0) =~= al_id(w.len() as int) && s.t2 == x
}
pub proof fn lemma_ex_al_step(a: AddedVocabulary, nz: Option<Normalizer>, w: Seq<int>, k: int, p: ExSt)
    requires av_ready(a), nz_ok(nz), scalars(w), 0 <= k < ex1(a, w).len(), ex_good(a, w, k, p), ex_al(a, nz, w, k, p), full(ex1(a, w))
    ensures ex_al(a, nz, w, k + 1, ex_step(a, nz, p, ex1(a, w)[k]))
{
    let ss = ex1(a, w); let n = w.len() as int;
    lemma_ex1(a, w);
    let s = ss[k];
    assert(sgood(ss, w, k, n));
    lemma_spos(ss, w, n, k); lemma_spos(ss, w, n, k + 1);
    let x = s.offsets.first; let y = s.offsets.second; let len = y - x; let e = p.t2;
    lemma_sub_scalars(w, x, y);
    let q = ex_step(a, nz, p, s);
    let b = al(p.t0);
    if s.tokens.len() > 0 {
        assert(al(q.t0) == b);
        assert forall|i: int| 0 <= i < q.t2 implies (#[trigger] b[i]).second <= y by { if i >= e { assert(b[i] == (Pair { first: i - e + x, second: i - e + x + 1 })); } }
    } else {
        lemma_ex_step(a, nz, w, k, p);
        let m = nsub(nz, s.normalized);
        lemma_nsub(nz, w.subrange(x, y));
        lemma_seg_splits_full(a, m.normalized, a.split_normalized_trie, e);
        lemma_tr_range(p.t0, e, e + len, m);
        let c = al(m);
        if x < y { assert(b[e] == (Pair { first: x, second: x + 1 })); }
        lemma_al_splice(b, e, x, y, n, c);
        let d: int = if e < e + len { b[e].first } else { 0 };
        assert(sh_o(c, d) =~= Seq::new(c.len(), |i: int| Pair { first: c[i].first + (if x < y { x } else { 0 }), second: c[i].second + (if x < y { x } else { 0 }) }));
        assert(c.len() == m.normalized.len());
        if nz.is_none() {
            lemma_fresh_wf(w.subrange(x, y));
            assert(c =~= al_id(len));
            assert(q.t0.normalized =~= p.t0.normalized.take(e) + m.normalized + p.t0.normalized.skip(e + len));
        }
    }
}
pub proof fn lemma_ex_al(a: AddedVocabulary, nz: Option<Normalizer>, w: Seq<int>, k: int)
    requires av_ready(a), nz_ok(nz), scalars(w), 0 <= k <= ex1(a, w).len()
    ensures ex_al(a, nz, w, k, ex_st(a, nz, w, k)), full(ex1(a, w)) decreases k
{
    if am(a, u_from8(w_to8(w)), a.split_non_normalized_trie).len() > 0 { lemma_seg_splits_full(a, w, a.split_non_normalized_trie, 0); }
    if k > 0 { lemma_ex_al(a, nz, w, k - 1); lemma_ex_st(a, nz, w, k - 1); lemma_ex_al_step(a, nz, w, k - 1, ex_st(a, nz, w, k - 1)); }
    else { lemma_fresh_wf(w); lemma_ex1(a, w); assert(sgood(ex1(a, w), w, 0, w.len() as int)); }
}
pub proof fn lemma_ex_steady(a: AddedVocabulary, nz: Option<Normalizer>, w: Seq<int>)
    requires av_ready(a), nz_ok(nz), scalars(w)
    ensures ({ let p = ex_all(a, nz, w); steady(p) && toks_say(p, g_whole()) && ok_al(al(p.normalized), w.len() as int) && (nz.is_none() ==> p.normalized.normalized == w && al(p.normalized) == al_id(w.len() as int)) })
{
    let k = ex1(a, w).len() as int;
    lemma_ex_al(a, nz, w, k); lemma_ex_st(a, nz, w, k); lemma_ex1(a, w);
    let p = ex_all(a, nz, w); let n = p.normalized.normalized; let l = n.len() as int;
    let s = ex_st(a, nz, w, k);
    assert(s.t0.normalized.skip(s.t2).len() == 0);
    assert(s.t2 == l);
    assert forall|i: int| 0 <= i < p.splits.len() implies #[trigger] rng_at(n, p.splits, i, 0, l) by {
        assert(sgood(p.splits, n, i, l)); if i > 0 { assert(sgood(p.splits, n, i - 1, l)); }
    }
    assert forall|i: int| 0 <= i < p.splits.len() implies toks_in((#[trigger] p.splits[i]).tokens) by { assert(sgood(p.splits, n, i, l)); }
    assert forall|i: int| 0 <= i < p.splits.len() implies sp_says(n, #[trigger] p.splits[i], g_whole()) by { assert(sgood(p.splits, n, i, l)); }
}
""", only="C22,C27")
spec(r"""
// uses: bytes pre_tokenizer norm
// ---- C27: added tokens stand for the text they were found at ----
// tokens that do not strip, whose entries have the text that is searched for
pub open spec fn own_word(a: AddedVocabulary, w: Seq<int>, id: int) -> bool { let x = a.added_tokens_map_r[id]; x.content == w && !x.lstrip && !x.rstrip && self_text(w) }
pub open spec fn trie_plain(a: AddedVocabulary, t: Pair<Seq<Seq<int>>, Seq<int>>) -> bool { forall|i: int| 0 <= i < t.first.len() ==> own_word(a, #[trigger] t.first[i], t.second[i]) }
pub open spec fn av_plain(a: AddedVocabulary) -> bool { trie_plain(a, a.split_non_normalized_trie) && trie_plain(a, a.split_normalized_trie) }
// adding tokens that do not strip keeps all that
pub open spec fn own_token(x: AddedToken) -> bool { !x.lstrip && !x.rstrip && self_text(x.content) }
pub open spec fn own_tokens(ts: Seq<AddedToken>) -> bool { forall|i: int| 0 <= i < ts.len() ==> own_token(#[trigger] ts[i]) }
pub open spec fn all_own(r: Map<int, AddedToken>) -> bool { forall|id: int| #[trigger] r.dom().contains(id) ==> own_token(r[id]) }
pub open spec fn av_mine(a: AddedVocabulary, md: Model) -> bool { av_own(a, md) && all_own(a.added_tokens_map_r) && av_plain(a) }
// an id of an added token that the model knows too has the same text there
pub open spec fn av_agrees(a: AddedVocabulary, vr: Map<int, Seq<int>>) -> bool { forall|id: int| #[trigger] a.added_tokens_map_r.dom().contains(id) && vr.dom().contains(id) ==> a.added_tokens_map_r[id].content == vr[id] }
pub proof fn lemma_add_rev_own(r: Map<int, AddedToken>, m: Map<Seq<int>, int>, md: Model, ts: Seq<AddedToken>, k: int)
    requires all_own(r), own_tokens(ts), 0 <= k <= ts.len() ensures all_own(add_rev(r, m, md, ts, k)) decreases k
{
    if k > 0 {
        lemma_add_rev_own(r, m, md, ts, k - 1);
        let q = add_rev(r, m, md, ts, k - 1); let q1 = add_rev(r, m, md, ts, k);
        assert forall|id: int| #[trigger] q1.dom().contains(id) implies own_token(q1[id]) by { if q.dom().contains(id) { assert(own_token(q[id])); } }
    }
}
pub open spec fn pair_in(m: Map<Seq<int>, int>, p: Pair<AddedToken, int>) -> bool { m.dom().contains(p.first.content) && p.second == m[p.first.content] }
pub proof fn lemma_pairs_in(m: Map<Seq<int>, int>, ts: Seq<AddedToken>, norm: bool, k: int)
    requires 0 <= k <= ts.len() ensures forall|i: int| 0 <= i < pairs_k(m, ts, norm, k).len() ==> pair_in(m, #[trigger] pairs_k(m, ts, norm, k)[i]) decreases k
{
    if k > 0 {
        lemma_pairs_in(m, ts, norm, k - 1);
        let p = pairs_k(m, ts, norm, k - 1); let q = pairs_k(m, ts, norm, k);
        assert forall|i: int| 0 <= i < q.len() implies pair_in(m, #[trigger] q[i]) by { if i < p.len() { assert(q[i] == p[i]); } }
    }
}
pub proof fn lemma_trie_plain(a: AddedVocabulary, md: Model, norm: bool)
    requires av_own(a, md), all_own(a.added_tokens_map_r) ensures trie_plain(a, trie_of(trie_pairs(a, norm)))
{
    let m = a.added_tokens_map; let l = trie_pairs(a, norm); let t = trie_of(l);
    lemma_pairs_in(m, a.special_tokens, norm, a.special_tokens.len() as int); lemma_pairs_in(m, a.added_tokens, norm, a.added_tokens.len() as int);
    assert forall|i: int| 0 <= i < t.first.len() implies own_word(a, #[trigger] t.first[i], t.second[i]) by {
        let x = pairs_k(m, a.special_tokens, norm, a.special_tokens.len() as int); let y = pairs_k(m, a.added_tokens, norm, a.added_tokens.len() as int);
        assert(if i < x.len() { l[i] == x[i] } else { l[i] == y[i - x.len()] });
        assert(pair_in(m, l[i]));
        let c = t.first[i];
        assert(m.dom().contains(c) && t.second[i] == m[c]);
        assert(a.added_tokens_map_r.dom().contains(m[c]));
        assert(own_token(a.added_tokens_map_r[m[c]]));
    }
}
pub proof fn lemma_mine(a: AddedVocabulary, ts: Seq<AddedToken>, md: Model)
    requires dense(md), inverse(md.vocab, md.vocab_r), av_mine(a, md), own_tokens(ts)
    ensures av_mine(av_add(a, ts, md), md), av_agrees(av_add(a, ts, md), md.vocab_r)
{
    let b = av_add(a, ts, md);
    lemma_av_own(a, ts, md);
    lemma_add_rev_own(a.added_tokens_map_r, a.added_tokens_map, md, ts, ts.len() as int);
    lemma_trie_plain(b, md, true); lemma_trie_plain(b, md, false);
    assert(trie_pairs(b, true) == trie_pairs(AddedVocabulary { split_normalized_trie: a.split_normalized_trie, split_non_normalized_trie: a.split_non_normalized_trie, ..b }, true));
    assert forall|id: int| #[trigger] b.added_tokens_map_r.dom().contains(id) && md.vocab_r.dom().contains(id) implies b.added_tokens_map_r[id].content == md.vocab_r[id] by {
        let c = b.added_tokens_map_r[id].content; let x = md.vocab_r[id];
        assert(b.added_tokens_map.dom().contains(c) && b.added_tokens_map[c] == id && id_place(md, c, id));
        assert(md.vocab.dom().contains(x) && md.vocab[x] == id);
        if md.vocab.dom().contains(c) { assert(md.vocab[c] == md.vocab[x]); }
    }
}
pub proof fn lemma_mine_new(md: Model) ensures av_mine(av_new(), md) {}
pub proof fn lemma_no_lead(w: Seq<int>) requires u_ok(w), w.len() > 0 ensures !is_lead(w.last()) decreases w.len()
{
    if w.len() >= 2 && is_lead(w[0]) && is_trail(w[1]) { if w.len() > 2 { let v = w.subrange(2, w.len() as int); lemma_no_lead(v); assert(v.last() == w.last()); } }
    else if w.len() > 1 { let v = w.subrange(1, w.len() as int); lemma_no_lead(v); assert(v.last() == w.last()); }
}
// a token's segment is an occurrence of its content, between characters
pub open spec fn seg_own(a: AddedVocabulary, u: Seq<int>, p: Pc) -> bool {
    p.first.is_some() ==> a.added_tokens_map_r.dom().contains(p.first->0) && ({ let w = a.added_tokens_map_r[p.first->0].content; let i = p.second.first; let j = p.second.second;
        self_text(w) && 0 <= i <= j <= u.len() && u_bound(u, i) && u_bound(u, j) && u.subrange(i, j) == u_from8(w) })
}
pub proof fn lemma_seg_own(a: AddedVocabulary, u: Seq<int>, t: Pair<Seq<Seq<int>>, Seq<int>>, k: int)
    requires trie_ok(a, t), trie_plain(a, t), 0 <= k <= occs(u, us(t.first), t.second, 0).len()
    ensures ({ let ms = occs(u, us(t.first), t.second, 0); let q = seg_k(a, u, ms, k); (forall|i: int| 0 <= i < q.len() ==> seg_own(a, u, #[trigger] q[i])) && (k < ms.len() ==> so_k(a, u, ms, k) <= ms[k].t0) && (k > 0 ==> so_k(a, u, ms, k) <= ms[k - 1].t1) })
    decreases k
{
    let ms = occs(u, us(t.first), t.second, 0);
    if k < ms.len() { lemma_occs(u, us(t.first), t.second, 0, k); }
    if k > 0 {
        lemma_seg_own(a, u, t, k - 1);
        let m = ms[k - 1]; let so = so_k(a, u, ms, k - 1);
        lemma_occs(u, us(t.first), t.second, 0, k - 1);
        let i = choose|i: int| 0 <= i < t.second.len() && #[trigger] t.second[i] == m.t2 && at_word(u, us(t.first)[i], m.t0) && us(t.first)[i].len() == m.t1 - m.t0;
        assert(own_word(a, t.first[i], t.second[i]));
        if taken(a, u, m, so) {
            let w = us(t.first)[i]; let n = w.len() as int;
            axiom_u_wf(t.first[i]);
            assert(u_sub(u, m.t0, n) =~= u.subrange(m.t0, m.t1));
            assert(u.subrange(m.t0, m.t1) == w);
            lemma_no_lead(w);
            assert(u[m.t0] == u.subrange(m.t0, m.t1)[0] && u[m.t1 - 1] == u.subrange(m.t0, m.t1)[n - 1]);
            let p = seg_k(a, u, ms, k - 1); let r = seg_k(a, u, ms, k);
            assert(seg_own(a, u, r.last()));
            assert forall|j: int| 0 <= j < r.len() implies seg_own(a, u, #[trigger] r[j]) by { if j < p.len() { assert(r[j] == p[j]); } }
        }
    }
}
pub open spec fn own_split(a: AddedVocabulary, s: Split) -> bool { s.tokens.len() > 0 ==> s.tokens.len() == 1 && av_tok(a, s.tokens[0].id) == Some(s.normalized) && self_text(s.normalized) }
pub open spec fn own_splits(a: AddedVocabulary, ss: Seq<Split>) -> bool { forall|i: int| 0 <= i < ss.len() ==> own_split(a, #[trigger] ss[i]) }
pub proof fn lemma_am_own(a: AddedVocabulary, w: Seq<int>, t: Pair<Seq<Seq<int>>, Seq<int>>, base: int)
    requires trie_ok(a, t), trie_plain(a, t), scalars(w)
    ensures ({ let ps = am(a, u_from8(w_to8(w)), t); own_splits(a, seg_splits(w, ps, base, ps.len() as int)) })
{
    axiom_w_u(w); lemma_count_from32(w);
    let u = u_from32(w);
    let q = am_units(a, u, t); let ps = am(a, u, t);
    let ms = occs(u, us(t.first), t.second, 0);
    lemma_seg_own(a, u, t, ms.len() as int);
    let r = seg_k(a, u, ms, ms.len() as int);
    let ss = seg_splits(w, ps, base, ps.len() as int);
    assert forall|i: int| 0 <= i < ss.len() implies own_split(a, #[trigger] ss[i]) by {
        if q[i].first.is_some() {
            assert(i < r.len()); assert(q[i] == r[i]); assert(seg_own(a, u, q[i]));
            let x = q[i].second.first; let y = q[i].second.second; let c = a.added_tokens_map_r[q[i].first->0].content;
            lemma_u_cut2(w, x, y);
            assert(u_sub(u, 0, x) =~= u.take(x)); assert(u_sub(u, 0, y) =~= u.take(y));
            let f = u_count32(u.take(x)); let g = u_count32(u.take(y));
            let v = w.subrange(f, g);
            lemma_sub_scalars(w, f, g);
            axiom_w_u_to(v);
            assert(ssub(w, f, g - f) =~= v);
            assert(w_to8(v) == c);
        }
    }
}
pub proof fn lemma_ex_own(a: AddedVocabulary, w: Seq<int>, k: int)
    requires av_ready(a), av_plain(a), scalars(w), 0 <= k <= ex1(a, w).len() ensures own_splits(a, ex1(a, w)), own_splits(a, ex_st(a, None, w, k).t1) decreases k
{
    lemma_am_own(a, w, a.split_non_normalized_trie, 0);
    if k > 0 {
        let s = ex1(a, w)[k - 1]; let p = ex_st(a, None, w, k - 1); let q = ex_st(a, None, w, k);
        lemma_ex_own(a, w, k - 1);
        assert(own_split(a, s));
        lemma_ex_st(a, None, w, k - 1); lemma_ex_step(a, None, w, k - 1, p);
        if s.tokens.len() == 0 {
            lemma_nsub(None, w.subrange(s.offsets.first, s.offsets.second));
            let m = nsub(None, s.normalized);
            let ps = am(a, u_from8(w_to8(m.normalized)), a.split_normalized_trie);
            lemma_am_own(a, m.normalized, a.split_normalized_trie, p.t2);
            let ts = seg_splits(m.normalized, ps, p.t2, ps.len() as int);
            assert forall|i: int| 0 <= i < q.t1.len() implies own_split(a, #[trigger] q.t1[i]) by { if i < p.t1.len() { assert(q.t1[i] == p.t1[i]); } else { assert(q.t1[i] == ts[i - p.t1.len()]); } }
        } else { assert forall|i: int| 0 <= i < q.t1.len() implies own_split(a, #[trigger] q.t1[i]) by { if i < p.t1.len() { assert(q.t1[i] == p.t1[i]); } } }
    }
}
// what an added token's id stands for
pub open spec fn av_says(d: Txt, a: AddedVocabulary) -> bool { forall|id: int| #[trigger] a.added_tokens_map_r.dom().contains(id) ==> d(id) == tok_bytes(a.added_tokens_map_r[id].content) }
pub proof fn lemma_pieces_text(d: Txt, a: AddedVocabulary, ss: Seq<Split>, n: Seq<int>, b: int, k: int)
    requires scalars(n), pieces(ss, n, b), own_splits(a, ss), av_says(d, a), 0 <= k <= ss.len()
    ensures ss_text(d, ss, k) == w_to8(n.take(spos(ss, k, b))), 0 <= spos(ss, k, b) <= n.len() decreases k
{
    lemma_spos(ss, n, b, k);
    if k > 0 {
        lemma_pieces_text(d, a, ss, n, b, k - 1);
        let s = ss[k - 1];
        assert(sgood(ss, n, k - 1, b)); assert(own_split(a, s));
        let x = s.offsets.first; let y = s.offsets.second;
        lemma_sub_scalars(n, 0, x); lemma_sub_scalars(n, x, y);
        lemma_w8_cat(n.subrange(0, x), n.subrange(x, y));
        assert(n.take(y) =~= n.subrange(0, x) + n.subrange(x, y)); assert(n.take(x) =~= n.subrange(0, x));
        if s.tokens.len() > 0 { assert(tk_text(d, s.tokens, 1) =~= d(s.tokens[0].id)) by { reveal_with_fuel(tk_text, 2); } }
    } else { lemma_w8_empty(); assert(n.take(0) =~= Seq::<int>::empty()); }
}
pub proof fn lemma_ex_text(d: Txt, a: AddedVocabulary, w: Seq<int>)
    requires av_ready(a), av_plain(a), scalars(w), av_says(d, a) ensures txt(d, ex_all(a, None, w)) == w_to8(w), ready(ex_all(a, None, w))
{
    let k = ex1(a, w).len() as int; let s = ex_st(a, None, w, k); let p = ex_all(a, None, w);
    lemma_ex_own(a, w, k); lemma_ex_st(a, None, w, k); lemma_ex_steady(a, None, w); lemma_ex1(a, w);
    assert(s.t0.normalized.skip(s.t2).len() == 0);
    lemma_pieces_text(d, a, p.splits, w, s.t2, p.splits.len() as int);
    assert(w.take(w.len() as int) =~= w);
}
""", only="C27")
fn("AddedVocabulary::extract_and_normalize", mut=["this"], requires=["av_ready($this)", "nz_ok($normalizer)", "scalars($sequence)"], props="C16",
   ensures={"*:same": "$this' == $this", "*:value": "$r =~~= ex_all($this, $normalizer, $sequence)",
            "C16,C22,C23,C04:pieces": "pieces($r.splits, $r.normalized.normalized, $r.normalized.normalized.len() as int) && good_text($r.normalized)"},
   hints={"entry": "@let w = $sequence; @let a = $this; lemma_ex1($this, $sequence); lemma_fresh_wf($sequence); lemma_ex_st($this, $normalizer, $sequence, ex1($this, $sequence).len() as int); lemma_am($this, $sequence, $this.split_non_normalized_trie); axiom_w_to8($sequence);",
          "return": "assert($r.normalized.normalized.skip(ex_st(#a, $normalizer, #w, ex1(#a, #w).len() as int).t2).len() == 0);"},
   loops=[dict(before="@let m1 = $matches; assert(#m1 =~= am(#a, u_from8(w_to8(#w)), #a.split_non_normalized_trie));", inv=["$non_normalized_splits =~= seg_splits(#w, #m1, 0, #i)", "$this == #a", "$pre_tokenized == whole(fresh(#w))"],
               head="assert(plink(#m1, #i, #w.len() as int)); lemma_chain_in(#m1, 0, #w.len() as int, #i); lemma_chain_le(#m1, 0, #w.len() as int, #i + 1); lemma_sub_scalars(#w, #m1[#i].second.first, #m1[#i].second.second);"),
          dict(before="@let ss = $pre_tokenized.splits; assert(#ss =~= ex1(#a, #w));",
               inv=["$this == #a", "$pre_tokenized.splits == #ss", "(Tup3 { t0: $pre_tokenized.normalized, t1: $normalized_splits, t2: $ending_idx }) == ex_st(#a, $normalizer, #w, #i)"],
               head="@let st = ex_st(#a, $normalizer, #w, #i); lemma_ex_st(#a, $normalizer, #w, #i); lemma_ex_step(#a, $normalizer, #w, #i, #st); lemma_nsub($normalizer, #w.subrange(#ss[#i].offsets.first, #ss[#i].offsets.second)); lemma_fresh_wf(#w.subrange(#ss[#i].offsets.first, #ss[#i].offsets.second));"),
          dict(before="@let m2 = $matches; @let sm = $split_normalized.normalized; assert(#m2 =~= am(#a, u_from8(w_to8(#sm)), #a.split_normalized_trie)); lemma_am(#a, #sm, #a.split_normalized_trie);",
               inv=["$this == #a", "$normalized_splits =~= #st.t1 + seg_splits(#sm, #m2, #st.t2, #i)"],
               head="assert(plink(#m2, #i, #sm.len() as int)); lemma_chain_in(#m2, 0, #sm.len() as int, #i); lemma_chain_le(#m2, 0, #sm.len() as int, #i + 1); lemma_sub_scalars(#sm, #m2[#i].second.first, #m2[#i].second.second);")])
spec(r"""
// every id given to a content has an entry, and so has every id that is searched for, whatever is added
pub open spec fn av_ids(a: AddedVocabulary) -> bool { forall|c: Seq<int>| #[trigger] a.added_tokens_map.dom().contains(c) ==> a.added_tokens_map_r.dom().contains(a.added_tokens_map[c]) }
pub proof fn lemma_pairs_ids(m: Map<Seq<int>, int>, ts: Seq<AddedToken>, norm: bool, k: int, i: int)
    requires 0 <= k <= ts.len(), 0 <= i < pairs_k(m, ts, norm, k).len()
    ensures ({ let p = pairs_k(m, ts, norm, k)[i]; m.dom().contains(p.first.content) && m[p.first.content] == p.second && p.first.normalized == norm }) decreases k
{ if k > 0 { if i < pairs_k(m, ts, norm, k - 1).len() { lemma_pairs_ids(m, ts, norm, k - 1, i); } } }
pub proof fn lemma_trie_ids(a: AddedVocabulary, norm: bool) requires av_ids(a) ensures trie_ok(a, trie_of(trie_pairs(a, norm)))
{
    let m = a.added_tokens_map;
    let p = pairs_k(m, a.special_tokens, norm, a.special_tokens.len() as int);
    let q = pairs_k(m, a.added_tokens, norm, a.added_tokens.len() as int);
    let t = trie_of(p + q);
    assert forall|i: int| 0 <= i < t.second.len() implies a.added_tokens_map_r.dom().contains(#[trigger] t.second[i]) by {
        if i < p.len() { lemma_pairs_ids(m, a.special_tokens, norm, a.special_tokens.len() as int, i); } else { lemma_pairs_ids(m, a.added_tokens, norm, a.added_tokens.len() as int, i - p.len()); }
    }
}
pub proof fn lemma_add_ids(r: Map<int, AddedToken>, m: Map<Seq<int>, int>, md: Model, ts: Seq<AddedToken>, k: int)
    requires 0 <= k <= ts.len(), forall|c: Seq<int>| #[trigger] m.dom().contains(c) ==> r.dom().contains(m[c])
    ensures forall|c: Seq<int>| #[trigger] add_map(m, md, ts, k).dom().contains(c) ==> add_rev(r, m, md, ts, k).dom().contains(add_map(m, md, ts, k)[c]) decreases k
{ if k > 0 { lemma_add_ids(r, m, md, ts, k - 1); } }
pub proof fn lemma_add_ready(a: AddedVocabulary, ts: Seq<AddedToken>, md: Model)
    requires av_ids(a) ensures av_ids(av_add(a, ts, md)), av_ready(av_add(a, ts, md))
{
    let b = av_add(a, ts, md);
    lemma_add_ids(a.added_tokens_map_r, a.added_tokens_map, md, ts, ts.len() as int);
    lemma_trie_ids(b, true); lemma_trie_ids(b, false);
}
""", only="C16,C22,C23,C04,C13,C27")
fn("AddedVocabulary::AddedVocabulary", props="C15,C16,C17,C25", ensures={"*:value": "$r =~~= (AddedVocabulary { added_tokens: $added_tokens, ..av_new() })", "C16:tokens": "$r.added_tokens == $added_tokens && !$r.encode_special_tokens && av_ids($r) && av_ready($r)"})
