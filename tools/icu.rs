// ---- Unicode: what the library functions compute is not interpreted, except for the facts below ----
pub uninterp spec fn u_from8(s: Seq<int>) -> Seq<int>;      // UnicodeString::fromUTF8
pub uninterp spec fn u_to8(u: Seq<int>) -> Seq<int>;        // UnicodeString::toUTF8String
pub uninterp spec fn u_from32(w: Seq<int>) -> Seq<int>;     // UnicodeString::fromUTF32
pub uninterp spec fn u_to32(u: Seq<int>) -> Seq<int>;       // UnicodeString::toUTF32
pub uninterp spec fn w_from8(s: Seq<int>) -> Seq<int>;      // wstring_convert::from_bytes
pub uninterp spec fn w_to8(w: Seq<int>) -> Seq<int>;        // wstring_convert::to_bytes
pub open spec fn is_lead(c: int) -> bool { 0xD800 <= c < 0xDC00 }
pub open spec fn is_trail(c: int) -> bool { 0xDC00 <= c < 0xE000 }
// number of characters of a sequence of UTF-16 units
pub open spec fn u_count32(u: Seq<int>) -> int decreases u.len() {
    if u.len() == 0 { 0 } else if u.len() >= 2 && is_lead(u[0]) && is_trail(u[1]) { 1 + u_count32(u.subrange(2, u.len() as int)) }
    else { 1 + u_count32(u.subrange(1, u.len() as int)) }
}
pub open spec fn u_clamp(i: int, n: int) -> int { if i < 0 { 0 } else if i > n { n } else { i } }
pub open spec fn u_sub(u: Seq<int>, i: int, l: int) -> Seq<int> {
    u.subrange(u_clamp(i, u.len() as int), u_clamp(i, u.len() as int) + u_clamp(l, u.len() - u_clamp(i, u.len() as int)))
}
pub open spec fn u_at(u: Seq<int>, i: int) -> int { if 0 <= i < u.len() { u[i] } else { 0xFFFF } }
pub open spec fn u_at32(u: Seq<int>, i: int) -> int {
    if !(0 <= i < u.len()) { 0xFFFF }
    else if is_lead(u[i]) && i + 1 < u.len() && is_trail(u[i + 1]) { (u[i] - 0xD800) * 0x400 + (u[i + 1] - 0xDC00) + 0x10000 }
    else if is_trail(u[i]) && i > 0 && is_lead(u[i - 1]) { (u[i - 1] - 0xD800) * 0x400 + (u[i] - 0xDC00) + 0x10000 }
    else { u[i] }
}
pub open spec fn u_append32(u: Seq<int>, c: int) -> Seq<int> {
    if c < 0x10000 { u.push(c) } else { u.push(0xD800 + (c - 0x10000) / 0x400).push(0xDC00 + (c - 0x10000) % 0x400) }
}
// u has no surrogate without its partner
pub open spec fn u_ok(u: Seq<int>) -> bool decreases u.len() {
    if u.len() == 0 { true } else if u.len() >= 2 && is_lead(u[0]) && is_trail(u[1]) { u_ok(u.subrange(2, u.len() as int)) }
    else { 0 <= u[0] < 0x10000 && !is_lead(u[0]) && !is_trail(u[0]) && u_ok(u.subrange(1, u.len() as int)) }
}
// UTF-16 without lone surrogates survives UTF-8
pub axiom fn axiom_u_8(u: Seq<int>) ensures u_ok(u) ==> u_from8(u_to8(u)) == u;
// a lone surrogate is written like U+FFFD
pub axiom fn axiom_u_lone(x: int) ensures is_lead(x) || is_trail(x) ==> u_to8(seq![x]) == u_to8(seq![0xFFFDint]);
// UTF-8 of a concatenation
pub axiom fn axiom_u_cat(a: Seq<int>, b: Seq<int>) ensures u_ok(a) ==> u_to8(a + b) == u_to8(a) + u_to8(b);
pub axiom fn axiom_u_empty() ensures u_to8(Seq::empty()) == Seq::<int>::empty();
// units are 16 bits wide
pub axiom fn axiom_u_units(s: Seq<int>) ensures forall|i: int| 0 <= i < u_from8(s).len() ==> 0 <= #[trigger] u_from8(s)[i] < 0x10000;
// text read from UTF-8 has no lone surrogates (what is not valid becomes U+FFFD)
pub axiom fn axiom_u_wf(s: Seq<int>) ensures u_ok(u_from8(s));
// a std::string holds chars
pub axiom fn axiom_u_chars(u: Seq<int>) ensures forall|i: int| 0 <= i < u_to8(u).len() ==> -128 <= #[trigger] u_to8(u)[i] < 128;
// every character takes some bytes
pub axiom fn axiom_u_to8_len(u: Seq<int>) ensures u.len() > 0 ==> u_to8(u).len() > 0;
// wstring_convert with codecvt_utf8: valid UTF-8 and Unicode scalar values
pub uninterp spec fn w8_ok(s: Seq<int>) -> bool;
pub open spec fn is_scalar(c: int) -> bool { 0 <= c < 0xD800 || 0xE000 <= c < 0x110000 }
pub open spec fn scalars(w: Seq<int>) -> bool { forall|i: int| 0 <= i < w.len() ==> is_scalar(#[trigger] w[i]) }
pub axiom fn axiom_w_from8(s: Seq<int>) ensures w8_ok(s) ==> scalars(w_from8(s)) && w_to8(w_from8(s)) == s;
pub axiom fn axiom_w_to8(w: Seq<int>) ensures scalars(w) ==> w8_ok(w_to8(w)) && w_from8(w_to8(w)) == w;
// ---- Unicode normalization; mode: 2 NFD, 3 NFKD, 4 NFC, 5 NFKC ----
pub struct Normalizer2 { pub mode: int }
pub uninterp spec fn nz(mode: int, u: Seq<int>) -> Seq<int>;
pub uninterp spec fn nz_before(mode: int, c: int) -> int;      // hasBoundaryBefore
pub axiom fn axiom_from32(w: Seq<int>)
    ensures u_from32(Seq::empty()) == Seq::<int>::empty(), w.len() > 0 ==> u_from32(w) == u_append32(u_from32(w.drop_last()), w.last()), scalars(w) ==> u_ok(u_from32(w));
pub axiom fn axiom_to32(u: Seq<int>) ensures u_to32(u).len() == u_count32(u), u_ok(u) ==> scalars(u_to32(u));
pub axiom fn axiom_nz_ok(mode: int, u: Seq<int>) ensures u_ok(u) ==> u_ok(nz(mode, u)), u.len() == 0 ==> nz(mode, u) == u;
// normalization does not cross a boundary
pub axiom fn axiom_nz_boundary(mode: int, a: Seq<int>, b: Seq<int>)
    ensures scalars(a) && scalars(b) && b.len() > 0 && nz_before(mode, b[0]) != 0 ==> nz(mode, u_from32(a + b)) == nz(mode, u_from32(a)) + nz(mode, u_from32(b));
pub proof fn lemma_count_cat(a: Seq<int>, b: Seq<int>)
    requires u_ok(a) ensures u_count32(a + b) == u_count32(a) + u_count32(b) decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else if a.len() >= 2 && is_lead(a[0]) && is_trail(a[1]) { lemma_count_cat(a.subrange(2, a.len() as int), b); assert((a + b).subrange(2, (a + b).len() as int) =~= a.subrange(2, a.len() as int) + b); }
    else { lemma_count_cat(a.subrange(1, a.len() as int), b); assert((a + b).subrange(1, (a + b).len() as int) =~= a.subrange(1, a.len() as int) + b); }
}
pub proof fn lemma_count_nonneg(u: Seq<int>) ensures u_count32(u) >= 0 decreases u.len()
{ if u.len() == 0 {} else if u.len() >= 2 && is_lead(u[0]) && is_trail(u[1]) { lemma_count_nonneg(u.subrange(2, u.len() as int)); } else { lemma_count_nonneg(u.subrange(1, u.len() as int)); } }
pub proof fn lemma_count_mono(u: Seq<int>, i: int, j: int)
    requires 0 <= i <= j <= u.len() ensures 0 <= u_count32(u.take(i)) <= u_count32(u.take(j)) decreases u.len()
{
    lemma_count_nonneg(u.take(i));
    lemma_count_nonneg(u.take(j));
    if i > 0 {
        let a = u.take(i); let b = u.take(j);
        if u.len() >= 2 && is_lead(u[0]) && is_trail(u[1]) {
            if i >= 2 {
                let v = u.subrange(2, u.len() as int);
                lemma_count_mono(v, i - 2, j - 2);
                assert(a.subrange(2, i) =~= v.take(i - 2)); assert(b.subrange(2, j) =~= v.take(j - 2));
            } else {
                assert(a.subrange(1, 1) =~= Seq::<int>::empty());
                reveal_with_fuel(u_count32, 2);
                if j >= 2 { lemma_count_nonneg(b.subrange(2, j)); }
            }
        } else {
            let v = u.subrange(1, u.len() as int);
            lemma_count_mono(v, i - 1, j - 1);
            assert(a.subrange(1, i) =~= v.take(i - 1)); assert(b.subrange(1, j) =~= v.take(j - 1));
        }
    }
}
// ---- regular expressions: which matches a pattern has is not interpreted ----
pub struct RePat { pub pat: Seq<int>, pub flags: int }
pub struct ReMat { pub pat: Seq<int>, pub flags: int, pub input: Seq<int>, pub k: int }     // k: number of find() calls that found something
pub uninterp spec fn re_bad(pat: Seq<int>, flags: int) -> bool;
pub uninterp spec fn re_seq(pat: Seq<int>, flags: int, input: Seq<int>) -> Seq<Pair<int, int>>;    // all matches, in order
pub open spec fn re_step(m: ReMat) -> ReMat { ReMat { k: if m.k < slen(re_seq(m.pat, m.flags, m.input)) { m.k + 1 } else { slen(re_seq(m.pat, m.flags, m.input)) + 1 }, ..m } }
pub open spec fn re_found(m: ReMat) -> bool { 1 <= m.k <= re_seq(m.pat, m.flags, m.input).len() }
pub open spec fn re_at(m: ReMat) -> Pair<int, int> { re_seq(m.pat, m.flags, m.input)[m.k - 1] }
// position i of u is not in the middle of a character
pub open spec fn u_bound(u: Seq<int>, i: int) -> bool { 0 <= i <= u.len() && !(0 < i < u.len() && is_lead(u[i - 1]) && is_trail(u[i])) }
pub axiom fn axiom_re(pat: Seq<int>, flags: int, u: Seq<int>)
    ensures forall|i: int| #![trigger re_seq(pat, flags, u)[i]] 0 <= i < re_seq(pat, flags, u).len() ==> {
        let m = re_seq(pat, flags, u)[i];
        &&& 0 <= m.first <= m.second <= u.len()
        &&& (i > 0 ==> re_seq(pat, flags, u)[i - 1].second <= m.first)
        &&& (u_ok(u) ==> u_bound(u, m.first) && u_bound(u, m.second))
    };
// UTF-16 of a text of Unicode scalar values, however it is obtained
pub axiom fn axiom_w_u(w: Seq<int>) ensures scalars(w) ==> u_from8(w_to8(w)) == u_from32(w);
pub axiom fn axiom_w_u_to(w: Seq<int>) ensures scalars(w) ==> w_to8(w) == u_to8(u_from32(w));
// a character of ASCII is its own UTF-8
pub axiom fn axiom_ascii(c: int) ensures 0 <= c < 128 ==> w_to8(seq![c]) == seq![c];
// UTF-8 of a character: one to four bytes, all but the first are continuation bytes
pub open spec fn utf8_cont(c: int) -> bool { band(uw8(c), 0xC0) == 0x80 }
pub axiom fn axiom_utf8(c: int)
    ensures is_scalar(c) ==> 1 <= w_to8(seq![c]).len() <= 4 && !utf8_cont(w_to8(seq![c])[0]) && forall|i: int| 0 < i < w_to8(seq![c]).len() ==> utf8_cont(#[trigger] w_to8(seq![c])[i]);
pub proof fn lemma_from32_cat(a: Seq<int>, b: Seq<int>)
    ensures u_from32(a + b) == u_from32(a) + u_from32(b) decreases b.len()
{
    axiom_from32(a + b); axiom_from32(b);
    if b.len() > 0 {
        lemma_from32_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(u_append32(u_from32(a) + u_from32(b.drop_last()), b.last()) =~= u_from32(a) + u_append32(u_from32(b.drop_last()), b.last()));
    } else { assert(a + b =~= a); assert(b =~= Seq::<int>::empty()); assert(u_from32(a) + u_from32(b) =~= u_from32(a)); }
}
// UTF-8 of the characters of a text, one after the other
pub proof fn lemma_w8_cat(a: Seq<int>, b: Seq<int>)
    requires scalars(a), scalars(b) ensures w_to8(a + b) == w_to8(a) + w_to8(b), scalars(a + b)
{
    assert forall|i: int| 0 <= i < (a + b).len() implies is_scalar(#[trigger] (a + b)[i]) by { if i < a.len() { assert(is_scalar(a[i])); } else { assert(is_scalar(b[i - a.len()])); } }
    axiom_w_u_to(a); axiom_w_u_to(b); axiom_w_u_to(a + b); axiom_from32(a); lemma_from32_cat(a, b); axiom_u_cat(u_from32(a), u_from32(b));
}
pub proof fn lemma_w8_empty() ensures w_to8(Seq::empty()) == Seq::<int>::empty() { axiom_w_u_to(Seq::empty()); axiom_from32(Seq::empty()); axiom_u_empty(); }
pub proof fn lemma_w8_len(w: Seq<int>) requires scalars(w), w.len() > 0 ensures w_to8(w).len() > 0 { axiom_w_u_to(w); axiom_from32(w); axiom_u_to8_len(u_from32(w)); }
pub proof fn lemma_count_one(c: int) requires is_scalar(c) ensures u_count32(u_append32(Seq::empty(), c)) == 1
{
    let x = u_append32(Seq::empty(), c);
    reveal_with_fuel(u_count32, 3);
    if c < 0x10000 { assert(x.subrange(1, 1) =~= Seq::<int>::empty()); }
    else {
        assert(is_lead(x[0]) && is_trail(x[1])) by { assert(0 <= (c - 0x10000) / 0x400 < 0x400 && 0 <= (c - 0x10000) % 0x400 < 0x400) by (nonlinear_arith) requires 0x10000 <= c < 0x110000; }
        assert(x.subrange(2, 2) =~= Seq::<int>::empty());
    }
}
pub proof fn lemma_count_from32(w: Seq<int>)
    requires scalars(w) ensures u_count32(u_from32(w)) == w.len(), u_ok(u_from32(w)) decreases w.len()
{
    axiom_from32(w);
    if w.len() > 0 {
        let v = w.drop_last();
        lemma_count_from32(v);
        let c = w.last();
        let x = u_append32(Seq::empty(), c);
        assert(is_scalar(w[w.len() - 1]));
        assert(u_append32(u_from32(v), c) =~= u_from32(v) + x);
        lemma_count_cat(u_from32(v), x);
        lemma_count_one(c);
    } else { assert(w =~= Seq::<int>::empty()); }
}
// cutting the UTF-16 form of a text at a character boundary
pub proof fn lemma_u_cut(w: Seq<int>, i: int)
    requires scalars(w), u_bound(u_from32(w), i)
    ensures ({ let c = u_count32(u_from32(w).take(i)); 0 <= c <= w.len() && u_from32(w).take(i) == u_from32(w.take(c)) })
    decreases w.len()
{
    let u = u_from32(w);
    lemma_count_from32(w);
    if i == u.len() { assert(u.take(i) =~= u); assert(w.take(w.len() as int) =~= w); }
    else {
        axiom_from32(w);
        if w.len() == 0 { assert(w =~= Seq::<int>::empty()); }
        let v = w.drop_last();
        let x = w.last();
        let uv = u_from32(v);
        assert(is_scalar(w[w.len() - 1]));
        assert(u == u_append32(uv, x));
        if x >= 0x10000 { assert(0 <= (x - 0x10000) / 0x400 < 0x400 && 0 <= (x - 0x10000) % 0x400 < 0x400) by (nonlinear_arith) requires 0x10000 <= x < 0x110000; }
        assert(i <= uv.len()) by { if i > uv.len() { assert(i == uv.len() + 1 && x >= 0x10000); assert(u[i - 1] == 0xD800 + (x - 0x10000) / 0x400 && u[i] == 0xDC00 + (x - 0x10000) % 0x400); } }
        assert(u_bound(uv, i)) by { if 0 < i < uv.len() { assert(uv[i - 1] == u[i - 1] && uv[i] == u[i]); } }
        lemma_u_cut(v, i);
        assert(u.take(i) =~= uv.take(i));
        let c = u_count32(uv.take(i));
        assert(w.take(c) =~= v.take(c));
    }
}
pub proof fn lemma_u_cut2(w: Seq<int>, i: int, j: int)
    requires scalars(w), u_bound(u_from32(w), i), u_bound(u_from32(w), j), i <= j
    ensures ({ let u = u_from32(w); let c = u_count32(u.take(i)); let d = u_count32(u.take(j)); 0 <= c <= d <= w.len() && u.subrange(i, j) == u_from32(w.subrange(c, d)) })
{
    let u = u_from32(w);
    lemma_u_cut(w, i); lemma_u_cut(w, j); lemma_count_mono(u, i, j);
    let c = u_count32(u.take(i)); let d = u_count32(u.take(j));
    assert(w.take(d) =~= w.take(c) + w.subrange(c, d));
    lemma_from32_cat(w.take(c), w.subrange(c, d));
    let z = u.take(i) + u_from32(w.subrange(c, d));
    assert(u.take(j) == z);
    assert(u.subrange(i, j) =~= u.take(j).subrange(i, j));
    assert(z.subrange(i, j) =~= u_from32(w.subrange(c, d)));
}
