# The byte-level alphabet (C06).
spec(r"""
pub open spec fn printable(b: int) -> bool { 33 <= b <= 126 || 0xA1 <= b <= 0xAC || 0xAE <= b <= 0xFF }
// the k-th printable byte, and the number of bytes below b that are not printable
pub open spec fn pr(k: int) -> int { if k < 94 { 33 + k } else if k < 106 { 0xA1 + (k - 94) } else { 0xAE + (k - 106) } }
pub open spec fn npr(b: int) -> int { if b <= 33 { b } else if b <= 127 { 33 } else if b <= 161 { 33 + (b - 127) } else if b <= 173 { 67 } else { 68 } }
// the k-th byte that is not printable
pub open spec fn unpr(k: int) -> int { if k < 33 { k } else if k < 67 { 127 + (k - 33) } else { 173 } }
// the code point that stands for a byte
pub open spec fn cp(b: int) -> int { if printable(b) { b } else { 256 + npr(b) } }
pub open spec fn chs(b: int) -> Seq<int> { u_to8(seq![cp(b)]) }
pub open spec fn is_byte(b: int) -> bool { 0 <= b < 256 }
pub open spec fn is_bc(m: Map<int, Seq<int>>) -> bool {
    (forall|b: int| #[trigger] m.dom().contains(b) <==> is_byte(b)) && (forall|b: int| is_byte(b) ==> #[trigger] m[b] == chs(b))
}
pub open spec fn is_cb(m: Map<Seq<int>, int>) -> bool {
    (forall|s: Seq<int>| #[trigger] m.dom().contains(s) <==> exists|b: int| is_byte(b) && s == chs(b))
    && (forall|b: int| is_byte(b) ==> m[#[trigger] chs(b)] == b)
}
pub open spec fn bs_at(i: int) -> int { if i < 188 { pr(i) } else { unpr(i - 188) } }
pub open spec fn cs_at(i: int) -> int { if i < 188 { pr(i) } else { 256 + (i - 188) } }
pub open spec fn byte_idx(b: int) -> int { if !printable(b) { 188 + npr(b) } else if b <= 126 { b - 33 } else if b <= 0xAC { b - 0xA1 + 94 } else { b - 0xAE + 106 } }
// cp is a bijection of the bytes
pub proof fn lemma_cp_inj() ensures forall|a: int, b: int| is_byte(a) && is_byte(b) && #[trigger] cp(a) == #[trigger] cp(b) ==> a == b {}
// UTF-8 keeps single units of the basic plane apart
pub proof fn lemma_chs_inj(a: int, b: int)
    requires is_byte(a), is_byte(b), chs(a) == chs(b) ensures a == b
{
    assert(seq![cp(a)].subrange(1, 1) =~= Seq::empty() && seq![cp(b)].subrange(1, 1) =~= Seq::empty());
    reveal_with_fuel(u_ok, 2);
    axiom_u_8(seq![cp(a)]); axiom_u_8(seq![cp(b)]); assert(seq![cp(a)][0] == seq![cp(b)][0]); lemma_cp_inj(); }
""")
fn("bytes_char", rlimit=60, props="C06,C07,C27",
   ensures={"*:alphabet": "is_bc($r)",
            "C06:bijection": "forall|a: int, b: int| is_byte(a) && is_byte(b) && a != b ==> $r[a] != $r[b]"},
   loops=[dict(inv=["$bs.len() == $i - 33", "$i <= 127", "forall|k: int| 0 <= k < $bs.len() ==> #[trigger] $bs[k] == pr(k)"]),
          dict(inv=["$bs.len() == 94 + $i - 0xA1", "$i <= 0xAD", "forall|k: int| 0 <= k < $bs.len() ==> #[trigger] $bs[k] == pr(k)"]),
          dict(inv=["$bs.len() == 106 + $i - 0xAE", "$i <= 0x100", "forall|k: int| 0 <= k < $bs.len() ==> #[trigger] $bs[k] == pr(k)"]),
          dict(inv=["$b <= 256", "$n == npr($b)", "$bs.len() == 188 + $n", "$cs.len() == $bs.len()",
                    "forall|k: int| 0 <= k < $bs.len() ==> #[trigger] $bs[k] == bs_at(k)",
                    "forall|k: int| 0 <= k < $cs.len() ==> #[trigger] $cs[k] == cs_at(k)"],
               head="if printable($b) { assert($bs[byte_idx($b)] == $b); } else { assert forall|k: int| 0 <= k < $bs.len() implies #[trigger] $bs[k] != $b by {} }"),
          dict(inv=["forall|x: int| #[trigger] $result.dom().contains(x) <==> (is_byte(x) && byte_idx(x) < $i)",
                    "forall|x: int| is_byte(x) && byte_idx(x) < $i ==> #[trigger] $result[x] == chs(x)"],
               head="assert(is_byte($bs[$i]) && byte_idx($bs[$i]) == $i && cp($bs[$i]) == $cs[$i]);")],
   hints={"return": "assert forall|a: int, b: int| is_byte(a) && is_byte(b) && a != b implies $r[a] != $r[b] by { if $r[a] == $r[b] { lemma_chs_inj(a, b); } };"})
spec(r"""
pub open spec fn icp(x: int) -> int { if x < 256 { x } else { unpr(x - 256) } }
// the UTF-16 unit x is a character of the alphabet
pub open spec fn is_alpha(x: int) -> bool { is_byte(icp(x)) && cp(icp(x)) == x }
pub proof fn lemma_alpha(b: int) requires is_byte(b) ensures is_alpha(cp(b)), icp(cp(b)) == b {}
// UTF-8 text of a single unit is that of an alphabet character only for the unit itself
pub proof fn lemma_unit(x: int, b: int)
    requires is_byte(b), 0 <= x < 0x10000, u_to8(seq![x]) == chs(b)
    ensures x == cp(b)
{
    let y = if is_lead(x) || is_trail(x) { 0xFFFD } else { x };
    assert(seq![y].subrange(1, 1) =~= Seq::empty() && seq![cp(b)].subrange(1, 1) =~= Seq::empty());
    reveal_with_fuel(u_ok, 2);
    axiom_u_lone(x);
    axiom_u_8(seq![y]); axiom_u_8(seq![cp(b)]);
    assert(seq![y][0] == seq![cp(b)][0]);
}
// the bytes that a token stands for
pub open spec fn all_alpha(u: Seq<int>, n: int) -> bool { forall|k: int| 0 <= k < n ==> is_alpha(#[trigger] u[k]) }
pub open spec fn alpha_bytes(u: Seq<int>) -> Seq<int> { Seq::new(u.len(), |k: int| iw8(icp(u[k]))) }
pub open spec fn tok_bytes(t: Seq<int>) -> Seq<int> { let u = u_from8(t); if all_alpha(u, u.len() as int) { alpha_bytes(u) } else { t } }
pub open spec fn toks_bytes(ts: Seq<Seq<int>>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { toks_bytes(ts, k - 1) + tok_bytes(ts[k - 1]) } }
// the text of some bytes
pub open spec fn enc_upto(s: Seq<int>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { enc_upto(s, k - 1) + chs(uw8(s[k - 1])) } }
pub open spec fn enc_bytes(s: Seq<int>) -> Seq<int> { enc_upto(s, s.len() as int) }
pub open spec fn enc_units(s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |k: int| cp(uw8(s[k]))) }
pub open spec fn is_chars(s: Seq<int>) -> bool { forall|k: int| 0 <= k < s.len() ==> -128 <= #[trigger] s[k] < 128 }
pub proof fn lemma_u_ok_units(u: Seq<int>)
    requires forall|k: int| 0 <= k < u.len() ==> 0 <= #[trigger] u[k] < 0xD800
    ensures u_ok(u) decreases u.len()
{ if u.len() > 0 { lemma_u_ok_units(u.subrange(1, u.len() as int)); } }
pub proof fn lemma_enc_upto(s: Seq<int>, k: int)
    requires 0 <= k <= s.len()
    ensures enc_upto(s, k) == u_to8(enc_units(s.take(k))) decreases k
{
    if k > 0 {
        lemma_enc_upto(s, k - 1);
        let a = enc_units(s.take(k - 1));
        lemma_u_ok_units(a);
        axiom_u_cat(a, seq![cp(uw8(s[k - 1]))]);
        assert(enc_units(s.take(k)) =~= a + seq![cp(uw8(s[k - 1]))]);
    } else { axiom_u_empty(); assert(enc_units(s.take(0)) =~= Seq::empty()); }
}
// as many characters as bytes
pub proof fn lemma_enc_w8(s: Seq<int>)
    ensures w8_ok(enc_bytes(s)), w_from8(enc_bytes(s)) == enc_units(s), enc_bytes(s) == w_to8(enc_units(s)), scalars(enc_units(s)), enc_units(s).len() == s.len()
{
    let u = enc_units(s);
    lemma_enc_upto(s, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    assert forall|i: int| 0 <= i < u.len() implies is_scalar(#[trigger] u[i]) && u[i] < 0x10000 by {}
    lemma_from32_units(u);
    axiom_w_u_to(u);
    axiom_w_to8(u);
}
pub proof fn lemma_from32_units(u: Seq<int>)
    requires forall|i: int| 0 <= i < u.len() ==> 0 <= #[trigger] u[i] < 0x10000 ensures u_from32(u) == u decreases u.len()
{
    axiom_from32(u);
    if u.len() > 0 { lemma_from32_units(u.drop_last()); assert(u[u.len() - 1] < 0x10000); assert(u.drop_last().push(u.last()) =~= u); } else { assert(u =~= Seq::<int>::empty()); }
}
// decoding inverts encoding
pub proof fn lemma_roundtrip(s: Seq<int>)
    requires is_chars(s) ensures tok_bytes(enc_bytes(s)) == s
{
    lemma_enc_upto(s, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    let u = enc_units(s);
    lemma_u_ok_units(u);
    axiom_u_8(u);
    assert forall|k: int| 0 <= k < u.len() implies is_alpha(#[trigger] u[k]) && icp(u[k]) == uw8(s[k]) by { lemma_alpha(uw8(s[k])); }
    assert(alpha_bytes(u) =~= s);
}
// ... however the text is cut into tokens at character boundaries
pub open spec fn cut(s: Seq<int>, c: Seq<int>, k: int) -> Seq<int> { s.subrange(if k == 0 { 0 } else { c[k - 1] }, if k < c.len() { c[k] } else { s.len() as int }) }
pub proof fn lemma_roundtrip_cut(s: Seq<int>, c: Seq<int>, ts: Seq<Seq<int>>, k: int)
    requires is_chars(s), 0 <= k <= c.len() + 1, ts.len() == c.len() + 1,
        forall|i: int| 0 <= i < c.len() ==> 0 <= #[trigger] c[i] <= s.len(), forall|i: int, j: int| 0 <= i <= j < c.len() ==> c[i] <= c[j],
        forall|i: int| 0 <= i < ts.len() ==> #[trigger] ts[i] == enc_bytes(cut(s, c, i))
    ensures toks_bytes(ts, k) == s.take(if k == 0 { 0 } else if k <= c.len() { c[k - 1] } else { s.len() as int })
    decreases k
{
    if k > 0 {
        lemma_roundtrip_cut(s, c, ts, k - 1);
        assert(ts[k - 1] == enc_bytes(cut(s, c, k - 1)));
        assert(is_chars(cut(s, c, k - 1)));
        lemma_roundtrip(cut(s, c, k - 1));
        assert(toks_bytes(ts, k) =~= s.take(if k <= c.len() { c[k - 1] } else { s.len() as int }));
    } else { assert(s.take(0) =~= Seq::empty()); }
}
""")
spec(r"""
// ---- C27: the text of some bytes, piece by piece ----
pub proof fn lemma_enc_ext(a: Seq<int>, b: Seq<int>, k: int)
    requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == #[trigger] b[i] ensures enc_upto(a, k) == enc_upto(b, k) decreases k
{ if k > 0 { lemma_enc_ext(a, b, k - 1); assert(a[k - 1] == b[k - 1]); } }
pub proof fn lemma_enc_cat(a: Seq<int>, b: Seq<int>) ensures enc_bytes(a + b) == enc_bytes(a) + enc_bytes(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(enc_bytes(a) + enc_bytes(b) =~= enc_bytes(a)); }
    else {
        let c = b.drop_last(); let s = a + b; let n = s.len() as int;
        lemma_enc_cat(a, c);
        lemma_enc_ext(s, a + c, n - 1); lemma_enc_ext(b, c, b.len() - 1);
        assert(s[n - 1] == b[b.len() - 1]);
        assert(enc_bytes(s) =~= enc_bytes(a) + enc_bytes(b));
    }
}
pub proof fn lemma_enc_one(c: int) ensures enc_bytes(seq![c]) == chs(uw8(c)) { reveal_with_fuel(enc_upto, 2); assert(enc_bytes(seq![c]) =~= chs(uw8(c))); }
// the character of a byte is one UTF-8 sequence
pub proof fn lemma_chs(b: int)
    requires is_byte(b) ensures 1 <= chs(b).len() <= 4, !utf8_cont(chs(b)[0]), forall|i: int| 0 < i < chs(b).len() ==> utf8_cont(#[trigger] chs(b)[i])
{
    let w = seq![cp(b)];
    assert(is_scalar(cp(b))); assert(scalars(w));
    assert forall|i: int| 0 <= i < w.len() implies 0 <= #[trigger] w[i] < 0x10000 by {}
    lemma_from32_units(w);
    axiom_w_u_to(w); axiom_utf8(cp(b));
}
pub open spec fn is_ascii(c: Seq<int>) -> bool { forall|i: int| 0 <= i < c.len() ==> 0 <= #[trigger] c[i] < 128 }
// a text that decoding leaves as it is
pub open spec fn self_text(c: Seq<int>) -> bool { u_to8(u_from8(c)) == c && tok_bytes(c) == c }
pub proof fn lemma_ascii_w(c: Seq<int>) requires is_ascii(c) ensures w_to8(c) == c, scalars(c) decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_last(); let x = seq![c.last()];
        assert(is_ascii(d)) by { assert forall|i: int| 0 <= i < d.len() implies 0 <= #[trigger] d[i] < 128 by { assert(d[i] == c[i]); } }
        lemma_ascii_w(d);
        assert(c[c.len() - 1] == c.last());
        axiom_ascii(c.last());
        assert(scalars(x));
        lemma_w8_cat(d, x);
        assert(c =~= d + x);
    } else { lemma_w8_empty(); assert(c =~= Seq::<int>::empty()); }
}
pub proof fn lemma_ascii_self(c: Seq<int>) requires is_ascii(c) ensures self_text(c)
{
    lemma_ascii_w(c);
    axiom_w_u(c); axiom_w_u_to(c);
    assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] c[i] < 0x10000 by {}
    lemma_from32_units(c);
    assert(u_from8(c) == c);
    if all_alpha(c, c.len() as int) { assert forall|i: int| 0 <= i < c.len() implies iw8(icp(#[trigger] c[i])) == c[i] by { assert(is_alpha(c[i])); } assert(alpha_bytes(c) =~= c); }
}
""", only="C27")
fn("ByteLevelDecoder::ByteLevelDecoder", ensures={"C06,C25,C27:inverse": "is_cb($r.CHAR_BYTES)"},
   loops=[dict(inv=["forall|s: Seq<int>| #[trigger] $this.CHAR_BYTES.dom().contains(s) ==> exists|j: int| 0 <= j < #i && s == (#[trigger] #r[j]).second",
                    "forall|j: int| 0 <= j < #i ==> $this.CHAR_BYTES.dom().contains((#[trigger] #r[j]).second) && $this.CHAR_BYTES[#r[j].second] == #r[j].first"],
               before="axiom_map_enum($BYTES_CHAR); lemma_cp_inj();",
               head="assert forall|j: int| 0 <= j < #i implies (#[trigger] #r[j]).second != #r[#i].second by { if #r[j].second == #r[#i].second { lemma_chs_inj(#r[j].first, #r[#i].first); } };",
               after="""assert forall|b: int| is_byte(b) implies $this.CHAR_BYTES.dom().contains(#[trigger] chs(b)) && $this.CHAR_BYTES[chs(b)] == b by {
                          assert($BYTES_CHAR.dom().contains(b)); let i = choose|i: int| 0 <= i < #r.len() && #[trigger] #r[i] == (Pair { first: b, second: $BYTES_CHAR[b] }); assert(#r[i].second == chs(b)); };
                        assert forall|s: Seq<int>| #[trigger] $this.CHAR_BYTES.dom().contains(s) implies exists|b: int| is_byte(b) && s == chs(b) by {
                          let j = choose|j: int| 0 <= j < #r.len() && s == (#[trigger] #r[j]).second; assert(is_byte(#r[j].first) && s == chs(#r[j].first)); };""")])
fn("ByteLevelDecoder::decode_chain", requires=["is_cb($this.CHAR_BYTES)"],
   spec="seq![toks_bytes($tokens, $tokens.len() as int)]", props="C06,C27",
   loops=[dict(inv=["$result == toks_bytes($tokens, #i)"]),
          dict(inv=["$bytes.len() == $i", "all_alpha($unicode_token, $i)",
                    "forall|k: int| 0 <= k < $i ==> #[trigger] $bytes[k] == iw8(icp($unicode_token[k]))", "$is_byte_level || !all_alpha($unicode_token, $unicode_token.len() as int)"],
               xinv=["$is_byte_level"], exit=["$is_byte_level ==> $i == $unicode_token.len()"],
               head="""axiom_u_units($token); assert(u_sub($unicode_token, $i, 1) =~= seq![$unicode_token[$i]]);
                       if is_alpha($unicode_token[$i]) { assert(u_to8(seq![$unicode_token[$i]]) == chs(icp($unicode_token[$i]))); }
                       else if $this.CHAR_BYTES.dom().contains(u_to8(seq![$unicode_token[$i]])) {
                         let b = choose|b: int| is_byte(b) && u_to8(seq![$unicode_token[$i]]) == chs(b); lemma_unit($unicode_token[$i], b); lemma_alpha(b); };""",
               after="if $is_byte_level { assert($bytes =~= alpha_bytes($unicode_token)); }")])
