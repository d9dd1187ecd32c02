spec(r"""
pub open spec fn is_left(d: int) -> bool { d == 1 }
pub open spec fn enc_ok(e: Encoding) -> bool {
    &&& e.type_ids.len() == e.ids.len() &&& e.tokens.len() == e.ids.len() &&& e.words.len() == e.ids.len()
    &&& e.offsets.len() == e.ids.len() &&& e.special_tokens_mask.len() == e.ids.len() &&& e.attention_mask.len() == e.ids.len()
}
pub open spec fn deep_ok(e: Encoding) -> bool decreases e {
    enc_ok(e) && forall|i: int| 0 <= i < e.overflowing.len() ==> deep_ok(#[trigger] e.overflowing[i])
}
pub open spec fn no_over(e: Encoding) -> Encoding { Encoding { overflowing: Seq::empty(), ..e } }
pub open spec fn enc_slice(e: Encoding, a: int, b: int) -> Encoding {
    Encoding { ids: e.ids.subrange(a, b), type_ids: e.type_ids.subrange(a, b), tokens: e.tokens.subrange(a, b),
        words: e.words.subrange(a, b), offsets: e.offsets.subrange(a, b),
        special_tokens_mask: e.special_tokens_mask.subrange(a, b), attention_mask: e.attention_mask.subrange(a, b),
        overflowing: Seq::empty() }
}
pub open spec fn empty_enc() -> Encoding {
    Encoding { ids: Seq::empty(), type_ids: Seq::empty(), tokens: Seq::empty(), words: Seq::empty(), offsets: Seq::empty(),
        special_tokens_mask: Seq::empty(), attention_mask: Seq::empty(), overflowing: Seq::empty() }
}
// window k of n tokens: at most m of them, each starting o after the one before, counted from the kept side
pub open spec fn w_start(n: int, m: int, o: int, left: bool, k: int) -> int { if left { imax(n - k * o - m, 0) } else { k * o } }
pub open spec fn w_stop(n: int, m: int, o: int, left: bool, k: int) -> int { if left { n - k * o } else { imin(k * o + m, n) } }
pub open spec fn w_last(n: int, m: int, o: int, left: bool, k: int) -> bool { if left { w_start(n, m, o, left, k) == 0 } else { w_stop(n, m, o, left, k) == n } }
pub open spec fn win(e: Encoding, m: int, o: int, left: bool, k: int) -> Encoding {
    enc_slice(e, w_start(e.ids.len() as int, m, o, left, k), w_stop(e.ids.len() as int, m, o, left, k))
}
// the overflowing encodings are the windows 1, 2, ... up to and including the first that reaches the far end
pub open spec fn windows(e: Encoding, r: Encoding, m: int, o: int, left: bool) -> bool {
    &&& forall|k: int| 0 <= k < r.overflowing.len() ==> #[trigger] r.overflowing[k] == win(e, m, o, left, k + 1)
    &&& forall|k: int| 0 <= k < r.overflowing.len() ==> !#[trigger] w_last(e.ids.len() as int, m, o, left, k)
    &&& w_last(e.ids.len() as int, m, o, left, r.overflowing.len() as int)
}
pub open spec fn cut_main(e: Encoding, r: Encoding, m: int, left: bool) -> bool {
    if e.ids.len() <= m { r == e }
    else if m == 0 { no_over(r) == empty_enc() && r.overflowing == seq![e] }
    else { no_over(r) == (if left { enc_slice(e, e.ids.len() - m, e.ids.len() as int) } else { enc_slice(e, 0, m) }) }
}
pub open spec fn cut_windows(e: Encoding, r: Encoding, m: int, stride: int, left: bool) -> bool {
    0 < m && m < e.ids.len() ==> windows(e, r, m, m - stride, left)
}
pub open spec fn range_ok(p: Pair<int, int>, n: int, m: int, o: int, left: bool, k: int) -> bool {
    &&& p.first == w_start(n, m, o, left, k) &&& p.second == w_stop(n, m, o, left, k)
    &&& 0 <= p.first < p.second <= n
}
""")

fn("truncate",
   requires=["enc_ok($encoding)", "$encoding.ids.len() < 0x7fff_ffff", "$max_length >= 0", "$stride >= 0"],
   throws="0 < $max_length && $max_length < $encoding.ids.len() && $stride >= $max_length",
   ensures={
       "*:main": "cut_main($encoding, $r, $max_length, is_left($direction))",
       "*:windows": "cut_windows($encoding, $r, $max_length, $stride, is_left($direction))",
   },
   hints={"decl elem": "assert(range_ok($parts_ranges[0], $encoding_length, $max_length, $offset, is_left($direction), 0)); assert(0 * $offset == 0);",
          "return": "if 0 < $0max_length < $0encoding.ids.len() { assert(no_over($r) =~= (if is_left($0direction) { enc_slice($0encoding, $0encoding.ids.len() - $0max_length, $0encoding.ids.len() as int) } else { enc_slice($0encoding, 0, $0max_length) })); }"
                    "if $0max_length == 0 && $0encoding.ids.len() > 0 { assert($r.overflowing =~= seq![$0encoding]); assert(no_over($r) =~= empty_enc()); }"},
   loops=[
       dict(inv=["$start >= 0",
                 "!$end ==> $start == $parts_ranges.len() * $offset",
                 "forall|k: int| 0 <= k < $parts_ranges.len() ==> range_ok(#[trigger] $parts_ranges[k], $encoding_length, $max_length, $offset, false, k)",
                 "forall|k: int| 0 <= k < $parts_ranges.len() - 1 ==> (#[trigger] $parts_ranges[k]).second < $encoding_length",
                 "$parts_ranges.len() > 0 ==> $end == ($parts_ranges.last().second == $encoding_length)",
                 "$parts_ranges.len() == 0 ==> !$end"],
            before="assert(0 * $offset == 0);",
            end="assert($parts_ranges.len() * $offset == ($parts_ranges.len() - 1) * $offset + $offset) by(nonlinear_arith);",
            after="if $parts_ranges.len() > 0 { assert(range_ok($parts_ranges[$parts_ranges.len() - 1], $encoding_length, $max_length, $offset, false, $parts_ranges.len() - 1)); assert($parts_ranges.len() * $offset == ($parts_ranges.len() - 1) * $offset + $offset) by(nonlinear_arith); } assert($end);",
            dec="imax(0, $encoding_length - $start)"),
       dict(inv=["$stop <= $encoding_length",
                 "!$end ==> $stop == $encoding_length - $parts_ranges.len() * $offset",
                 "forall|k: int| 0 <= k < $parts_ranges.len() ==> range_ok(#[trigger] $parts_ranges[k], $encoding_length, $max_length, $offset, true, k)",
                 "forall|k: int| 0 <= k < $parts_ranges.len() - 1 ==> (#[trigger] $parts_ranges[k]).first > 0",
                 "$parts_ranges.len() > 0 ==> $end == ($parts_ranges.last().first == 0)",
                 "$parts_ranges.len() == 0 ==> !$end"],
            before="assert(0 * $offset == 0);",
            end="assert($parts_ranges.len() * $offset == ($parts_ranges.len() - 1) * $offset + $offset) by(nonlinear_arith);",
            after="if $parts_ranges.len() > 0 { assert(range_ok($parts_ranges[$parts_ranges.len() - 1], $encoding_length, $max_length, $offset, true, $parts_ranges.len() - 1)); assert($parts_ranges.len() * $offset == ($parts_ranges.len() - 1) * $offset + $offset) by(nonlinear_arith); } assert($end);",
            dec="imax(0, $stop)"),
       dict(inv=["$new_encoding.overflowing.len() == $i - 1",
                 "forall|k: int| 0 <= k < $parts_ranges.len() ==> range_ok(#[trigger] $parts_ranges[k], $encoding_length, $max_length, $offset, is_left($direction), k)",
                 "forall|k: int| 0 <= k < $new_encoding.overflowing.len() ==> #[trigger] $new_encoding.overflowing[k] == win($encoding, $max_length, $offset, is_left($direction), k + 1)"],
            head="assert(range_ok($parts_ranges[$i], $encoding_length, $max_length, $offset, is_left($direction), $i));",
            after="assert(forall|k: int| 0 <= k < $parts_ranges.len() ==> range_ok(#[trigger] $parts_ranges[k], $encoding_length, $max_length, $offset, is_left($direction), k));"
                  "assert forall|k: int| 0 <= k < $parts_ranges.len() - 1 implies !#[trigger] w_last($encoding_length, $max_length, $offset, is_left($direction), k) by { assert(range_ok($parts_ranges[k], $encoding_length, $max_length, $offset, is_left($direction), k)); };"
                  "assert(range_ok($parts_ranges.last(), $encoding_length, $max_length, $offset, is_left($direction), $parts_ranges.len() - 1));"),
   ])

spec(r"""
// every window is a non-empty slice of at most m tokens
pub proof fn lemma_window(n: int, m: int, o: int, left: bool, k: int)
    requires 0 < o <= m < n, k >= 0, k > 0 ==> !w_last(n, m, o, left, k - 1)
    ensures 0 <= w_start(n, m, o, left, k) < w_stop(n, m, o, left, k) <= n,
        w_stop(n, m, o, left, k) - w_start(n, m, o, left, k) <= m,
        !w_last(n, m, o, left, k) ==> w_stop(n, m, o, left, k) - w_start(n, m, o, left, k) == m
{
    assert(k * o >= 0) by(nonlinear_arith) requires k >= 0, o > 0;
    assert(k * o == (k - 1) * o + o) by(nonlinear_arith);
    if k > 0 { assert((k - 1) * o >= 0) by(nonlinear_arith) requires k > 0, o > 0; }
    else { assert(k * o == 0) by(nonlinear_arith) requires k == 0; }
}
// the windows contain every token
pub proof fn lemma_windows_cover(e: Encoding, r: Encoding, m: int, o: int, left: bool, x: int)
    requires windows(e, r, m, o, left), 0 < o <= m < e.ids.len(), 0 <= x < e.ids.len()
    ensures exists|k: int| 0 <= k <= r.overflowing.len() && w_start(e.ids.len() as int, m, o, left, k) <= x < #[trigger] w_stop(e.ids.len() as int, m, o, left, k)
{
    let n = e.ids.len() as int;
    let last = r.overflowing.len() as int;
    lemma_cover_upto(n, m, o, left, last, x);
    if left {
        assert forall|k: int| 0 <= k < last implies !#[trigger] w_last(n, m, o, left, k) by {}
        assert(w_start(n, m, o, left, last) == 0);
    }
}
proof fn lemma_cover_upto(n: int, m: int, o: int, left: bool, last: int, x: int)
    requires 0 < o <= m < n, 0 <= x < n, last >= 0, left ==> w_start(n, m, o, left, last) <= x, !left ==> x < w_stop(n, m, o, left, last)
    ensures exists|k: int| 0 <= k <= last && w_start(n, m, o, left, k) <= x < #[trigger] w_stop(n, m, o, left, k)
    decreases last
{
    if w_start(n, m, o, left, last) <= x < w_stop(n, m, o, left, last) {}
    else {
        assert(0 * o == 0);
        assert(last * o == (last - 1) * o + o) by(nonlinear_arith);
        lemma_cover_upto(n, m, o, left, last - 1, x);
    }
}
pub proof fn lemma_slice_ok(e: Encoding, a: int, b: int)
    requires enc_ok(e), 0 <= a <= b <= e.ids.len()
    ensures deep_ok(enc_slice(e, a, b))
{}
pub proof fn lemma_cut_deep(e: Encoding, r: Encoding, m: int, stride: int, left: bool)
    requires deep_ok(e), cut_main(e, r, m, left), cut_windows(e, r, m, stride, left), m >= 0, 0 < m < e.ids.len() ==> 0 <= stride < m
    ensures deep_ok(r)
{
    let n = e.ids.len() as int;
    if 0 < m < n {
        assert(deep_ok(no_over(r))) by { lemma_slice_ok(e, if left { n - m } else { 0 }, if left { n } else { m }); }
        assert forall|i: int| 0 <= i < r.overflowing.len() implies deep_ok(#[trigger] r.overflowing[i]) by {
            assert(!w_last(n, m, m - stride, left, i));
            lemma_window(n, m, m - stride, left, i + 1);
            lemma_slice_ok(e, w_start(n, m, m - stride, left, i + 1), w_stop(n, m, m - stride, left, i + 1));
        }
    }
}
""")
spec(r"""
pub open spec fn t_room(t: Truncation, reserved: int) -> int { imax(t.max_length - reserved, 0) }
pub open spec fn t_cuts(t: Truncation) -> bool { t.strategy == 0 || t.strategy == 1 }
""")
fn("Truncation::truncate_encoding",
   requires=["enc_ok($encoding)", "$encoding.ids.len() < 0x7fff_ffff", "$this.stride >= 0", "in32($this.max_length - $reserved)"],
   throws="0 < t_room($this, $reserved) && t_room($this, $reserved) < $encoding.ids.len() && $this.stride >= t_room($this, $reserved) && t_cuts($this)",
   ensures={
       "C01,C02,C04,C22,C23,C13,C27:main": "if t_cuts($this) || t_room($this, $reserved) == 0 { cut_main($encoding, $r, t_room($this, $reserved), is_left($this.direction)) } else { $r == $encoding }",
       "C02,C04,C22,C23,C13,C27:windows": "t_cuts($this) ==> cut_windows($encoding, $r, t_room($this, $reserved), $this.stride, is_left($this.direction))",
       "C04:lengths": "deep_ok($encoding) ==> deep_ok($r)",
   },
   hints={"return": "if deep_ok($0encoding) && t_cuts($0this) { lemma_cut_deep($0encoding, $r, t_room($0this, $0reserved), $0this.stride, is_left($0this.direction)); }"})

fn("Truncation::Truncation/4",
   ensures={"C01,C02,C25:direction": "$r.direction == (if $direction =~= S\"Left\" { 1int } else if $direction =~= S\"Right\" { 0int } else { 2int })",
            "C01,C25:strategy": "$r.strategy == (if $strategy =~= S\"LongestFirst\" { 0int } else if $strategy =~= S\"OnlyFirst\" { 1int } else if $strategy =~= S\"OnlySecond\" { 2int } else { 3int })",
            "C01,C02,C25:values": "$r.max_length == $max_length && $r.stride == $stride"})

# ---- padding ----
spec(r"""
pub open spec fn fill<T>(s: Seq<T>, k: int, v: T, left: bool) -> Seq<T> { if left { srep(k, v) + s } else { s + srep(k, v) } }
pub open spec fn pad_main(e: Encoding, n: int, id: int, type_id: int, token: Seq<int>, dir: int, over: Seq<Encoding>) -> Encoding {
    if e.ids.len() >= n || !(dir == 0 || dir == 1) { Encoding { overflowing: over, ..e } }
    else {
        let k = n - e.ids.len();
        let left = dir == 1;
        Encoding { ids: fill(e.ids, k, id, left), type_ids: fill(e.type_ids, k, type_id, left), tokens: fill(e.tokens, k, token, left),
            words: fill(e.words, k, Some(0int), left), offsets: fill(e.offsets, k, Pair { first: 0int, second: 0int }, left),
            special_tokens_mask: fill(e.special_tokens_mask, k, 1int, left), attention_mask: fill(e.attention_mask, k, 0int, left),
            overflowing: over }
    }
}
pub open spec fn pad_spec(e: Encoding, n: int, id: int, type_id: int, token: Seq<int>, dir: int) -> Encoding decreases e {
    pad_main(e, n, id, type_id, token, dir,
        Seq::new(e.overflowing.len(), |i: int| if 0 <= i < e.overflowing.len() { pad_spec(e.overflowing[i], n, id, type_id, token, dir) } else { arbitrary() }))
}
pub open spec fn pad_target(p: Padding, len: int) -> int {
    let n = if p.strategy == 1 { p.fixed_size } else { len };
    if p.pad_to_multiple_of > 0 && n % p.pad_to_multiple_of > 0 { n + p.pad_to_multiple_of - n % p.pad_to_multiple_of } else { n }
}
pub proof fn lemma_pad_deep(e: Encoding, n: int, id: int, type_id: int, token: Seq<int>, dir: int)
    requires deep_ok(e)
    ensures deep_ok(pad_spec(e, n, id, type_id, token, dir))
    decreases e
{
    let r = pad_spec(e, n, id, type_id, token, dir);
    assert forall|i: int| 0 <= i < r.overflowing.len() implies deep_ok(#[trigger] r.overflowing[i]) by {
        lemma_pad_deep(e.overflowing[i], n, id, type_id, token, dir);
    }
}
""")
fn("pad", requires=["0 <= $target_length", "in32($target_length)"],
   spec="pad_spec($encoding, $target_length, $pad_id, $pad_type_id, $pad_token, $direction)", props="C03,C04",
   hints={"return": "let q = pad_spec($0encoding, $0target_length, $0pad_id, $0pad_type_id, $0pad_token, $0direction);"
                    "assert($r.overflowing =~= q.overflowing); assert($r.ids =~= q.ids); assert($r.type_ids =~= q.type_ids); assert($r.tokens =~= q.tokens);"
                    "assert($r.words =~= q.words); assert($r.offsets =~= q.offsets); assert($r.special_tokens_mask =~= q.special_tokens_mask); assert($r.attention_mask =~= q.attention_mask);"})
fn("Padding::pad_encoding", props="C03",
   requires=["$this.strategy == 1 ==> $this.fixed_size >= 0", "in32(pad_target($this, $encoding.ids.len() as int))"],
   ensures={"*:value": "$r == pad_spec($encoding, pad_target($this, $encoding.ids.len() as int), $this.pad_id, $this.pad_type_id, $this.pad_token, $this.direction)",
            "C04:lengths": "deep_ok($encoding) ==> deep_ok($r)"},
   hints={"return": "if deep_ok($0encoding) { lemma_pad_deep($0encoding, pad_target($0this, $0encoding.ids.len() as int), $0this.pad_id, $0this.pad_type_id, $0this.pad_token, $0this.direction); }"})
fn("Padding::Padding",
   ensures={"C03,C25:direction": "$r.direction == (if $direction =~= S\"Left\" { 1int } else if $direction =~= S\"Right\" { 0int } else { 2int })",
            "C03,C25:strategy": "$r.strategy == (if $strategy =~= S\"BatchLongest\" { 0int } else if $strategy =~= S\"Fixed\" { 1int } else { 2int })",
            "C03,C25:values": "$r.fixed_size == $fixed_size && $r.pad_id == $pad_id && $r.pad_type_id == $pad_type_id && $r.pad_token == $pad_token && $r.pad_to_multiple_of == $pad_to_multiple_of"})

# ---- where the tokens of an encoding lie (C22) ----
spec(r"""
pub open spec fn off_le(a: Pair<int, int>, b: Pair<int, int>) -> bool { a.first <= b.first && a.second <= b.second }
""", only="C22,C27")
spec(r"""
pub type PII = Pair<int, int>;
pub type Says = spec_fn(Seq<int>, PII) -> bool;
pub open spec fn off_in(a: PII, n: int) -> bool { 0 <= a.first <= a.second <= n }
pub open spec fn inside(e: Encoding, n: int) -> bool { forall|i: int| 0 <= i < e.offsets.len() ==> off_in(#[trigger] e.offsets[i], n) }
// the tokens that are not special or padding are in order
pub open spec fn sorted(e: Encoding) -> bool {
    forall|i: int, j: int| #![trigger e.offsets[i], e.offsets[j]] 0 <= i < j < e.offsets.len() && e.special_tokens_mask[i] == 0 && e.special_tokens_mask[j] == 0 ==> off_le(e.offsets[i], e.offsets[j])
}
// something holds of their texts and offsets
pub open spec fn says(e: Encoding, f: Says) -> bool { forall|i: int| #![trigger e.offsets[i]] 0 <= i < e.offsets.len() && e.special_tokens_mask[i] == 0 ==> f(e.tokens[i], e.offsets[i]) }
pub open spec fn placed1(e: Encoding, n: int, ord: bool, f: Says) -> bool { enc_ok(e) && inside(e, n) && (ord ==> sorted(e)) && says(e, f) }
// also in every overflowing encoding
pub open spec fn placed(e: Encoding, n: int, ord: bool, f: Says) -> bool decreases e {
    placed1(e, n, ord, f) && forall|i: int| 0 <= i < e.overflowing.len() ==> placed(#[trigger] e.overflowing[i], n, ord, f)
}
pub proof fn lemma_slice_placed(e: Encoding, a: int, b: int, n: int, ord: bool, f: Says)
    requires placed1(e, n, ord, f), 0 <= a <= b <= e.ids.len() ensures placed(enc_slice(e, a, b), n, ord, f)
{
    let r = enc_slice(e, a, b);
    assert forall|i: int| 0 <= i < r.offsets.len() implies off_in(#[trigger] r.offsets[i], n) by { assert(r.offsets[i] == e.offsets[a + i]); }
    assert forall|i: int| #![trigger r.offsets[i]] 0 <= i < r.offsets.len() && r.special_tokens_mask[i] == 0 implies f(r.tokens[i], r.offsets[i]) by { assert(r.offsets[i] == e.offsets[a + i]); }
    if ord { assert forall|i: int, j: int| #![trigger r.offsets[i], r.offsets[j]] 0 <= i < j < r.offsets.len() && r.special_tokens_mask[i] == 0 && r.special_tokens_mask[j] == 0 implies off_le(r.offsets[i], r.offsets[j]) by { assert(r.offsets[i] == e.offsets[a + i] && r.offsets[j] == e.offsets[a + j]); } }
}
pub proof fn lemma_cut_placed(e: Encoding, r: Encoding, m: int, stride: int, left: bool, n: int, ord: bool, f: Says)
    requires placed(e, n, ord, f), cut_main(e, r, m, left), cut_windows(e, r, m, stride, left), m >= 0, 0 < m < e.ids.len() ==> 0 <= stride < m
    ensures placed(r, n, ord, f)
{
    let k = e.ids.len() as int;
    if 0 < m < k {
        lemma_slice_placed(e, if left { k - m } else { 0 }, if left { k } else { m }, n, ord, f);
        assert(placed(no_over(r), n, ord, f));
        assert forall|i: int| 0 <= i < r.overflowing.len() implies placed(#[trigger] r.overflowing[i], n, ord, f) by {
            assert(!w_last(k, m, m - stride, left, i));
            lemma_window(k, m, m - stride, left, i + 1);
            lemma_slice_placed(e, w_start(k, m, m - stride, left, i + 1), w_stop(k, m, m - stride, left, i + 1), n, ord, f);
        }
    } else if m == 0 && k > 0 { assert(placed1(empty_enc(), n, ord, f)); assert(no_over(r) == empty_enc()); assert(r.overflowing[0] == e); }
}
pub proof fn lemma_pad_placed(e: Encoding, t: int, id: int, type_id: int, token: Seq<int>, dir: int, n: int, ord: bool, f: Says)
    requires placed(e, n, ord, f), n >= 0
    ensures placed(pad_spec(e, t, id, type_id, token, dir), n, ord, f)
    decreases e
{
    let r = pad_spec(e, t, id, type_id, token, dir);
    assert forall|i: int| 0 <= i < r.overflowing.len() implies placed(#[trigger] r.overflowing[i], n, ord, f) by { lemma_pad_placed(e.overflowing[i], t, id, type_id, token, dir, n, ord, f); }
    if !(e.ids.len() >= t || !(dir == 0 || dir == 1)) {
        let d: int = if dir == 1 { t - e.ids.len() } else { 0 };
        let l = e.ids.len() as int;
        assert forall|i: int| 0 <= i < r.offsets.len() implies (if d <= i < d + l { (#[trigger] r.offsets[i]) == e.offsets[i - d] && r.special_tokens_mask[i] == e.special_tokens_mask[i - d] && r.tokens[i] == e.tokens[i - d] } else { r.offsets[i] == (Pair { first: 0int, second: 0int }) && r.special_tokens_mask[i] == 1 }) by {}
        assert(inside(r, n));
        assert(says(r, f));
        if ord { assert(sorted(r)); }
    }
}
""", only="C22,C27")
