use vstd::prelude::*;
#[allow(unused_imports)] use vstd::seq_lib::*;
#[allow(unused_imports)] use vstd::arithmetic::div_mod::*;
#[allow(unused_imports)] use vstd::arithmetic::mul::*;
verus! {
// ---- control: the only executable primitives ----
#[verifier::external_body]
fn test(b: Ghost<bool>) -> (r: bool) ensures r == b@ { unimplemented!() }
#[verifier::external_body]
fn diverge() -> (r: bool) ensures false { unimplemented!() }
#[verifier::external_body]
fn unreachable_end() -> (r: bool) requires false { unimplemented!() }
// the size of a container that is converted to int (assumption: it fits)
#[verifier::external_body]
fn size_fits(n: Ghost<int>) ensures n@ < 0x8000_0000 { unimplemented!() }
// no container has 2^63 elements
#[verifier::external_body]
fn size_max(n: Ghost<int>) ensures n@ < 0x8000_0000_0000_0000 { unimplemented!() }
// a value that nothing is known about (random numbers)
#[verifier::external_body]
fn nondet<T>() -> (r: Ghost<T>) { unimplemented!() }

// ---- values ----
#[verifier::ext_equal]
pub struct Pair<A, B> { pub first: A, pub second: B }
#[verifier::ext_equal]
pub struct Tup2<A, B> { pub t0: A, pub t1: B }
#[verifier::ext_equal]
pub struct Tup3<A, B, C> { pub t0: A, pub t1: B, pub t2: C }
pub struct Fl { pub v: int }
pub uninterp spec fn fl_lit(k: int) -> Fl;
pub open spec fn fl_eq(a: Fl, b: Fl) -> bool { a == b }
pub uninterp spec fn fl_lt(a: Fl, b: Fl) -> bool;
pub uninterp spec fn fl_le(a: Fl, b: Fl) -> bool;
pub uninterp spec fn fl_op(a: Fl, b: Fl) -> Fl;
pub uninterp spec fn fl_of_int(a: int) -> Fl;

// ---- machine integers ----
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn imin(a: int, b: int) -> int { if b < a { b } else { a } }
pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }
// no computation exceeds 2^64 - 1 (sizes); below zero it wraps
pub open spec fn uw64(x: int) -> int { if x >= 0 { x } else { x + 0x1_0000_0000_0000_0000 } }
pub open spec fn uw32(x: int) -> int { if 0 <= x && x < 0x1_0000_0000 { x } else { x % 0x1_0000_0000 } }
pub open spec fn uw16(x: int) -> int { if 0 <= x && x < 0x1_0000 { x } else { x % 0x1_0000 } }
pub open spec fn uw8(x: int) -> int { if 0 <= x && x < 0x100 { x } else { x % 0x100 } }
pub open spec fn iwrap(x: int, m: int) -> int { if x % m >= m / 2 { x % m - m } else { x % m } }
pub open spec fn iw64(x: int) -> int { if -0x8000_0000_0000_0000 <= x && x < 0x8000_0000_0000_0000 { x } else { iwrap(x, 0x1_0000_0000_0000_0000) } }
pub open spec fn iw32(x: int) -> int { if -0x8000_0000 <= x && x < 0x8000_0000 { x } else { iwrap(x, 0x1_0000_0000) } }
pub open spec fn iw16(x: int) -> int { if -0x8000 <= x && x < 0x8000 { x } else { iwrap(x, 0x1_0000) } }
pub open spec fn iw8(x: int) -> int { if -0x80 <= x && x < 0x80 { x } else { iwrap(x, 0x100) } }
pub open spec fn in32(x: int) -> bool { -0x8000_0000 <= x && x < 0x8000_0000 }
pub open spec fn in64(x: int) -> bool { -0x8000_0000_0000_0000 <= x && x < 0x8000_0000_0000_0000 }
pub open spec fn cdiv(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn cmod(a: int, b: int) -> int { if a >= 0 && b > 0 { a % b } else if a < 0 && b > 0 { -((-a) % b) } else { a - cdiv(a, b) * b } }
pub open spec fn band(a: int, b: int) -> int { ((a as u64) & (b as u64)) as int }      // of values that are not negative
pub open spec fn bor(a: int, b: int) -> int { ((a as u64) | (b as u64)) as int }
pub uninterp spec fn bnot(a: int) -> int;
pub open spec fn shl(a: int, b: int) -> int { ((a as u64) << (b as u64)) as int }
pub uninterp spec fn i_to_string(a: int) -> Seq<int>;

// ---- sequences (vectors, strings) ----
pub open spec fn slen<T>(s: Seq<T>) -> int { s.len() as int }
pub open spec fn srep<T>(n: int, v: T) -> Seq<T> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| v) }
pub open spec fn stake<T>(s: Seq<T>, n: int) -> Seq<T> { if n <= 0 { Seq::empty() } else if n >= s.len() { s } else { s.subrange(0, n) } }
pub open spec fn ssub<T>(s: Seq<T>, i: int, l: int) -> Seq<T> { s.subrange(i, if i + l < s.len() && 0 <= l { i + l } else { s.len() as int }) }
pub open spec fn sins<T>(s: Seq<T>, i: int, v: Seq<T>) -> Seq<T> { s.subrange(0, i) + v + s.subrange(i, s.len() as int) }
pub open spec fn sresize<T>(s: Seq<T>, n: int, v: T) -> Seq<T> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| if i < s.len() { s[i] } else { v }) }
pub open spec fn sover<T>(s: Seq<T>, v: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| if i < v.len() { v[i] } else { s[i] }) }
pub open spec fn smap<A, B>(s: Seq<A>, f: spec_fn(A) -> B) -> Seq<B> { Seq::new(s.len(), |i: int| f(s[i])) }
pub open spec fn s_replace<T>(s: Seq<T>, i: int, l: int, v: Seq<T>) -> Seq<T> {
    s.subrange(0, i) + v + s.subrange(if i + l < s.len() && 0 <= l { i + l } else { s.len() as int }, s.len() as int)
}
pub open spec fn fold<A, B>(s: Seq<A>, init: B, f: spec_fn(B, A) -> B) -> B decreases s.len() {
    if s.len() == 0 { init } else { f(fold(s.drop_last(), init, f), s.last()) }
}
pub open spec fn seq_all<A>(s: Seq<A>, f: spec_fn(A) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) }
pub open spec fn seq_any<A>(s: Seq<A>, f: spec_fn(A) -> bool) -> bool { exists|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) }
// position of the first element of s[i..j] that satisfies f, else j
pub open spec fn find_from<A>(s: Seq<A>, f: spec_fn(A) -> bool, i: int, j: int) -> int decreases j - i {
    if i >= j { j } else if f(s[i]) { i } else { find_from(s, f, i + 1, j) }
}
pub proof fn lemma_find_from<A>(s: Seq<A>, f: spec_fn(A) -> bool, i: int, j: int)
    requires i <= j
    ensures i <= find_from(s, f, i, j) <= j, find_from(s, f, i, j) < j ==> f(s[find_from(s, f, i, j)]),
        forall|k: int| i <= k < find_from(s, f, i, j) ==> !f(#[trigger] s[k])
    decreases j - i
{ if i < j && !f(s[i]) { lemma_find_from(s, f, i + 1, j); } }
// two predicates that agree find the same element
pub proof fn lemma_find_from_ext<A>(s: Seq<A>, f: spec_fn(A) -> bool, g: spec_fn(A) -> bool, i: int, j: int)
    requires i <= j, forall|k: int| i <= k < j ==> f(#[trigger] s[k]) == g(s[k])
    ensures find_from(s, f, i, j) == find_from(s, g, i, j)
    decreases j - i
{ if i < j && !f(s[i]) { lemma_find_from_ext(s, f, g, i + 1, j); } }
pub proof fn lemma_fold_ext<A, B>(s: Seq<A>, init: B, f: spec_fn(B, A) -> B, g: spec_fn(B, A) -> B)
    requires forall|b: B, a: A| #[trigger] f(b, a) == g(b, a)
    ensures fold(s, init, f) == fold(s, init, g)
    decreases s.len()
{ if s.len() > 0 { lemma_fold_ext(s.drop_last(), init, f, g); } }
// a fold that goes through the values g(0), g(1), ...
pub proof fn lemma_fold_is<A, B>(s: Seq<A>, init: B, f: spec_fn(B, A) -> B, g: spec_fn(int) -> B)
    requires g(0) == init, forall|k: int| 0 <= k < s.len() ==> #[trigger] g(k + 1) == f(g(k), s[k])
    ensures fold(s, init, f) == g(s.len() as int)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|k: int| 0 <= k < t.len() implies #[trigger] g(k + 1) == f(g(k), t[k]) by {}
        lemma_fold_is(t, init, f, g);
        assert(g((s.len() - 1) + 1) == f(g(s.len() - 1), s[s.len() - 1]));
    }
}
// std::max_element: the position of the first element that no later one exceeds
pub open spec fn max_elt<A>(s: Seq<A>, f: spec_fn(A, A) -> bool) -> int decreases s.len() {
    if s.len() <= 1 { 0 } else { let b = max_elt(s.drop_last(), f); if f(s[b], s.last()) { s.len() - 1 } else { b } }
}
pub open spec fn is_order<A>(f: spec_fn(A, A) -> bool) -> bool {
    &&& forall|a: A, b: A| #[trigger] f(a, b) ==> !f(b, a)
    &&& forall|a: A, b: A, c: A| #![trigger f(a, b), f(b, c)] !f(a, b) && !f(b, c) ==> !f(a, c)
}
pub proof fn lemma_max_elt<A>(s: Seq<A>, f: spec_fn(A, A) -> bool)
    requires is_order(f), s.len() > 0
    ensures 0 <= max_elt(s, f) < s.len(), forall|i: int| 0 <= i < s.len() ==> !f(s[max_elt(s, f)], #[trigger] s[i])
    decreases s.len()
{
    if s.len() > 1 {
        let t = s.drop_last();
        lemma_max_elt(t, f);
        let b = max_elt(t, f);
        assert forall|i: int| 0 <= i < s.len() implies !f(s[max_elt(s, f)], #[trigger] s[i]) by {
            if i < t.len() { assert(t[i] == s[i]); assert(!f(t[b], t[i])); if f(s[b], s.last()) { assert(!f(s.last(), s[b])); } } else if f(s[b], s.last()) { if f(s.last(), s.last()) { assert(!f(s.last(), s.last())); } }
        };
    } else if f(s[0], s[0]) { assert(!f(s[0], s[0])); }
}
pub open spec fn max_entry<K, V>(m: Map<K, V>, f: spec_fn(Pair<K, V>, Pair<K, V>) -> bool) -> Option<Pair<K, V>> {
    if map_enum(m).len() == 0 { None } else { Some(map_enum(m)[max_elt(map_enum(m), f)]) }
}
pub open spec fn sfilter_not<A>(s: Seq<A>, f: spec_fn(A) -> bool) -> Seq<A> decreases s.len() {
    if s.len() == 0 { s } else if f(s.last()) { sfilter_not(s.drop_last(), f) } else { sfilter_not(s.drop_last(), f).push(s.last()) }
}
// lexicographic comparison: negative, zero, positive
pub uninterp spec fn seq_cmp(a: Seq<int>, b: Seq<int>) -> int;
pub broadcast axiom fn axiom_seq_cmp(a: Seq<int>, b: Seq<int>) ensures (#[trigger] seq_cmp(a, b) == 0) <==> a =~= b;
pub open spec fn occurs(s: Seq<int>, p: Seq<int>, k: int) -> bool { 0 <= k && k + p.len() <= s.len() && s.subrange(k, k + p.len()) =~= p }
// string::find: least position >= i at which p occurs, else npos
pub open spec fn s_find(s: Seq<int>, p: Seq<int>, i: int) -> int decreases s.len() - i {
    if i < 0 || i + p.len() > s.len() { 18446744073709551615 } else if occurs(s, p, i) { i } else { s_find(s, p, i + 1) }
}

// ---- maps and sets ----
pub open spec fn map_ins<K, V>(m: Map<K, V>, k: K, v: V) -> Map<K, V> { if m.dom().contains(k) { m } else { m.insert(k, v) } }
pub open spec fn map_find<K, V>(m: Map<K, V>, k: K) -> Option<Pair<K, V>> { if m.dom().contains(k) { Some(Pair { first: k, second: m[k] }) } else { None } }
pub open spec fn set_find<K>(m: Set<K>, k: K) -> Option<K> { if m.contains(k) { Some(k) } else { None } }
pub open spec fn map_size<K, V>(m: Map<K, V>) -> int { m.dom().len() as int }
// the order in which a range loop visits the entries of a map: some enumeration of them, each once
pub uninterp spec fn map_enum<K, V>(m: Map<K, V>) -> Seq<Pair<K, V>>;
pub open spec fn is_enum<K, V>(m: Map<K, V>, s: Seq<Pair<K, V>>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).first) && m[s[i].first] == s[i].second
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (Pair { first: k, second: m[k] })
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).first != (#[trigger] s[j]).first
}
pub broadcast axiom fn axiom_map_enum<K, V>(m: Map<K, V>) ensures is_enum(m, #[trigger] map_enum(m));
// ---- string streams ----
pub struct Oss { pub out: Seq<int>, pub hex: bool, pub upper: bool, pub width: int, pub fill: int }
pub open spec fn oss_new() -> Oss { Oss { out: Seq::empty(), hex: false, upper: false, width: 0, fill: 32 } }
pub open spec fn oss_str(o: Oss, s: Seq<int>) -> Oss { Oss { out: o.out + srep(o.width - s.len(), o.fill) + s, width: 0, ..o } }
pub open spec fn hex_digit(d: int, up: bool) -> int { if d < 10 { 48 + d } else if up { 55 + d } else { 87 + d } }
pub open spec fn hex_digits(n: int, up: bool) -> Seq<int> decreases n { if n < 16 { seq![hex_digit(n, up)] } else { hex_digits(n / 16, up).push(hex_digit(n % 16, up)) } }
pub open spec fn oss_int(o: Oss, n: int) -> Oss { oss_str(o, if o.hex { hex_digits(n, o.upper) } else { i_to_string(n) }) }
pub struct Iss { pub rest: Seq<int>, pub ok: bool }
pub open spec fn ws(c: int) -> bool { c == 32 || 9 <= c <= 13 }
pub open spec fn ws_skip(s: Seq<int>) -> Seq<int> decreases s.len() { if s.len() > 0 && ws(s[0]) { ws_skip(s.skip(1)) } else { s } }
// the first word of a text, and what follows it
pub open spec fn ws_end(s: Seq<int>, k: int) -> int decreases s.len() - k { if 0 <= k < s.len() && !ws(s[k]) { ws_end(s, k + 1) } else { k } }
pub open spec fn ws_word(s: Seq<int>) -> Seq<int> { let t = ws_skip(s); t.take(ws_end(t, 0)) }
pub open spec fn ws_rest(s: Seq<int>) -> Seq<int> { let t = ws_skip(s); t.skip(ws_end(t, 0)) }
pub open spec fn iss_next(i: Iss) -> Iss { if !i.ok || ws_skip(i.rest).len() == 0 { Iss { rest: Seq::empty(), ok: false } } else { Iss { rest: ws_rest(i.rest), ok: true } } }
