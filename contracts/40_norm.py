# ---- the alignment table of a normalized text (C21) ----
spec(r"""
pub type PI = Pair<int, int>;
// where the entries of character i begin in the list of original positions
pub open spec fn rpos(r: Seq<PI>, n: int, i: int) -> int { if i < r.len() { r[i].first } else { n } }
// consecutive non-empty ranges that cover the list, all positions of a character being equal
pub open spec fn link(r: Seq<PI>, n: int, i: int) -> bool { r[i].second >= 1 && rpos(r, n, i + 1) == r[i].first + r[i].second }
#[verifier::opaque]
pub open spec fn table(o: Seq<PI>, r: Seq<PI>) -> bool {
    &&& rpos(r, o.len() as int, 0) == 0
    &&& forall|i: int| 0 <= i < r.len() ==> #[trigger] link(r, o.len() as int, i)
    &&& forall|i: int, j: int| 0 <= i < r.len() && r[i].first <= j < r[i].first + r[i].second ==> #[trigger] o[j] == o[(#[trigger] r[i]).first]
}
// the original positions of each character
pub open spec fn al_of(o: Seq<PI>, r: Seq<PI>) -> Seq<PI> { Seq::new(r.len(), |i: int| o[r[i].first]) }
pub open spec fn tab(s: NormalizedString) -> bool { table(s.offsets, s.offset_ranges) }
pub open spec fn al(s: NormalizedString) -> Seq<PI> { al_of(s.offsets, s.offset_ranges) }
// well formed: one entry per character
pub open spec fn wf(s: NormalizedString) -> bool { tab(s) && s.offset_ranges.len() == s.normalized.len() }
// non-empty ranges inside a text of n characters, in non-decreasing order
pub open spec fn ok_al(a: Seq<PI>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> 0 <= (#[trigger] a[i]).first < a[i].second <= n
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).first <= (#[trigger] a[j]).first && a[i].second <= a[j].second
}
// everything that is true of the positions of a is still true of those of b
pub open spec fn keeps_ok(a: Seq<PI>, b: Seq<PI>) -> bool { forall|n: int| #[trigger] ok_al(a, n) ==> ok_al(b, n) }
pub proof fn lemma_rpos(o: Seq<PI>, r: Seq<PI>, i: int, j: int)
    requires table(o, r), 0 <= i <= j <= r.len()
    ensures 0 <= rpos(r, o.len() as int, i) <= rpos(r, o.len() as int, j) <= o.len(), i < j ==> rpos(r, o.len() as int, i) < rpos(r, o.len() as int, j),
        i < j ==> r[i].first + r[i].second <= rpos(r, o.len() as int, j)
    decreases j - i
{
    reveal(table);
    lemma_rpos0(o, r, i);
    lemma_rpos_end(o, r, j);
    if i < j { assert(link(r, o.len() as int, i)); lemma_rpos(o, r, i + 1, j); }
}
pub proof fn lemma_rpos0(o: Seq<PI>, r: Seq<PI>, i: int)
    requires table(o, r), 0 <= i <= r.len() ensures 0 <= rpos(r, o.len() as int, i) decreases i
{ reveal(table); if i > 0 { lemma_rpos0(o, r, i - 1); assert(link(r, o.len() as int, i - 1)); } }
pub proof fn lemma_rpos_end(o: Seq<PI>, r: Seq<PI>, i: int)
    requires table(o, r), 0 <= i <= r.len() ensures rpos(r, o.len() as int, i) <= o.len() decreases r.len() - i
{ reveal(table); if i < r.len() { lemma_rpos_end(o, r, i + 1); assert(link(r, o.len() as int, i)); } }
pub open spec fn spl_o(o: Seq<PI>, r: Seq<PI>, i: int, l: int, mo: Seq<PI>) -> Seq<PI> {
    o.take(rpos(r, o.len() as int, i)) + mo + o.skip(rpos(r, o.len() as int, i + l))
}
pub open spec fn spl_r(o: Seq<PI>, r: Seq<PI>, i: int, l: int, mo: Seq<PI>, mr: Seq<PI>) -> Seq<PI> {
    let s = rpos(r, o.len() as int, i);
    let e = rpos(r, o.len() as int, i + l);
    Seq::new((r.len() - l + mr.len()) as nat, |k: int|
        if k < i { r[k] } else if k < i + mr.len() { Pair { first: s + mr[k - i].first, second: mr[k - i].second } }
        else { Pair { first: r[k - mr.len() + l].first + mo.len() - (e - s), second: r[k - mr.len() + l].second } })
}
pub open spec fn spl_al(a: Seq<PI>, i: int, l: int, m: Seq<PI>) -> Seq<PI> { a.take(i) + m + a.skip(i + l) }
// replacing the entries of l characters by another table
pub proof fn lemma_splice(o: Seq<PI>, r: Seq<PI>, i: int, l: int, mo: Seq<PI>, mr: Seq<PI>)
    requires table(o, r), table(mo, mr), 0 <= i, 0 <= l, i + l <= r.len()
    ensures table(spl_o(o, r, i, l, mo), spl_r(o, r, i, l, mo, mr)),
        al_of(spl_o(o, r, i, l, mo), spl_r(o, r, i, l, mo, mr)) =~= spl_al(al_of(o, r), i, l, al_of(mo, mr))
{
    reveal(table);
    let n = o.len() as int;
    let s = rpos(r, n, i);
    let e = rpos(r, n, i + l);
    let m = mr.len() as int;
    let o2 = spl_o(o, r, i, l, mo);
    let r2 = spl_r(o, r, i, l, mo, mr);
    let n2 = o2.len() as int;
    lemma_rpos(o, r, i, i + l);
    lemma_rpos(mo, mr, 0, m);
    assert(n2 == s + mo.len() + n - e);
    assert(rpos(r2, n2, 0) == 0);
    assert forall|k: int| 0 <= k < r2.len() implies #[trigger] link(r2, n2, k) by {
        if k < i { assert(link(r, n, k)); }
        else if k < i + m { assert(link(mr, mo.len() as int, k - i)); }
        else { assert(link(r, n, k - m + l)); }
    }
    assert forall|k: int, j: int| 0 <= k < r2.len() && r2[k].first <= j < r2[k].first + r2[k].second implies #[trigger] o2[j] == o2[(#[trigger] r2[k]).first] by {
        lemma_splice_at(o, r, i, l, mo, mr, k);
        if k < i { assert(o2[j] == o[j]); }
        else if k < i + m { assert(o2[j] == mo[j - s]); }
        else { assert(o2[j] == o[j - mo.len() + (e - s)]); }
    }
    assert forall|k: int| 0 <= k < r2.len() implies o2[r2[k].first] == spl_al(al_of(o, r), i, l, al_of(mo, mr))[k] by {
        lemma_splice_at(o, r, i, l, mo, mr, k);
    }
}
pub proof fn lemma_splice_at(o: Seq<PI>, r: Seq<PI>, i: int, l: int, mo: Seq<PI>, mr: Seq<PI>, k: int)
    requires table(o, r), table(mo, mr), 0 <= i, 0 <= l, i + l <= r.len(), 0 <= k < r.len() - l + mr.len()
    ensures ({ let s = rpos(r, o.len() as int, i); let e = rpos(r, o.len() as int, i + l); let m = mr.len() as int; let o2 = spl_o(o, r, i, l, mo); let p = spl_r(o, r, i, l, mo, mr)[k];
        &&& o2.len() == s + mo.len() + o.len() - e && p.second >= 1
        &&& k < i ==> 0 <= p.first && p.first + p.second <= s && o2[p.first] == o[r[k].first]
        &&& i <= k < i + m ==> s <= p.first && p.first + p.second <= s + mo.len() && o2[p.first] == mo[mr[k - i].first]
        &&& i + m <= k ==> s + mo.len() <= p.first && p.first + p.second <= o2.len() && o2[p.first] == o[r[k - m + l].first] })
{
    let n = o.len() as int;
    let m = mr.len() as int;
    lemma_rpos(o, r, i, i + l);
    lemma_rpos(o, r, i + l, r.len() as int);
    if k < i { lemma_rpos(o, r, k, i); lemma_second(o, r, k); }
    else if k < i + m { lemma_rpos(mo, mr, k - i, m); lemma_second(mo, mr, k - i); }
    else { let q = k - m + l; lemma_rpos(o, r, i + l, q); lemma_rpos(o, r, q, r.len() as int); lemma_second(o, r, q); }
}
pub proof fn lemma_second(o: Seq<PI>, r: Seq<PI>, i: int)
    requires table(o, r), 0 <= i < r.len() ensures r[i].second >= 1
{ reveal(table); assert(link(r, o.len() as int, i)); }
pub proof fn lemma_al_in(o: Seq<PI>, r: Seq<PI>, i: int)
    requires table(o, r), 0 <= i < r.len() ensures 0 <= r[i].first, r[i].first + r[i].second <= o.len(), r[i].second >= 1, rpos(r, o.len() as int, i + 1) == r[i].first + r[i].second, al_of(o, r)[i] == o[r[i].first], o[r[i].first + r[i].second - 1] == o[r[i].first]
{ lemma_rpos(o, r, i, i + 1); lemma_rpos(o, r, i + 1, r.len() as int); lemma_second(o, r, i); reveal(table); assert(link(r, o.len() as int, i)); assert(o[r[i].first + r[i].second - 1] == o[r[i].first]); }
// n characters aligned with p
pub open spec fn one_each(s: int, n: int) -> Seq<PI> { Seq::new(if n > 0 { n as nat } else { 0 }, |k: int| Pair { first: s + k, second: 1int }) }
pub proof fn lemma_rep_table(p: PI, n: int)
    requires n >= 0 ensures table(srep(n, p), one_each(0, n)), al_of(srep(n, p), one_each(0, n)) =~= srep(n, p)
{ reveal(table); }
pub proof fn lemma_ok_splice(a: Seq<PI>, i: int, l: int, m: Seq<PI>)
    requires 0 <= i, 0 <= l, i + l <= a.len(), m.len() > 0 ==> l > 0,
        forall|k: int| 0 <= k < m.len() ==> (#[trigger] m[k]).first == a[i].first && m[k].second == a[i + l - 1].second
    ensures keeps_ok(a, spl_al(a, i, l, m))
{
    assert forall|n: int| #[trigger] ok_al(a, n) implies ok_al(spl_al(a, i, l, m), n) by {
        let b = spl_al(a, i, l, m);
        let f = |k: int| if k < i { k } else if k < i + m.len() { i } else { k - m.len() + l };
        let g = |k: int| if k < i { k } else if k < i + m.len() { i + l - 1 } else { k - m.len() + l };
        assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k] == (Pair { first: a[f(k)].first, second: a[g(k)].second }) && 0 <= f(k) <= g(k) < a.len() by {}
        assert forall|k: int| 0 <= k < b.len() implies 0 <= (#[trigger] b[k]).first < b[k].second <= n by {
            assert(a[f(k)].first < a[f(k)].second); if f(k) < g(k) { assert(a[f(k)].second <= a[g(k)].second); } assert(a[g(k)].second <= n); }
        assert forall|j: int, k: int| 0 <= j < k < b.len() implies (#[trigger] b[j]).first <= (#[trigger] b[k]).first && b[j].second <= b[k].second by {
            assert(f(j) <= f(k) && g(j) <= g(k)); if f(j) < f(k) { assert(a[f(j)].first <= a[f(k)].first); } if g(j) < g(k) { assert(a[g(j)].second <= a[g(k)].second); } }
    }
}
pub proof fn lemma_keeps_refl(a: Seq<PI>) ensures keeps_ok(a, a) {}
pub proof fn lemma_keeps_trans(a: Seq<PI>, b: Seq<PI>, c: Seq<PI>) requires keeps_ok(a, b), keeps_ok(b, c) ensures keeps_ok(a, c) {}
// what replace_range puts in place of the characters
pub open spec fn rr_mid(a: Seq<PI>, i: int, l: int, n: int) -> Seq<PI> { srep(n, Pair { first: a[i].first, second: a[i + l - 1].second }) }
""")
NS = "C06,C08,C19,C20,C21,C22,C23,C26,C27"
fn("NormalizedString::replace_range", mut=["this"],
   requires=["tab($this)", "0 <= $i", "0 <= $length", "$i + $length <= $this.offset_ranges.len()", "0 <= $new_length", "$new_length > 0 ==> $length > 0"],
   ensures={"*:text": "$this'.normalized == $this.normalized", "*:table": "tab($this')",
            "*:aligned": "al($this') == spl_al(al($this), $i, $length, rr_mid(al($this), $i, $length, $new_length))",
            "*:positions": "keeps_ok(al($this), al($this'))"},
   hints={"entry": "lemma_rpos($this.offsets, $this.offset_ranges, $i, $i + $length); if $length > 0 { lemma_al_in($this.offsets, $this.offset_ranges, $i); lemma_al_in($this.offsets, $this.offset_ranges, $i + $length - 1); lemma_rpos($this.offsets, $this.offset_ranges, $i + $length - 1, $i + $length); }",
          "return": """let ghost o = $0this.offsets; let ghost r = $0this.offset_ranges; let ghost a = al($0this);
             let ghost p = Pair { first: a[$i].first, second: a[$i + $length - 1].second };
             let ghost mo = srep($new_length, p); let ghost mr = one_each(0, $new_length);
             lemma_rep_table(p, $new_length); lemma_splice(o, r, $i, $length, mo, mr); lemma_ok_splice(a, $i, $length, mo);
             assert($this.offsets =~= spl_o(o, r, $i, $length, mo)); assert($this.offset_ranges =~= spl_r(o, r, $i, $length, mo, mr));"""},
   loops=[dict(inv=["$new_offsets =~= srep($j, Pair { first: $0this.offsets[$start].first, second: $0this.offsets[$end - 1].second })", "$new_offset_ranges =~= one_each($start, $j)"]),
          dict(dec="imax(0, slen($this.offset_ranges) - $j)", inv=["$i + $new_length <= $j", "$this.offset_ranges.len() == $0this.offset_ranges.len() - $length + $new_length",
                    "forall|k: int| 0 <= k < $i ==> #[trigger] $this.offset_ranges[k] == $0this.offset_ranges[k]",
                    "forall|k: int| $i <= k < $i + $new_length ==> #[trigger] $this.offset_ranges[k] == (Pair { first: $start + (k - $i), second: 1int })",
                    "forall|k: int| $i + $new_length <= k < $this.offset_ranges.len() ==> (#[trigger] $this.offset_ranges[k]).second == $0this.offset_ranges[k - $new_length + $length].second",
                    "forall|k: int| $i + $new_length <= k < $this.offset_ranges.len() ==> (#[trigger] $this.offset_ranges[k]).first == $0this.offset_ranges[k - $new_length + $length].first + (if k < $j { $new_length - ($end - $start) } else { 0 })"])],
   props="C21")
spec(r"""
pub open spec fn op_erase(op: Seq<int>) -> bool { op =~= S"erase" || op =~= S"shrink" }
pub open spec fn op_pad(op: Seq<int>) -> bool { op =~= S"pad" }
pub open spec fn op_grow(op: Seq<int>) -> bool { op =~= S"grow" }
pub open spec fn op_add(op: Seq<int>) -> bool { op =~= S"add" }
pub open spec fn op_replace(op: Seq<int>) -> bool { op =~= S"replace" }
// how many characters stand for the character afterwards, all aligned with it
pub open spec fn op_count(op: Seq<int>) -> int { if op_erase(op) { 0 } else if op_pad(op) { 3 } else if op_grow(op) || op_add(op) { 2 } else { 1 } }
// the entries of the character after pad, add or replace, relative to its first one
pub open spec fn op_ranges(op: Seq<int>, n: int, limit: int) -> Seq<PI> {
    if op_pad(op) { seq![Pair { first: 0int, second: 1int }, Pair { first: 1int, second: limit }, Pair { first: 1 + limit, second: 1int }] }
    else if op_add(op) { seq![Pair { first: 0int, second: n }, Pair { first: n, second: limit }] }
    else { seq![Pair { first: 0int, second: n }] }
}
pub open spec fn op_len(op: Seq<int>, n: int, limit: int) -> int { if op_pad(op) { 2 + limit } else if op_add(op) { n + limit } else { n } }
pub proof fn lemma_op_ranges(op: Seq<int>, n: int, limit: int, p: PI)
    requires n >= 1, limit >= 1
    ensures table(srep(op_len(op, n, limit), p), op_ranges(op, n, limit)),
        al_of(srep(op_len(op, n, limit), p), op_ranges(op, n, limit)) =~= srep(op_ranges(op, n, limit).len() as int, p)
{ reveal(table); }
pub proof fn lemma_group(o: Seq<PI>, r: Seq<PI>, i: int)
    requires table(o, r), 0 <= i < r.len()
    ensures forall|j: int| r[i].first <= j < r[i].first + r[i].second ==> #[trigger] o[j] == o[r[i].first]
{ reveal(table); assert(r[i] == r[i]); }
""")
fn("NormalizedString::transform", mut=["this"], rlimit=60,
   requires=["tab($this)", "0 <= $i < $this.offset_ranges.len()", "op_erase($op) || op_pad($op) || op_grow($op) || op_add($op) || op_replace($op)",
             "op_add($op) || op_replace($op) ==> $n >= 1", "op_replace($op) ==> $this.offset_ranges[$i].second == 1"],
   ensures={"*:text": "$this'.normalized == $this.normalized", "*:table": "tab($this')",
            "*:aligned": "al($this') == spl_al(al($this), $i, 1, srep(op_count($op), al($this)[$i]))",
            "*:positions": "keeps_ok(al($this), al($this'))"},
   hints={"entry": "lemma_al_in($this.offsets, $this.offset_ranges, $i); lemma_group($this.offsets, $this.offset_ranges, $i);",
          "return": """let ghost o = $0this.offsets; let ghost r = $0this.offset_ranges; let ghost a = al($0this); let ghost p = a[$i]; let ghost limit = r[$i].second;
             assert(p == (Pair { first: p.first, second: p.second }));
             if op_pad($op) || op_add($op) || op_replace($op) {
                 let ghost n = if op_pad($op) { 1 } else { $n };
                 let ghost mo = srep(op_len($op, n, limit), p); let ghost mr = op_ranges($op, n, limit);
                 lemma_op_ranges($op, n, limit, p); lemma_splice(o, r, $i, 1, mo, mr); lemma_ok_splice(a, $i, 1, srep(op_count($op), p));
                 assert($this.offsets =~= spl_o(o, r, $i, 1, mo)); assert($this.offset_ranges =~= spl_r(o, r, $i, 1, mo, mr));
             } else { assert(rr_mid(a, $i, 1, op_count($op)) =~= srep(op_count($op), p)); }"""},
   loops=[dict(dec="imax(0, slen($this.offset_ranges) - $j)", inv=["$i + 3 <= $j", "$this.offset_ranges.len() == $0this.offset_ranges.len() + 2",
                    "forall|k: int| 0 <= k < $i ==> #[trigger] $this.offset_ranges[k] == $0this.offset_ranges[k]",
                    "forall|k: int| $i <= k < $i + 3 ==> #[trigger] $this.offset_ranges[k] == (Pair { first: $start + op_ranges($op, 1, $limit)[k - $i].first, second: op_ranges($op, 1, $limit)[k - $i].second })",
                    "forall|k: int| $i + 3 <= k < $this.offset_ranges.len() ==> (#[trigger] $this.offset_ranges[k]).second == $0this.offset_ranges[k - 2].second",
                    "forall|k: int| $i + 3 <= k < $j ==> (#[trigger] $this.offset_ranges[k]).first == $0this.offset_ranges[k - 2].first + 2"],
               head="lemma_al_in($0this.offsets, $0this.offset_ranges, $j - 3); lemma_rpos($0this.offsets, $0this.offset_ranges, 0, 0);"),
          dict(dec="imax(0, slen($this.offset_ranges) - $j)", inv=["$i + (if op_add($op) { 2int } else { 1 }) <= $j", "$this.offset_ranges.len() == $0this.offset_ranges.len() + (if op_add($op) { 1int } else { 0 })",
                    "forall|k: int| 0 <= k < $i ==> #[trigger] $this.offset_ranges[k] == $0this.offset_ranges[k]",
                    "forall|k: int| $i <= k < $i + op_ranges($op, $n, $limit).len() ==> #[trigger] $this.offset_ranges[k] == (Pair { first: $start + op_ranges($op, $n, $limit)[k - $i].first, second: op_ranges($op, $n, $limit)[k - $i].second })",
                    "forall|k: int| $i + op_ranges($op, $n, $limit).len() <= k < $this.offset_ranges.len() ==> (#[trigger] $this.offset_ranges[k]).second == $0this.offset_ranges[k - op_ranges($op, $n, $limit).len() + 1].second",
                    "forall|k: int| $i + op_ranges($op, $n, $limit).len() <= k < $j ==> (#[trigger] $this.offset_ranges[k]).first == $0this.offset_ranges[k - op_ranges($op, $n, $limit).len() + 1].first + op_len($op, $n, $limit) - $limit"],
               head="lemma_al_in($0this.offsets, $0this.offset_ranges, $j - op_ranges($op, $n, $limit).len());")],
   props="C21")
# ---- a fresh text ----
spec(r"""
pub open spec fn al_id(n: int) -> Seq<PI> { Seq::new(n as nat, |i: int| Pair { first: i, second: i + 1 }) }
// the table so far covers the list so far
pub open spec fn fresh_tab(o: Seq<PI>, r: Seq<PI>, k: int) -> bool { table(o, r) && al_of(o, r) == al_id(k) }
pub open spec fn ch_bytes(c: int) -> int { slen(u_to8(u_append32(Seq::empty(), c))) }
pub open spec fn fresh_o(w: Seq<int>, k: int) -> Seq<PI> decreases k { if k <= 0 { Seq::empty() } else { fresh_o(w, k - 1) + srep(ch_bytes(w[k - 1]), Pair { first: k - 1, second: k }) } }
pub open spec fn fresh_r(w: Seq<int>, k: int) -> Seq<PI> decreases k { if k <= 0 { Seq::empty() } else { fresh_r(w, k - 1).push(Pair { first: fresh_o(w, k - 1).len() as int, second: ch_bytes(w[k - 1]) }) } }
pub open spec fn fresh(w: Seq<int>) -> NormalizedString { NormalizedString { normalized: w, offsets: fresh_o(w, w.len() as int), offset_ranges: fresh_r(w, w.len() as int) } }
pub proof fn lemma_fresh(w: Seq<int>, k: int)
    requires 0 <= k <= w.len() ensures fresh_tab(fresh_o(w, k), fresh_r(w, k), k), fresh_r(w, k).len() == k decreases k
{ if k > 0 { lemma_fresh(w, k - 1); axiom_u_to8_len(u_append32(Seq::empty(), w[k - 1])); lemma_tab_push(fresh_o(w, k - 1), fresh_r(w, k - 1), k - 1, ch_bytes(w[k - 1])); } else { lemma_tab_empty(); } }
pub proof fn lemma_fresh_wf(w: Seq<int>) ensures wf(fresh(w)), al(fresh(w)) == al_id(w.len() as int), ok_al(al(fresh(w)), w.len() as int) { lemma_fresh(w, w.len() as int); }
pub proof fn lemma_tab_empty() ensures fresh_tab(Seq::empty(), Seq::empty(), 0) { reveal(table); assert(al_of(Seq::empty(), Seq::empty()) =~= al_id(0)); }

pub proof fn lemma_tab_push(o: Seq<PI>, r: Seq<PI>, k: int, n: int)
    requires fresh_tab(o, r, k), n >= 1, k >= 0
    ensures fresh_tab(o + srep(n, Pair { first: k, second: k + 1 }), r.push(Pair { first: o.len() as int, second: n }), k + 1)
{
    let p = Pair { first: k, second: k + 1 };
    assert(al_id(k).len() == k && r.len() == k) by { assert(al_of(o, r).len() == r.len()); }
    let mo = srep(n, p);
    let mr = seq![Pair { first: 0int, second: n }];
    assert(table(mo, mr) && al_of(mo, mr) =~= seq![p]) by { reveal(table); }
    lemma_splice(o, r, k, 0, mo, mr);
    lemma_rpos(o, r, k, k);
    assert(spl_o(o, r, k, 0, mo) =~= o + mo);
    assert(spl_r(o, r, k, 0, mo, mr) =~= r.push(Pair { first: o.len() as int, second: n }));
    assert(spl_al(al_id(k), k, 0, seq![p]) =~= al_id(k + 1));
}
""")
fn("NormalizedString::NormalizedString/1",
   ensures={"*:value": "$r =~~= fresh($normalized)", "*:text": "$r.normalized == $normalized", "*:table": "wf($r)", "*:aligned": "al($r) == al_id($normalized.len() as int)", "C21,C22:positions": "ok_al(al($r), $normalized.len() as int)"},
   loops=[dict(inv=["$idx == $this.offsets.len()", "fresh_tab($this.offsets, $this.offset_ranges, $i)", "$this.offsets =~= fresh_o($normalized, $i)", "$this.offset_ranges =~= fresh_r($normalized, $i)"],
               before="lemma_tab_empty();",
               head="@let oo = $this.offsets; @let rr = $this.offset_ranges; axiom_u_to8_len(u_append32(Seq::empty(), $normalized[$i]));",
               ),
          dict(inv=["$this.offsets =~= #oo + srep($j, Pair { first: $i, second: $i + 1 })"],
               after="lemma_tab_push(#oo, #rr, $i, $normalized_str.len() as int); assert($j == $normalized_str.len()); assert($this.offset_ranges =~= #rr.push(Pair { first: #oo.len() as int, second: $normalized_str.len() as int }));")],
   hints={"return": "assert(al($r).len() == $r.offset_ranges.len());"},
   props="C21")
# ---- replacing a range by another normalized text ----
spec(r"""
pub open spec fn sh_o(o: Seq<PI>, d: int) -> Seq<PI> { Seq::new(o.len(), |i: int| Pair { first: o[i].first + d, second: o[i].second + d }) }
// the first original position of the range (0 if it is empty)
pub open spec fn tr_shift(s: NormalizedString, a: int, b: int) -> int {
    let n = s.offsets.len() as int;
    if rpos(s.offset_ranges, n, a) < rpos(s.offset_ranges, n, b) { s.offsets[rpos(s.offset_ranges, n, a)].first } else { 0 }
}
pub open spec fn tr_range(s: NormalizedString, a: int, b: int, m: NormalizedString) -> NormalizedString {
    let mo = sh_o(m.offsets, tr_shift(s, a, b));
    NormalizedString { normalized: s_replace(s.normalized, a, b - a, m.normalized), offsets: spl_o(s.offsets, s.offset_ranges, a, b - a, mo), offset_ranges: spl_r(s.offsets, s.offset_ranges, a, b - a, mo, m.offset_ranges) }
}
pub proof fn lemma_sh(o: Seq<PI>, r: Seq<PI>, d: int)
    requires table(o, r) ensures table(sh_o(o, d), r), al_of(sh_o(o, d), r) =~= sh_o(al_of(o, r), d)
{
    lemma_rpos(o, r, 0, r.len() as int);
    assert forall|i: int| 0 <= i < r.len() implies al_of(sh_o(o, d), r)[i] == sh_o(al_of(o, r), d)[i] by { lemma_al_in(o, r, i); }
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] link(r, o.len() as int, i) by { reveal(table); }
    assert forall|i: int, j: int| 0 <= i < r.len() && r[i].first <= j < r[i].first + r[i].second implies #[trigger] sh_o(o, d)[j] == sh_o(o, d)[(#[trigger] r[i]).first] by { lemma_al_in(o, r, i); lemma_group(o, r, i); }
    assert(rpos(r, o.len() as int, 0) == 0) by { reveal(table); }
    reveal(table);
}
// the table stays well formed; the characters of m are aligned with the range's positions
pub proof fn lemma_tr_range(s: NormalizedString, a: int, b: int, m: NormalizedString)
    requires wf(s), wf(m), 0 <= a <= b <= s.normalized.len()
    ensures wf(tr_range(s, a, b, m)), al(tr_range(s, a, b, m)) =~= spl_al(al(s), a, b - a, sh_o(al(m), if a < b { al(s)[a].first } else { 0 }))
{
    let d = tr_shift(s, a, b);
    lemma_rpos(s.offsets, s.offset_ranges, a, b);
    if a < b { lemma_al_in(s.offsets, s.offset_ranges, a); }
    lemma_sh(m.offsets, m.offset_ranges, d);
    lemma_splice(s.offsets, s.offset_ranges, a, b - a, sh_o(m.offsets, d), m.offset_ranges);
}
""")
fn("NormalizedString::transform_range", mut=["this"], requires=["wf($this)", "wf($sub_normalized)", "0 <= $original_offsets.first <= $original_offsets.second <= $this.normalized.len()"],
   ensures={"*:value": "$this' =~~= tr_range($this, $original_offsets.first, $original_offsets.second, $sub_normalized)"}, props="C21",
   hints={"entry": "lemma_rpos($this.offsets, $this.offset_ranges, $original_offsets.first, $original_offsets.second); lemma_tr_range($this, $original_offsets.first, $original_offsets.second, $sub_normalized); if $original_offsets.first < $original_offsets.second { lemma_al_in($this.offsets, $this.offset_ranges, $original_offsets.first); }"},
   loops=[dict(inv=["$sub_normalized.offsets =~= Seq::new($0sub_normalized.offsets.len(), |j: int| if j < #i { Pair { first: $0sub_normalized.offsets[j].first + $shift, second: $0sub_normalized.offsets[j].second + $shift } } else { $0sub_normalized.offsets[j] })",
                    "$sub_normalized.offset_ranges == $0sub_normalized.offset_ranges", "$sub_normalized.normalized == $0sub_normalized.normalized"]),
          dict(inv=["$sub_normalized.offset_ranges =~= Seq::new($0sub_normalized.offset_ranges.len(), |j: int| if j < #i { Pair { first: $0sub_normalized.offset_ranges[j].first + $offsets_start, second: $0sub_normalized.offset_ranges[j].second } } else { $0sub_normalized.offset_ranges[j] })",
                    "$sub_normalized.offsets =~= sh_o($0sub_normalized.offsets, $shift)", "$sub_normalized.normalized == $0sub_normalized.normalized"]),
          dict(inv=["$original_end <= $i", "$this.normalized == $0this.normalized", "$this.offsets == $0this.offsets",
                    "$this.offset_ranges =~= Seq::new($0this.offset_ranges.len(), |j: int| if $original_end <= j < $i { Pair { first: $0this.offset_ranges[j].first + $added - ($offsets_end - $offsets_start), second: $0this.offset_ranges[j].second } } else { $0this.offset_ranges[j] })"],
               after="@let p = $this;")],
   )
# ---- the normalizers that work character by character ----
spec(r"""
// @icu u_isUWhiteSpace
// @icu u_charType
// @icu u_tolower
// the elements of x at the places where s satisfies f, among the first k
pub open spec fn keep_t<A, T>(s: Seq<A>, x: Seq<T>, f: spec_fn(A) -> bool, k: int) -> Seq<T> decreases k {
    if k <= 0 { Seq::empty() } else if f(s[k - 1]) { keep_t(s, x, f, k - 1).push(x[k - 1]) } else { keep_t(s, x, f, k - 1) }
}
pub proof fn lemma_keep_len<A, T, U>(s: Seq<A>, x: Seq<T>, y: Seq<U>, f: spec_fn(A) -> bool, k: int)
    ensures keep_t(s, x, f, k).len() == keep_t(s, y, f, k).len() decreases k
{ if k > 0 { lemma_keep_len(s, x, y, f, k - 1); } }
// erasing the character at place k of what is kept and the rest
pub proof fn lemma_erase(done: Seq<PI>, a: Seq<PI>, i: int, m: Seq<PI>)
    requires 0 <= i < a.len()
    ensures spl_al(done + a.skip(i), done.len() as int, 1, m) =~= done + m + a.skip(i + 1)
{}
pub proof fn lemma_no_mid(a: Seq<PI>, i: int, l: int) ensures rr_mid(a, i, l, 0) =~= Seq::<PI>::empty() {}
pub proof fn lemma_srep0(p: PI) ensures srep(0, p) =~= Seq::<PI>::empty() {}
""")
spec(r"""
pub open spec fn not_mark() -> spec_fn(int) -> bool { |c: int| !(0x300 <= c <= 0x36F) }
""")
fn("StripAccents::normalize", requires=["wf($normalized)"],
   ensures={"C20:text": "$r.normalized == keep_t($normalized.normalized, $normalized.normalized, not_mark(), $normalized.normalized.len() as int)",
            "C21,C22:table": "wf($r)", "C21,C22:positions": "keeps_ok(al($normalized), al($r))", "C21,C22:characters": "scalars($normalized.normalized) ==> scalars($r.normalized)",
            "C21,C22:aligned": "al($r) == keep_t($normalized.normalized, al($normalized), not_mark(), $normalized.normalized.len() as int)"},
   hints={"entry": "@let s = $normalized.normalized; @let a = al($normalized); assert(#a.len() == #s.len());"},
   loops=[dict(dec="imax(0, slen(#s) - #i)", inv=["$normalized.normalized == #s", "tab($normalized)", "keeps_ok(#a, al($normalized))",
                    "$result == keep_t(#s, #s, not_mark(), #i)",
                    "al($normalized) =~= keep_t(#s, #a, not_mark(), #i) + #a.skip(#i)"],
               head="assert(al($normalized).len() == $normalized.offset_ranges.len()); lemma_keep_len(#s, #s, #a, not_mark(), #i); lemma_erase(keep_t(#s, #a, not_mark(), #i), #a, #i, srep(0, al($normalized)[$result.len() as int])); lemma_srep0(al($normalized)[$result.len() as int]);",
               after="if scalars(#s) { lemma_keep_scalars2(#s, #s, not_mark(), #i); } lemma_keep_len(#s, #s, #a, not_mark(), #i); assert(al($normalized).len() == $normalized.offset_ranges.len());")])
spec(r"""
pub open spec fn is_uws(c: int) -> bool { u_isUWhiteSpace(c) != 0 }
// where the white space at the start of s ends, where the one at the end begins
pub open spec fn ws_lead(s: Seq<int>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && is_uws(s[i]) { ws_lead(s, i + 1) } else { i } }
pub open spec fn ws_tail(s: Seq<int>, lo: int, e: int) -> int decreases e - lo { if e > lo && is_uws(s[e - 1]) { ws_tail(s, lo, e - 1) } else { e } }
pub open spec fn strip_a(n: Strip, s: Seq<int>) -> int { if n.strip_left { ws_lead(s, 0) } else { 0 } }
pub open spec fn strip_b(n: Strip, s: Seq<int>) -> int { if n.strip_right { ws_tail(s, strip_a(n, s), s.len() as int) } else { s.len() as int } }
pub proof fn lemma_strip_al(a: Seq<PI>, lo: int, hi: int, m1: Seq<PI>, m2: Seq<PI>)
    requires 0 <= lo <= hi <= a.len(), m1.len() == 0, m2.len() == 0
    ensures spl_al(spl_al(a, hi, a.len() - hi, m1), 0, lo, m2) =~= a.subrange(lo, hi), spl_al(a, hi, a.len() - hi, m1) =~= a.take(hi)
{}
""")
fn("Strip::normalize", requires=["wf($normalized)"],
   ensures={"C20:text": "$r.normalized == $normalized.normalized.subrange(strip_a($this, $normalized.normalized), strip_b($this, $normalized.normalized))",
            "C21,C22:table": "wf($r)", "C21,C22:positions": "keeps_ok(al($normalized), al($r))", "C21,C22:characters": "scalars($normalized.normalized) ==> scalars($r.normalized)",
            "C21,C22:aligned": "al($r) == al($normalized).subrange(strip_a($this, $normalized.normalized), strip_b($this, $normalized.normalized))"},
   hints={"entry": "@let s = $normalized.normalized; @let a = al($normalized); assert(#a.len() == #s.len());",
          "call NormalizedString::replace_range#0": "lemma_strip_al(#a, $start, $end, rr_mid(#a, $end, #a.len() - $end, 0), rr_mid(al($normalized), 0, $start, 0)); assert(al($normalized).len() == $normalized.offset_ranges.len());",
          "return": "lemma_strip_al(#a, $start, $end, rr_mid(#a, $end, #a.len() - $end, 0), rr_mid(#a.take($end), 0, $start, 0)); assert(al($r).len() == $r.offset_ranges.len());"},
   loops=[dict(inv=["0 <= $start <= #s.len()", "ws_lead(#s, 0) == ws_lead(#s, $start)"], dec="#s.len() - $start"),
          dict(inv=["$start <= $end <= #s.len()", "ws_tail(#s, $start, #s.len() as int) == ws_tail(#s, $start, $end)"], dec="$end - $start")])
spec(r"""
pub proof fn lemma_prepend(p: PI, n: int, a: Seq<PI>)
    requires n >= 0, a.len() > 0, p == a[0]
    ensures spl_al(srep(n, p) + a, 0, 1, srep(2, (srep(n, p) + a)[0])) =~= srep(n + 1, p) + a
{}
""")
fn("Prepend::normalize", requires=["wf($normalized)", "w8_ok($this.prepend)"],
   ensures={"C20:text": "$r.normalized == (if $normalized.normalized.len() == 0 { $normalized.normalized } else { w_from8($this.prepend) + $normalized.normalized })",
            "C21,C22:table": "wf($r)", "C21,C22:positions": "keeps_ok(al($normalized), al($r))", "C21,C22:characters": "scalars($normalized.normalized) ==> scalars($r.normalized)",
            "C21,C22:aligned": "al($r) == (if $normalized.normalized.len() == 0 { al($normalized) } else { srep(w_from8($this.prepend).len() as int, al($normalized)[0]) + al($normalized) })"},
   hints={"entry": "@let s = $normalized.normalized; @let a = al($normalized); axiom_w_from8($this.prepend); assert(#a.len() == #s.len());"},
   loops=[dict(inv=["$normalized.normalized == #s", "tab($normalized)", "keeps_ok(#a, al($normalized))", "al($normalized) =~= srep($i, #a[0]) + #a"],
               head="assert(al($normalized).len() == $normalized.offset_ranges.len()); lemma_prepend(#a[0], $i, #a);",
               after="assert(al($normalized).len() == $normalized.offset_ranges.len());")])
spec(r"""
// every non-overlapping occurrence of from, found from left to right, replaced by to
pub open spec fn rp_text(s: Seq<int>, from: Seq<int>, to: Seq<int>, i: int) -> Seq<int> decreases s.len() - i {
    if !(0 <= i < s.len()) { Seq::empty() } else if from.len() > 0 && occurs(s, from, i) { to + rp_text(s, from, to, i + from.len()) }
    else { seq![s[i]] + rp_text(s, from, to, i + 1) }
}
pub proof fn lemma_rp_scalars(s: Seq<int>, from: Seq<int>, to: Seq<int>, i: int)
    requires scalars(s), scalars(to) ensures scalars(rp_text(s, from, to, i)) decreases s.len() - i
{ if 0 <= i < s.len() { if from.len() > 0 && occurs(s, from, i) { lemma_rp_scalars(s, from, to, i + from.len()); } else { lemma_rp_scalars(s, from, to, i + 1); } } }
// what stands for an occurrence is aligned with all of it
pub open spec fn rp_al(s: Seq<int>, a: Seq<PI>, from: Seq<int>, to: Seq<int>, i: int) -> Seq<PI> decreases s.len() - i {
    if !(0 <= i < s.len()) { Seq::empty() } else if from.len() > 0 && occurs(s, from, i) { rr_mid(a, i, from.len() as int, to.len() as int) + rp_al(s, a, from, to, i + from.len()) }
    else { seq![a[i]] + rp_al(s, a, from, to, i + 1) }
}
// the table so far: n characters done, the rest as it was from i on
pub open spec fn rp_state(c: Seq<PI>, n: int, a: Seq<PI>, i: int, whole: Seq<PI>, rest: Seq<PI>) -> bool {
    &&& 0 <= n <= c.len() &&& 0 <= i <= a.len() &&& c.skip(n) =~= a.skip(i) &&& whole =~= c.take(n) + rest
}
pub proof fn lemma_rp_copy(c: Seq<PI>, n: int, a: Seq<PI>, i: int, whole: Seq<PI>, rest: Seq<PI>)
    requires 0 <= i < a.len(), rp_state(c, n, a, i, whole, seq![a[i]] + rest)
    ensures rp_state(c, n + 1, a, i + 1, whole, rest)
{ assert(c.skip(n)[0] == a.skip(i)[0]); assert(c.skip(n + 1) =~= c.skip(n).skip(1)); assert(a.skip(i + 1) =~= a.skip(i).skip(1)); assert(c.take(n + 1) =~= c.take(n).push(c[n])); assert(c.take(n) + (seq![a[i]] + rest) =~= c.take(n + 1) + rest); }
pub proof fn lemma_rp_subst(c: Seq<PI>, n: int, a: Seq<PI>, i: int, l: int, k: int, whole: Seq<PI>, rest: Seq<PI>)
    requires 0 <= i, l > 0, k >= 0, i + l <= a.len(), rp_state(c, n, a, i, whole, rr_mid(a, i, l, k) + rest)
    ensures n + l <= c.len(), rp_state(spl_al(c, n, l, rr_mid(c, n, l, k)), n + k, a, i + l, whole, rest)
{
    assert(c.skip(n)[0] == a.skip(i)[0]); assert(c.skip(n)[l - 1] == a.skip(i)[l - 1]);
    assert(rr_mid(c, n, l, k) =~= rr_mid(a, i, l, k));
    let d = spl_al(c, n, l, rr_mid(c, n, l, k));
    assert(c.skip(n + l) =~= c.skip(n).skip(l)); assert(a.skip(i + l) =~= a.skip(i).skip(l));
    assert(d.skip(n + k) =~= c.skip(n + l));
    assert(d.take(n + k) =~= c.take(n) + rr_mid(a, i, l, k));
}
""")
fn("Replace::normalize", requires=["wf($normalized)", "w8_ok($this.pattern)", "w8_ok($this.content)"],
   ensures={"C20:text": "$r.normalized == rp_text($normalized.normalized, w_from8($this.pattern), w_from8($this.content), 0)",
            "C21,C22:table": "wf($r)", "C21,C22:positions": "keeps_ok(al($normalized), al($r))", "C21,C22:characters": "scalars($normalized.normalized) ==> scalars($r.normalized)",
            "C21,C22:aligned": "al($r) == rp_al($normalized.normalized, al($normalized), w_from8($this.pattern), w_from8($this.content), 0)"},
   hints={"entry": "@let s = $normalized.normalized; @let a = al($normalized); assert(#a.len() == #s.len());",
          "return": "axiom_w_from8($this.pattern); axiom_w_from8($this.content); if scalars(#s) { lemma_rp_scalars(#s, $from, $to, 0); }"},
   loops=[dict(inv=["$normalized.normalized == #s", "tab($normalized)", "0 <= $i <= #s.len()", "keeps_ok(#a, al($normalized))",
                    "rp_text(#s, $from, $to, 0) =~= $result + rp_text(#s, $from, $to, $i)",
                    "rp_state(al($normalized), $result.len() as int, #a, $i, rp_al(#s, #a, $from, $to, 0), rp_al(#s, #a, $from, $to, $i))",
                    "al($normalized).len() == $normalized.offset_ranges.len()"],
               before="assert(al($normalized).take(0) =~= Seq::<PI>::empty()); assert(al($normalized).skip(0) =~= #a);",
               head="""axiom_seq_cmp(ssub(#s, $i, $from.len() as int), $from);
                    if $from.len() > 0 && occurs(#s, $from, $i) {
                        assert(ssub(#s, $i, $from.len() as int) =~= #s.subrange($i, $i + $from.len()));
                        lemma_rp_subst(al($normalized), $result.len() as int, #a, $i, $from.len() as int, $to.len() as int, rp_al(#s, #a, $from, $to, 0), rp_al(#s, #a, $from, $to, $i + $from.len()));
                    } else { lemma_rp_copy(al($normalized), $result.len() as int, #a, $i, rp_al(#s, #a, $from, $to, 0), rp_al(#s, #a, $from, $to, $i + 1)); }""",
               end="assert(al($normalized).len() == $normalized.offset_ranges.len());",
               after="assert(al($normalized).take($result.len() as int) =~= al($normalized)) by { assert(al($normalized).skip($result.len() as int).len() == 0); }",
               dec="#s.len() - $i")])
# ---- BERT normalization ----
spec(r"""
// general categories: unassigned, control, format, private use, surrogate
pub open spec fn is_ctl(c: int) -> bool { !(c == 9 || c == 10 || c == 13) && (u_charType(c) == 0 || 15 <= u_charType(c) <= 18) }
pub open spec fn is_space(c: int) -> bool { c == 9 || c == 10 || c == 13 || u_isUWhiteSpace(c) != 0 }
pub open spec fn clean_keep() -> spec_fn(int) -> bool { |c: int| c != 0 && c != 0xFFFD && !is_ctl(c) }
pub open spec fn clean_char() -> spec_fn(int) -> int { |c: int| if is_space(c) { 32 } else { c } }
pub open spec fn is_cjk(c: int) -> bool {
    0x4E00 <= c <= 0x9FFF || 0x3400 <= c <= 0x4DBF || 0x20000 <= c <= 0x2A6DF || 0x2A700 <= c <= 0x2B73F
    || 0x2B740 <= c <= 0x2B81F || 0x2B920 <= c <= 0x2CEAF || 0xF900 <= c <= 0xFAFF || 0x2F800 <= c <= 0x2FA1F
}
pub proof fn lemma_keep_scalars2(s: Seq<int>, x: Seq<int>, f: spec_fn(int) -> bool, k: int)
    requires scalars(x), s.len() == x.len(), 0 <= k <= s.len() ensures scalars(keep_t(s, x, f, k)) decreases k
{ if k > 0 { lemma_keep_scalars2(s, x, f, k - 1); } }
pub proof fn lemma_zh_scalars(s: Seq<int>, k: int) requires scalars(s), 0 <= k <= s.len() ensures scalars(zh_text(s, k)) decreases k { if k > 0 { lemma_zh_scalars(s, k - 1); } }
pub axiom fn axiom_tolower(c: int) ensures is_scalar(c) ==> is_scalar(u_tolower(c));
pub axiom fn axiom_charType(c: int) ensures 0 <= u_charType(c) < 30;
pub proof fn lemma_mask(t: int)
    requires 0 <= t < 30
    ensures band(shl(1, t), 491521) != 0 <==> (t == 0 || 15 <= t <= 18), 0 <= shl(1, t) < 0x1_0000_0000
{
    let x = t as u64;
    assert(((1u64 << x) & 491521u64 != 0) <==> (x == 0 || (15 <= x && x <= 18))) by(bit_vector) requires x < 30;
    assert((1u64 << x) < 0x1_0000_0000u64) by(bit_vector) requires x < 30;
}
pub proof fn lemma_keep_map(s: Seq<int>, f: spec_fn(int) -> bool, g: spec_fn(int) -> int, k: int)
    requires 0 <= k <= s.len()
    ensures keep_t(s, smap(s, g), f, k) =~= smap(keep_t(s, s, f, k), g) decreases k
{ if k > 0 { lemma_keep_map(s, f, g, k - 1); } }
""")
fn("BertNormalizer::do_clean_text", requires=["wf($normalized)"],
   ensures={"C19:text": "$r.normalized == keep_t($normalized.normalized, smap($normalized.normalized, clean_char()), clean_keep(), $normalized.normalized.len() as int)",
            "*:table": "wf($r)", "C21,C22:positions": "keeps_ok(al($normalized), al($r))", "*:characters": "scalars($normalized.normalized) ==> scalars($r.normalized)",
            "C21,C22:aligned": "al($r) == keep_t($normalized.normalized, al($normalized), clean_keep(), $normalized.normalized.len() as int)"},
   hints={"entry": "@let s = $normalized.normalized; @let m = smap(#s, clean_char()); @let a = al($normalized); assert(#a.len() == #s.len());"},
   loops=[dict(inv=["$normalized.normalized == #s", "tab($normalized)", "keeps_ok(#a, al($normalized))",
                    "$result == keep_t(#s, #m, clean_keep(), #i)", "$i == $result.len()",
                    "al($normalized) =~= keep_t(#s, #a, clean_keep(), #i) + #a.skip(#i)"],
               head="axiom_charType(#s[#i]); lemma_mask(u_charType(#s[#i])); assert(al($normalized).len() == $normalized.offset_ranges.len()); lemma_keep_len(#s, #m, #a, clean_keep(), #i); lemma_erase(keep_t(#s, #a, clean_keep(), #i), #a, #i, srep(0, al($normalized)[$result.len() as int])); lemma_srep0(al($normalized)[$result.len() as int]);",
               after="if scalars(#s) { lemma_keep_scalars2(#s, #m, clean_keep(), #i); } lemma_keep_len(#s, #m, #a, clean_keep(), #i); assert(al($normalized).len() == $normalized.offset_ranges.len());")])
fn("BertNormalizer::do_lowercase", 
   ensures={"C19:text": "$r.normalized =~= smap($normalized.normalized, |c: int| u_tolower(c))",
            "*:table": "wf($normalized) ==> wf($r)", "C21,C22:aligned": "al($r) == al($normalized)", "*:characters": "scalars($normalized.normalized) ==> scalars($r.normalized)"},
   hints={"return": "if scalars($0normalized.normalized) { assert forall|i: int| 0 <= i < $r.normalized.len() implies is_scalar(#[trigger] $r.normalized[i]) by { axiom_tolower($0normalized.normalized[i]); assert(is_scalar($0normalized.normalized[i])); } }"})
spec(r"""
// white space around each ideograph, aligned with it
pub open spec fn zh_text(s: Seq<int>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else if is_cjk(s[k - 1]) { zh_text(s, k - 1) + seq![32int, s[k - 1], 32int] } else { zh_text(s, k - 1).push(s[k - 1]) } }
pub open spec fn zh_al(s: Seq<int>, a: Seq<PI>, k: int) -> Seq<PI> decreases k { if k <= 0 { Seq::empty() } else if is_cjk(s[k - 1]) { zh_al(s, a, k - 1) + srep(3, a[k - 1]) } else { zh_al(s, a, k - 1).push(a[k - 1]) } }
// what the code notes: the characters with 1 for those that are inserted, and the places of the ideographs
pub open spec fn zh_chars(s: Seq<int>, k: int) -> Seq<PI> decreases k {
    if k <= 0 { Seq::empty() } else if is_cjk(s[k - 1]) { zh_chars(s, k - 1) + seq![Pair { first: 32int, second: 0int }, Pair { first: s[k - 1], second: 1int }, Pair { first: 32int, second: 1int }] }
    else { zh_chars(s, k - 1).push(Pair { first: s[k - 1], second: 0 }) }
}
pub open spec fn zh_ids(s: Seq<int>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else if is_cjk(s[k - 1]) { zh_ids(s, k - 1).push(k - 1) } else { zh_ids(s, k - 1) } }
pub proof fn lemma_zh_len(s: Seq<int>, a: Seq<PI>, k: int)
    requires 0 <= k <= s.len() <= a.len()
    ensures zh_text(s, k).len() == k + 2 * zh_ids(s, k).len(), zh_al(s, a, k).len() == k + 2 * zh_ids(s, k).len(), zh_chars(s, k).len() == k + 2 * zh_ids(s, k).len(), zh_ids(s, k).len() <= k
    decreases k
{ if k > 0 { lemma_zh_len(s, a, k - 1); } }
// the j-th ideograph
pub proof fn lemma_zh_id(s: Seq<int>, n: int, j: int)
    requires 0 <= n <= s.len(), 0 <= j < zh_ids(s, n).len()
    ensures ({ let p = zh_ids(s, n)[j]; 0 <= p < n && is_cjk(s[p]) && zh_ids(s, p).len() == j })
    decreases n
{ if n > 0 && !(is_cjk(s[n - 1]) && j == zh_ids(s, n).len() - 1) { lemma_zh_id(s, n - 1, j); } }
// without ideographs from p to q nothing is added there
pub proof fn lemma_zh_same(s: Seq<int>, a: Seq<PI>, p: int, q: int)
    requires 0 <= p <= q <= s.len(), s.len() == a.len(), zh_ids(s, p).len() == zh_ids(s, q).len()
    ensures zh_al(s, a, p) + a.skip(p) =~= zh_al(s, a, q) + a.skip(q) decreases q - p
{
    if p < q {
        lemma_zh_mono(s, p, q - 1); lemma_zh_mono(s, q - 1, q);
        lemma_zh_same(s, a, p, q - 1);
        assert(a.skip(q - 1) =~= seq![a[q - 1]] + a.skip(q));
        assert(zh_al(s, a, q) =~= zh_al(s, a, q - 1).push(a[q - 1]));
    }
}
pub proof fn lemma_zh_mono(s: Seq<int>, p: int, q: int) requires 0 <= p <= q ensures zh_ids(s, p).len() <= zh_ids(s, q).len() decreases q { if p < q { lemma_zh_mono(s, p, q - 1); } }
// padding the j-th ideograph
pub proof fn lemma_zh_pad(s: Seq<int>, a: Seq<PI>, c: Seq<PI>, p: int, j: int)
    requires s.len() == a.len(), 0 <= p < s.len(), is_cjk(s[p]), zh_ids(s, p).len() == j, c =~= zh_al(s, a, p) + a.skip(p)
    ensures p + 2 * j < c.len(), spl_al(c, p + 2 * j, 1, srep(3, c[p + 2 * j])) =~= zh_al(s, a, p + 1) + a.skip(p + 1)
{ lemma_zh_len(s, a, p); assert(c[p + 2 * j] == a[p]); }
// numbers of characters that are overwritten
pub open spec fn zeros(x: Seq<PI>, k: int) -> int decreases k { if k <= 0 { 0 } else { zeros(x, k - 1) + (if x[k - 1].second == 0 { 1int } else { 0 }) } }
pub proof fn lemma_zeros_mono(x: Seq<PI>, p: int, q: int) requires 0 <= p <= q ensures zeros(x, p) <= zeros(x, q), 0 <= zeros(x, p) <= p decreases q
{ if p < q { lemma_zeros_mono(x, p, q - 1); } else if p > 0 { lemma_zeros_mono(x, p - 1, q - 1); } }
pub proof fn lemma_zeros_same(x: Seq<PI>, y: Seq<PI>, k: int) requires 0 <= k <= x.len(), k <= y.len(), forall|i: int| 0 <= i < k ==> x[i] == y[i] ensures zeros(x, k) == zeros(y, k) decreases k
{ if k > 0 { lemma_zeros_same(x, y, k - 1); } }
pub proof fn lemma_zh_zeros(s: Seq<int>, k: int)
    requires 0 <= k <= s.len()
    ensures zeros(zh_chars(s, k), zh_chars(s, k).len() as int) == k,
        smap(zh_chars(s, k), |p: PI| p.first) =~= zh_text(s, k),
        forall|i: int| 0 <= i < zh_chars(s, k).len() ==> (#[trigger] zh_chars(s, k)[i]).second == 0 || zh_chars(s, k)[i].second == 1
    decreases k
{
    if k > 0 {
        lemma_zh_zeros(s, k - 1);
        let x = zh_chars(s, k); let y = zh_chars(s, k - 1); let n = y.len() as int;
        lemma_zeros_same(x, y, n);
        assert(smap(y, |p: PI| p.first) =~= zh_text(s, k - 1));
        assert forall|i: int| 0 <= i < n implies #[trigger] x[i].first == zh_text(s, k - 1)[i] by { assert(smap(y, |p: PI| p.first)[i] == x[i].first); }
        assert(zh_text(s, k - 1).len() == n) by { assert(smap(y, |p: PI| p.first).len() == n); }
        if is_cjk(s[k - 1]) {
            assert(x[n].second == 0 && x[n + 1].second == 1 && x[n + 2].second == 1);
            assert(zeros(x, n + 3) == zeros(x, n + 2)); assert(zeros(x, n + 2) == zeros(x, n + 1)); assert(zeros(x, n + 1) == zeros(x, n) + 1);
        } else { assert(zeros(x, n + 1) == zeros(x, n) + 1); }
        assert(smap(x, |p: PI| p.first) =~= zh_text(s, k));
    }
}
// after k changes: the characters so far, then the text from the first one not overwritten
pub open spec fn zh_out(s: Seq<int>, x: Seq<PI>, k: int) -> Seq<int> { smap(x.take(k), |p: PI| p.first) + s.skip(zeros(x, k)) }
""")
fn("BertNormalizer::do_handle_chinese_chars", requires=["wf($normalized)"], rlimit=40,
   ensures={"C19:text": "$r.normalized == zh_text($normalized.normalized, $normalized.normalized.len() as int)",
            "*:table": "wf($r)", "C21,C22:positions": "keeps_ok(al($normalized), al($r))", "*:characters": "scalars($normalized.normalized) ==> scalars($r.normalized)",
            "C21,C22:aligned": "al($r) == zh_al($normalized.normalized, al($normalized), $normalized.normalized.len() as int)"},
   hints={"entry": "@let s = $normalized.normalized; @let a = al($normalized); @let n = #s.len() as int; assert(#a.len() == #s.len());"},
   loops=[dict(inv=["$i == #i", "$new_chars =~= zh_chars(#s, #i)", "$transform_ids =~= zh_ids(#s, #i)"]),
          dict(inv=["$normalized.normalized == #s", "tab($normalized)", "keeps_ok(#a, al($normalized))", "$multi == 2 * #i", "#i <= zh_ids(#s, #n).len()",
                    "al($normalized) =~= zh_al(#s, #a, if #i < zh_ids(#s, #n).len() { zh_ids(#s, #n)[#i] } else { #n }) + #a.skip(if #i < zh_ids(#s, #n).len() { zh_ids(#s, #n)[#i] } else { #n })"],
               before="""assert($transform_ids =~= zh_ids(#s, #n)); if 0 < zh_ids(#s, #n).len() { lemma_zh_id(#s, #n, 0); lemma_zh_same(#s, #a, 0, zh_ids(#s, #n)[0]); } else { lemma_zh_same(#s, #a, 0, #n); } assert(zh_al(#s, #a, 0) + #a.skip(0) =~= #a);""",
               head="""@let p = zh_ids(#s, #n)[#i]; lemma_zh_id(#s, #n, #i); lemma_zh_pad(#s, #a, al($normalized), #p, #i); assert(al($normalized).len() == $normalized.offset_ranges.len());
                       if #i + 1 < zh_ids(#s, #n).len() { lemma_zh_id(#s, #n, #i + 1); if zh_ids(#s, #n)[#i + 1] < #p + 1 { lemma_zh_mono(#s, zh_ids(#s, #n)[#i + 1], #p); } lemma_zh_same(#s, #a, #p + 1, zh_ids(#s, #n)[#i + 1]); }
                       else { lemma_zh_mono(#s, #p + 1, #n); lemma_zh_same(#s, #a, #p + 1, #n); }""",
               after="lemma_zh_len(#s, #a, #n); assert(#a.skip(#n) =~= Seq::<PI>::empty()); assert(al($normalized).len() == $normalized.offset_ranges.len());"),
          dict(inv=["$i == #i", "$result =~= zh_out(#s, $new_chars, #i)", "$new_chars =~= zh_chars(#s, #n)", "0 <= zeros($new_chars, #i) <= #s.len()"],
               before="lemma_zh_zeros(#s, #n); assert(zh_out(#s, $new_chars, 0) =~= #s);",
               head="lemma_zeros_mono($new_chars, #i + 1, $new_chars.len() as int); lemma_zeros_mono($new_chars, #i, #i); assert($new_chars.take(#i + 1) =~= $new_chars.take(#i).push($new_chars[#i])); assert(smap($new_chars.take(#i + 1), |p: PI| p.first) =~= smap($new_chars.take(#i), |p: PI| p.first).push($new_chars[#i].first));",
               after="assert($new_chars.take($new_chars.len() as int) =~= $new_chars); assert(#s.skip(#s.len() as int) =~= Seq::<int>::empty()); lemma_zh_len(#s, #a, #n); assert($result =~= zh_text(#s, #n)); if scalars(#s) { lemma_zh_scalars(#s, #n); }")])
# ---- Unicode normalization (C26) ----
spec(r"""
pub open spec fn nz32(mode: int, w: Seq<int>) -> Seq<int> { nz(mode, u_from32(w)) }
pub proof fn lemma_nz_step(mode: int, w: Seq<int>, i: int, j: int)
    requires scalars(w), 0 <= i < j <= w.len(), i > 0 ==> nz_before(mode, w[i]) != 0
    ensures u_count32(nz32(mode, w.take(j))) == u_count32(nz32(mode, w.take(i))) + u_count32(nz32(mode, w.subrange(i, j)))
{
    let a = w.take(i); let b = w.subrange(i, j);
    assert(a + b =~= w.take(j));
    axiom_from32(a); axiom_nz_ok(mode, u_from32(a)); axiom_nz_ok(mode, Seq::empty());
    if i > 0 { axiom_nz_boundary(mode, a, b); } else { assert(a =~= Seq::<int>::empty()); assert(b =~= w.take(j)); }
    lemma_count_cat(nz32(mode, a), nz32(mode, b));
}
pub proof fn lemma_from32_push(w: Seq<int>, i: int, j: int)
    requires 0 <= i <= j < w.len() ensures u_from32(w.subrange(i, j + 1)) == u_append32(u_from32(w.subrange(i, j)), w[j])
{ axiom_from32(w.subrange(i, j + 1)); assert(w.subrange(i, j + 1).drop_last() =~= w.subrange(i, j)); }
pub proof fn lemma_nz0(mode: int, w: Seq<int>) ensures u_count32(nz32(mode, w.take(0))) == 0, w.subrange(0, 0) =~= Seq::<int>::empty(), u_from32(Seq::<int>::empty()) == Seq::<int>::empty()
{ assert(w.take(0) =~= Seq::<int>::empty()); axiom_from32(w.take(0)); axiom_nz_ok(mode, Seq::empty()); }
pub open spec fn nz_out(mode: int, s: Seq<int>) -> Seq<int> { u_to32(nz32(mode, s)) }
pub proof fn lemma_nz_out(mode: int, s: Seq<int>)
    ensures nz_out(mode, s).len() == u_count32(nz32(mode, s)), scalars(s) ==> scalars(nz_out(mode, s))
{ axiom_from32(s); axiom_nz_ok(mode, u_from32(s)); axiom_to32(nz32(mode, s)); }
""")
fn("align_normalized", mut=["normalized"],
   requires=["wf($normalized)", "scalars($normalized.normalized)", "$normalizer.is_some()"],
   ensures={"*:text": "$normalized'.normalized == $normalized.normalized", "*:table": "tab($normalized')", "*:positions": "keeps_ok(al($normalized), al($normalized'))",
            "*:length": "$normalized'.offset_ranges.len() == u_count32(nz32($normalizer->0.mode, $normalized.normalized))"},
   hints={"entry": "@let s = $normalized.normalized; @let m = $normalizer->0.mode;", "before NormalizedString::replace_range#0": "assert(al($normalized).len() == $normalized.offset_ranges.len());",
          "call NormalizedString::replace_range#0": "assert(al($normalized).len() == $normalized.offset_ranges.len());"},
   loops=[dict(inv=["$normalized.normalized == #s", "tab($normalized)", "keeps_ok(al($0normalized), al($normalized))", "0 <= $start <= #s.len()",
                    "$position == u_count32(nz32(#m, #s.take($start)))", "$position >= 0", "$normalized.offset_ranges.len() == $position + #s.len() - $start",
                    "0 < $start < #s.len() ==> nz_before(#m, #s[$start]) != 0"],
               before="lemma_nz0(#m, #s);",
               head="assert(#s.subrange($start, $start) =~= Seq::<int>::empty()); axiom_from32(#s.subrange($start, $start)); lemma_from32_push(#s, $start, $start);",
               after="assert(#s.take(#s.len() as int) =~= #s);", dec="#s.len() - $start"),
          dict(inv=["$start < $stop <= #s.len()", "$piece == u_from32(#s.subrange($start, $stop))"], head="lemma_from32_push(#s, $start, $stop);",
               after="lemma_nz_step(#m, #s, $start, $stop); lemma_count_nonneg(nz32(#m, #s.subrange($start, $stop)));", dec="#s.len() - $stop")])
spec(r"""
""")
for nf, mode in (("NFD", 2), ("NFKD", 3), ("NFC", 4), ("NFKC", 5)):
    fn(nf + "::normalize", requires=["wf($normalized)", "scalars($normalized.normalized)"],
       ensures={"C26:form": "$r.normalized == nz_out(%d, $normalized.normalized)" % mode,
                "*:text": "$r.normalized == nz_out(%d, $normalized.normalized)" % mode,
                "*:table": "wf($r)", "C21,C22:positions": "keeps_ok(al($normalized), al($r))", "C21,C22:characters": "scalars($r.normalized)"} if nf == "NFD" else
               {"C26:form": "$r.normalized == nz_out(%d, $normalized.normalized)" % mode,
                "C21,C22:table": "wf($r)", "C21,C22:positions": "keeps_ok(al($normalized), al($r))", "C21,C22:characters": "scalars($r.normalized)"},
       hints={"entry": "@let s = $normalized.normalized; axiom_to32(nz32(%d, #s)); assert(stake(#s, #s.len() as int) =~= #s); assert(#s.subrange(0, #s.len() as int) =~= #s); lemma_count_nonneg(nz32(%d, #s));" % (mode, mode),
              "return": "lemma_nz_out(%d, #s); assert($r.normalized =~= nz_out(%d, #s));" % (mode, mode)})
# ---- accents, and the BERT normalizer as a whole ----
spec(r"""
pub open spec fn not_nsm() -> spec_fn(int) -> bool { |c: int| u_charType(c) != 6 }
// the places that are dropped
pub open spec fn drop_ids(s: Seq<int>, f: spec_fn(int) -> bool, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else if f(s[k - 1]) { drop_ids(s, f, k - 1) } else { drop_ids(s, f, k - 1).push(k - 1) } }
pub proof fn lemma_drop_len<T>(s: Seq<int>, x: Seq<T>, f: spec_fn(int) -> bool, k: int)
    requires 0 <= k ensures keep_t(s, x, f, k).len() + drop_ids(s, f, k).len() == k decreases k
{ if k > 0 { lemma_drop_len(s, x, f, k - 1); } }
pub proof fn lemma_drop_mono(s: Seq<int>, f: spec_fn(int) -> bool, p: int, q: int) requires 0 <= p <= q ensures drop_ids(s, f, p).len() <= drop_ids(s, f, q).len() decreases q { if p < q { lemma_drop_mono(s, f, p, q - 1); } }
pub proof fn lemma_drop_id(s: Seq<int>, f: spec_fn(int) -> bool, n: int, j: int)
    requires 0 <= n <= s.len(), 0 <= j < drop_ids(s, f, n).len()
    ensures ({ let p = drop_ids(s, f, n)[j]; 0 <= p < n && !f(s[p]) && drop_ids(s, f, p).len() == j })
    decreases n
{ if n > 0 && !(!f(s[n - 1]) && j == drop_ids(s, f, n).len() - 1) { lemma_drop_id(s, f, n - 1, j); } }
pub proof fn lemma_drop_same(s: Seq<int>, a: Seq<PI>, f: spec_fn(int) -> bool, p: int, q: int)
    requires 0 <= p <= q <= s.len(), s.len() == a.len(), drop_ids(s, f, p).len() == drop_ids(s, f, q).len()
    ensures keep_t(s, a, f, p) + a.skip(p) =~= keep_t(s, a, f, q) + a.skip(q) decreases q - p
{
    if p < q {
        lemma_drop_mono(s, f, p, q - 1); lemma_drop_mono(s, f, q - 1, q);
        lemma_drop_same(s, a, f, p, q - 1);
        assert(a.skip(q - 1) =~= seq![a[q - 1]] + a.skip(q));
        assert(keep_t(s, a, f, q) =~= keep_t(s, a, f, q - 1).push(a[q - 1]));
    }
}
pub open spec fn d_at(s: Seq<int>, f: spec_fn(int) -> bool, j: int) -> int { let d = drop_ids(s, f, s.len() as int); if j < d.len() { d[j] } else { s.len() as int } }
pub proof fn lemma_d_at(s: Seq<int>, a: Seq<PI>, f: spec_fn(int) -> bool, j: int)
    requires s.len() == a.len(), 0 <= j <= drop_ids(s, f, s.len() as int).len()
    ensures j == 0 ==> keep_t(s, a, f, d_at(s, f, 0)) + a.skip(d_at(s, f, 0)) =~= a,
        j > 0 ==> ({ let p = d_at(s, f, j - 1); 0 <= p < s.len() && !f(s[p]) && keep_t(s, a, f, p).len() == p - (j - 1)
            && keep_t(s, a, f, p) + a.skip(p + 1) =~= keep_t(s, a, f, d_at(s, f, j)) + a.skip(d_at(s, f, j)) })
{
    let n = s.len() as int;
    let d = drop_ids(s, f, n);
    let q = d_at(s, f, j);
    if j < d.len() { lemma_drop_id(s, f, n, j); }
    if j == 0 { lemma_drop_mono(s, f, 0, q); lemma_drop_same(s, a, f, 0, q); assert(keep_t(s, a, f, 0) + a.skip(0) =~= a); }
    else {
        let p = d_at(s, f, j - 1);
        lemma_drop_id(s, f, n, j - 1);
        lemma_drop_len(s, a, f, p);
        if q < p + 1 { lemma_drop_mono(s, f, q, p); }
        lemma_drop_mono(s, f, p + 1, q);
        lemma_drop_same(s, a, f, p + 1, q);
    }
}
pub proof fn lemma_keep_scalars(s: Seq<int>, f: spec_fn(int) -> bool, k: int)
    requires scalars(s), 0 <= k <= s.len() ensures scalars(keep_t(s, s, f, k)) decreases k
{ if k > 0 { lemma_keep_scalars(s, f, k - 1); } }
""")
fn("BertNormalizer::do_strip_accents", requires=["wf($normalized)", "scalars($normalized.normalized)"],
   ensures={"C19:text": "$r.normalized == keep_t(nz_out(2, $normalized.normalized), nz_out(2, $normalized.normalized), not_nsm(), nz_out(2, $normalized.normalized).len() as int)",
            "*:table": "wf($r)", "C21,C22:positions": "keeps_ok(al($normalized), al($r))", "*:characters": "scalars($r.normalized)"},
   hints={"return": "lemma_nz_out(2, $0normalized.normalized); lemma_keep_scalars(#d, not_nsm(), #d.len() as int);", "decl nfd_normalized": "@let d = $nfd_normalized.normalized; @let a = al($nfd_normalized); assert(#a.len() == #d.len());"},
   loops=[dict(inv=["$i == #i", "$result == keep_t(#d, #d, not_nsm(), #i)", "$shrink_ids == drop_ids(#d, not_nsm(), #i)"]),
          dict(inv=["$nfd_normalized.normalized == #d", "tab($nfd_normalized)", "keeps_ok(#a, al($nfd_normalized))", "$multi == 0 - #i",
                    "al($nfd_normalized) =~= keep_t(#d, #a, not_nsm(), d_at(#d, not_nsm(), #i)) + #a.skip(d_at(#d, not_nsm(), #i))"],
               before="lemma_d_at(#d, #a, not_nsm(), 0);",
               head="""@let p = d_at(#d, not_nsm(), #i); lemma_d_at(#d, #a, not_nsm(), #i + 1); assert(al($nfd_normalized).len() == $nfd_normalized.offset_ranges.len());
                       lemma_erase(keep_t(#d, #a, not_nsm(), #p), #a, #p, srep(0, al($nfd_normalized)[#p - #i])); lemma_srep0(al($nfd_normalized)[#p - #i]);""",
               after="lemma_keep_len(#d, #d, #a, not_nsm(), #d.len() as int); assert(al($nfd_normalized).len() == $nfd_normalized.offset_ranges.len()); assert(#a.skip(#d.len() as int) =~= Seq::<PI>::empty());")])

spec(r"""
pub open spec fn bert_clean(n: BertNormalizer, s: Seq<int>) -> Seq<int> { if n.clean_text { keep_t(s, smap(s, clean_char()), clean_keep(), s.len() as int) } else { s } }
pub open spec fn bert_cjk(n: BertNormalizer, s: Seq<int>) -> Seq<int> { if n.handle_chinese_chars { zh_text(s, s.len() as int) } else { s } }
pub open spec fn bert_accents(n: BertNormalizer, s: Seq<int>) -> Seq<int> { if n.strip_accents || n.lowercase { keep_t(nz_out(2, s), nz_out(2, s), not_nsm(), nz_out(2, s).len() as int) } else { s } }
pub open spec fn bert_lower(n: BertNormalizer, s: Seq<int>) -> Seq<int> { if n.lowercase { smap(s, |c: int| u_tolower(c)) } else { s } }
""", only="C19,C21")
fn("BertNormalizer::normalize", requires=["wf($normalized)", "scalars($normalized.normalized)"],
   ensures={"C19:text": "$r.normalized =~= bert_lower($this, bert_accents($this, bert_cjk($this, bert_clean($this, $normalized.normalized))))",
            "*:table": "wf($r)", "C21,C22:positions": "keeps_ok(al($normalized), al($r))", "*:characters": "scalars($r.normalized)"})
spec("pub open spec fn good_text(s: NormalizedString) -> bool { wf(s) && scalars(s.normalized) }")
# any sequence of normalizers that each keep the table well formed does so
spec(r"""
pub open spec fn norm_ok(a: NormalizedString, b: NormalizedString) -> bool { good_text(a) ==> good_text(b) && keeps_ok(al(a), al(b)) }
pub open spec fn keeps_tables(n: Option<Normalizer>) -> bool { forall|s: NormalizedString| norm_ok(s, #[trigger] virt_Normalizer_normalize(n->0, s)) }
pub proof fn lemma_seq_tables(ns: Seq<Option<Normalizer>>, x: NormalizedString, k: int)
    requires 0 <= k <= ns.len(), forall|i: int| 0 <= i < ns.len() ==> keeps_tables(#[trigger] ns[i])
    ensures norm_ok(x, norm_seq(ns, x, k)) decreases k
{ if k > 0 { lemma_seq_tables(ns, x, k - 1); assert(keeps_tables(ns[k - 1])); assert(norm_ok(norm_seq(ns, x, k - 1), norm_seq(ns, x, k))); } }
""", only="C21,C16,C22,C23,C04,C13,C27")

# ---- options (C19, C20, C25) ----
fn("BertNormalizer::BertNormalizer", props="C19,C25",
   ensures={"*:fields": "$r.clean_text == $clean_text && $r.handle_chinese_chars == $handle_chinese_chars && $r.strip_accents == $strip_accents && $r.lowercase == $lowercase"})
fn("Strip::Strip", props="C20,C25", ensures={"*:fields": "$r.strip_left == $strip_left && $r.strip_right == $strip_right"})
fn("Prepend::Prepend", props="C20,C25", ensures={"*:fields": "$r.prepend == $prepend"})
fn("Replace::Replace", props="C20,C25", ensures={"*:fields": "$r.pattern == $pattern && $r.content == $content"})
