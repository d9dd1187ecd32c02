spec(r"""
// uses: common
// every occurrence of from, found from left to right, replaced by to
pub open spec fn rep_all(s: Seq<int>, from: Seq<int>, to: Seq<int>) -> Seq<int> decreases s.len() {
    let p = s_find(s, from, 0);
    if from.len() == 0 || p == npos() || !(0 <= p && p + from.len() <= s.len()) { s }
    else { s.take(p) + to + rep_all(s.skip(p + from.len()), from, to) }
}
pub proof fn lemma_rep_len(s: Seq<int>, from: Seq<int>, to: Seq<int>)
    requires to.len() <= from.len() ensures rep_all(s, from, to).len() <= s.len() decreases s.len()
{
    let p = s_find(s, from, 0);
    if from.len() == 0 || p == npos() || !(0 <= p && p + from.len() <= s.len()) {} else { lemma_rep_len(s.skip(p + from.len()), from, to); }
}
// one step of the replacement loop, at position i of s
pub proof fn lemma_rep_step(s: Seq<int>, from: Seq<int>, to: Seq<int>, i: int)
    requires 0 <= i <= s.len(), from.len() > 0, s.len() < npos()
    ensures ({ let p = s_find(s, from, i);
        &&& p == npos() ==> rep_all(s.skip(i), from, to) == s.skip(i) && s.take(i) + s.skip(i) == s
        &&& p != npos() ==> i <= p && p + from.len() <= s.len()
            && s.take(i) + rep_all(s.skip(i), from, to)
                == s_replace(s, p, from.len() as int, to).take(p + to.len()) + rep_all(s_replace(s, p, from.len() as int, to).skip(p + to.len()), from, to) })
{
    hide(s_find);
    let p = s_find(s, from, i);
    let t = s.skip(i);
    lemma_s_find(s, from, i);
    lemma_s_find_skip(s, from, i, 0);
    assert(s.take(i) + t =~= s);
    if p != npos() {
        let r = s_replace(s, p, from.len() as int, to);
        let q = p - i;
        assert(s_find(t, from, 0) == q);
        let x = rep_all(t.skip(q + from.len()), from, to);
        assert(rep_all(t, from, to) == t.take(q) + to + x);
        assert(r =~= s.take(p) + to + s.skip(p + from.len()));
        assert(r.take(p + to.len()) =~= s.take(p) + to);
        assert(r.skip(p + to.len()) =~= s.skip(p + from.len()));
        assert(t.skip(q + from.len()) =~= s.skip(p + from.len()));
        assert(s.take(i) + t.take(q) =~= s.take(p));
        assert(s.take(i) + (t.take(q) + to + x) =~= s.take(i) + t.take(q) + to + x);
    } else {
        assert(s_find(t, from, 0) == npos());
        assert(rep_all(t, from, to) == t);
    }
}
pub open spec fn clean_spec(s: Seq<int>) -> Seq<int> {
    let s = rep_all(s, S" .", S".");
    let s = rep_all(s, S" ?", S"?");
    let s = rep_all(s, S" !", S"!");
    let s = rep_all(s, S" ,", S",");
    let s = rep_all(s, S" ' ", S"'");
    let s = rep_all(s, S" n't", S"n't");
    let s = rep_all(s, S" 'm", S"'m");
    let s = rep_all(s, S" do not", S" don't");
    let s = rep_all(s, S" 's", S"'s");
    let s = rep_all(s, S" 've", S"'ve");
    rep_all(s, S" 're", S"'re")
}
pub open spec fn wp_join(prefix: Seq<int>, t: Seq<int>, first: bool) -> Seq<int> {
    if first { t } else if prefix.is_prefix_of(t) { t.skip(prefix.len() as int) } else { S" " + t }
}
pub open spec fn wp_tok(d: WordPieceDecoder, ts: Seq<Seq<int>>, i: int) -> Seq<int> {
    let t = wp_join(d.prefix, ts[i], i == 0);
    if d.cleanup { clean_spec(t) } else { t }
}
""")
fn("replace/3",
   requires=["$from.len() > 0", "$to.len() <= $from.len()", "$input.len() < 0x7fff_ffff"],
   spec="rep_all($input, $from, $to)",
   ensures={"*:len": "$r.len() <= $input.len()"},
   hints={"return": "lemma_rep_len($0input, $0from, $0to);"},
   loops=[dict(inv=["$input.len() <= $0input.len()"],
               xinv=["0 <= $start <= $input.len()",
                     "$input.take($start) + rep_all($input.skip($start), $from, $to) == rep_all($0input, $from, $to)"],
               exit=["$input == rep_all($0input, $from, $to)"],
               before="assert($input.take(0) + rep_all($input.skip(0), $from, $to) =~= rep_all($input, $from, $to)) by { assert($input.skip(0) =~= $input); };",
               top="lemma_rep_step($input, $from, $to, $start); lemma_s_find($input, $from, $start);",
               dec="$input.len() - $start + 1")])
fn("cleanup_token", requires=["$dirty_input.len() < 0x7fff_ffff"], spec="clean_spec($dirty_input)", props="C18")
fn("WordPieceDecoder::decode_chain",
   requires=["$tokens.len() < 0x7fff_ffff", "forall|i: int| 0 <= i < $tokens.len() ==> (#[trigger] $tokens[i]).len() < 0x7fff_fff0"],
   spec="Seq::new($tokens.len(), |i: int| wp_tok($this, $tokens, i))", props="C18",
   loops=[dict(inv=["$result.len() == $i", "forall|k: int| 0 <= k < $i ==> #[trigger] $result[k] == wp_tok($this, $tokens, k)"],
               head="lemma_s_find_prefix($tokens[$i], $this.prefix); if $this.prefix.is_prefix_of($tokens[$i]) { assert(s_replace($tokens[$i], 0, $this.prefix.len() as int, Seq::empty()) =~= $tokens[$i].skip($this.prefix.len() as int)); }")])
fn("WordPieceDecoder::WordPieceDecoder", ensures={"C18,C25:fields": "$r.prefix == $prefix && $r.cleanup == $cleanup"})
# ---- sequence ----
virt("Decoder::decode_chain")
spec(r"""
// @virt Decoder::decode_chain
pub open spec fn dec_seq(ds: Seq<Option<Decoder>>, ts: Seq<Seq<int>>, k: int) -> Seq<Seq<int>> decreases k {
    if k <= 0 { ts } else { virt_Decoder_decode_chain(ds[k - 1]->0, dec_seq(ds, ts, k - 1)) }
}
""", only="C24,C17,C13")
fn("SequenceDecoder::decode_chain",
   requires=["forall|i: int| 0 <= i < $this.decoders.len() ==> (#[trigger] $this.decoders[i]).is_some()"],
   spec="dec_seq($this.decoders, $tokens, $this.decoders.len() as int)", props="C24",
   loops=[dict(inv=["$tokens == dec_seq($this.decoders, $0tokens, #i)"])])
fn("SequenceDecoder::SequenceDecoder", ensures={"C24,C25:fields": "$r.decoders == $decoders"})
