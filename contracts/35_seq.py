# Sequences of normalizers and of pre-tokenizers (C24): the composition of the members, in order.
virt("Normalizer::normalize")
virt("PreTokenizer::pre_tokenize")
spec(r"""
// @virt Normalizer::normalize
// @virt PreTokenizer::pre_tokenize
pub open spec fn norm_seq(ns: Seq<Option<Normalizer>>, x: NormalizedString, k: int) -> NormalizedString decreases k {
    if k <= 0 { x } else { virt_Normalizer_normalize(ns[k - 1]->0, norm_seq(ns, x, k - 1)) }
}
pub open spec fn pt_seq(ps: Seq<Option<PreTokenizer>>, x: PreTokenizedString, k: int) -> PreTokenizedString decreases k {
    if k <= 0 { x } else { virt_PreTokenizer_pre_tokenize(ps[k - 1]->0, pt_seq(ps, x, k - 1)) }
}
""", only="C24,C21,C16,C22,C23,C04,C13,C27")
for cls, m, base, f, par, fld in (("SequenceNormalizer", "normalize", "norm_seq", "normalized", "normalized", "normalizers"),
                                  ("SequencePreTokenizer", "pre_tokenize", "pt_seq", "pre_tokenized", "pre_tokenized", "pretokenizers")):
    fn("%s::%s" % (cls, m),
       requires=["forall|i: int| 0 <= i < $this.%s.len() ==> (#[trigger] $this.%s[i]).is_some()" % (fld, fld)],
       spec="%s($this.%s, $%s, $this.%s.len() as int)" % (base, fld, par, fld), props="C24,C21" if base == "norm_seq" else "C24,C27",
       ensures={} if base == "norm_seq" else {"C22:keeps": "(forall|i: int| 0 <= i < $this.pretokenizers.len() ==> pt_keeps((#[trigger] $this.pretokenizers[i])->0)) ==> pt_ok($pre_tokenized, $r)", "C27:texts": "seq_bytes($this.pretokenizers) && ready($pre_tokenized) ==> bytes_of($pre_tokenized, $r)"},
       hints={"return": ["lemma_fold_is(#foldseq, $0%s, #clo0, |k: int| %s($this.%s, $0%s, k));" % (par, base, fld, par)] +
              ([] if base == "norm_seq" else [("C22", "if forall|i: int| 0 <= i < $this.pretokenizers.len() ==> pt_keeps((#[trigger] $this.pretokenizers[i])->0) { lemma_pt_seq($this.pretokenizers, $0pre_tokenized, $this.pretokenizers.len() as int); }"), ("C27", "if seq_bytes($this.pretokenizers) && ready($0pre_tokenized) { lemma_seq_bytes($this.pretokenizers, $0pre_tokenized); }")])})
    fn("%s::%s" % (cls, cls), ensures={"C24,C25:fields": "$r.%s == $%s" % (fld, fld)})
