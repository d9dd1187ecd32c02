# Configurations (C25): the component that a JSON object describes.
def kinds(fname, pairs, unknown):
    """get_<component>(type): the kind of each supported name, the last value for every other one."""
    e = "".join('if s == S"%s" { %d } else ' % (n, v) for n, v in pairs)
    spec("pub open spec fn kind_%s(s: Seq<int>) -> int { %s{ %d } }" % (fname, e, unknown), only="C25")
    fn(fname, spec="kind_%s($type)" % fname, total=True, props="C25")
    return dict(pairs)


def family(p, cls, getter, kind, seq, key, cases, before=""):
    """A component that may be a sequence of its kind.  cases: type name, class and fields, when the object is well-formed."""
    member = {"SequenceNormalizer": "normalizers", "SequencePreTokenizer": "pretokenizers", "SequenceDecoder": "decoders", "SequenceProcessing": "processors"}[seq]
    text = "".join("// @dyn %s\n" % c[1] for c in cases) + "// @dyn %s\n" % seq + before
    text += "// what a configuration describes\npub open spec fn @_of(o: JObj) -> Option<CLS> decreases o, 0int via @_of_dec {\n    let t = kind_%s(get_str(o, S\"type\"));\n" % getter
    text += '    if t == K_SEQ { Some(CLS { dyn_id: dyn_SEQ(SEQ { %s: (if is_arr(o, S"KEY") { @_members(jarr(o, S"KEY"), jarr(o, S"KEY").len() as int) } else { Seq::empty() }) }) }) }\n' % member
    text += "".join('    else if t == %d { Some(CLS { dyn_id: dyn_%s(%s) }) }  // %s\n' % (kind[t], c, f if f.startswith("=") else "%s { %s }" % (c, f), t) for t, c, f, _ in cases).replace("(=", "(")
    text += r"""    else { None }
}
#[via_fn] proof fn @_of_dec(o: JObj) { lemma_jfind(o, S"KEY", 0); }
// the supported ones of the first n members, in order
pub open spec fn @_members(a: Seq<Json>, n: int) -> Seq<Option<CLS>> decreases a, n {
    if n <= 0 || n > a.len() { Seq::empty() } else { match a[n - 1] { Json::Obj(o) => match @_of(o) { Some(m) => @_members(a, n - 1).push(Some(m)), None => @_members(a, n - 1) }, _ => @_members(a, n - 1) } }
}
// well-formed configurations
pub open spec fn @_oks(a: Seq<Json>) -> bool decreases a { forall|i: int| 0 <= i < a.len() ==> match #[trigger] a[i] { Json::Obj(m) => @_ok(m), _ => false } }
pub open spec fn @_ok(o: JObj) -> bool decreases o via @_ok_dec {
    let t = kind_GETTER(get_str(o, S"type"));
    &&& typed(o)
    &&& t == K_SEQ ==> is_arr(o, S"KEY") && @_oks(jarr(o, S"KEY"))
"""
    text += "".join('    &&& t == %d ==> %s\n' % (kind[t], w) for t, _, _, w in cases if w)
    text += '}\n#[via_fn] proof fn @_ok_dec(o: JObj) { lemma_jfind(o, S"KEY", 0); }\n'
    text = text.replace("K_SEQ", str(kind["Sequence"])).replace("GETTER", getter)
    spec(text.replace("@_", p + "_").replace("CLS", cls).replace("SEQ", seq).replace("KEY", key), only="C25")


def reader(p, fname, par, acc, key, **kw):
    fn(fname, requires=["%s_ok($%s)" % (p, par)], ensures={"C25:component": "$r =~~= %s_of($%s)" % (p, par)}, props="C25",
       loops=kw.pop("loops", []) + [dict(inv=['#r == jarr($%s, S"%s")' % (par, key), "$%s == %s_members(#r, #i)" % (acc, p)])], **kw)


def fields(bools="", strs="", ints=""):
    """The fields with their values, and that they are there."""
    b, s, n = bools.split(), strs.split(), ints.split()
    return (", ".join(["%s: get_bool(o, S\"%s\")" % (x, x) for x in b] + ["%s: get_str(o, S\"%s\")" % (x, x) for x in s] + ["%s: get_int(o, S\"%s\")" % (x, x) for x in n]),
            " && ".join(["has_bool(o, S\"%s\")" % x for x in b] + ["has_str(o, S\"%s\")" % x for x in s] + ["has_int(o, S\"%s\")" % x for x in n]))


spec(r"""
// uses: json bytes
// a pattern: the text of its only field
pub open spec fn pat_of(o: JObj, k: Seq<int>) -> Seq<int> { match jget(o, S"pattern") { Some(Json::Obj(p)) => get_str(p, k), _ => Seq::empty() } }
pub open spec fn has_pat(o: JObj, k: Seq<int>) -> bool { jget(o, S"pattern") is Some && match jget(o, S"pattern")->0 { Json::Obj(p) => jget(p, k) is Some && jget(p, k)->0 is Str, Json::Null => true, _ => false } }
""", only="C25")

# ---- normalizers ----
KIND = kinds("get_normalizer", [("Sequence", 0), ("BertNormalizer", 1), ("Lowercase", 2), ("Prepend", 3), ("NFC", 4), ("NFD", 5), ("NFKC", 6), ("NFKD", 7),
                         ("Precompiled", 9), ("Replace", 10), ("Strip", 11), ("StripAccents", 12)], 13)
family("nz", "Normalizer", "get_normalizer", KIND, "SequenceNormalizer", "normalizers",
       [(x, x, "", "") for x in ("NFC", "NFD", "NFKC", "NFKD", "StripAccents")] +
       [("Prepend", "Prepend") + fields(strs="prepend"), ("Strip", "Strip") + fields("strip_left strip_right"),
        ("BertNormalizer", "BertNormalizer") + fields("clean_text handle_chinese_chars strip_accents lowercase"),
        ("Replace", "Replace", 'pattern: pat_of(o, S"String"), ' + fields(strs="content")[0], 'has_pat(o, S"String") && ' + fields(strs="content")[1])])
reader("nz", "with_normalizer", "normalizer_params", "seq_normalizers", "normalizers")

# ---- pre-tokenizers ----
KIND = kinds("get_pre_tokenizer", [("BertPreTokenizer", 0), ("ByteLevel", 1), ("CharDelimiterSplit", 2), ("Digits", 3), ("Metaspace", 4), ("Punctuation", 5),
                            ("Split", 6), ("UnicodeScripts", 7), ("Sequence", 10), ("Whitespace", 8), ("WhitespaceSplit", 9)], 11)
family("pt", "PreTokenizer", "get_pre_tokenizer", KIND, "SequencePreTokenizer", "pretokenizers",
       [("BertPreTokenizer", "BertPreTokenizer", "", ""),
        ("Split", "SplitPreTokenizer", 'pattern: pat_of(o, S"Regex"), behavior: (if get_str(o, S"behavior") == S"Isolated" { 1int } else { 0int }), ' + fields("invert")[0], 'has_pat(o, S"Regex") && ' + fields("invert", "behavior")[1]),
        ("ByteLevel", "ByteLevelPreTokenizer", '=bl_new(get_bool(o, S"add_prefix_space"), get_bool(o, S"use_regex"))', fields("add_prefix_space use_regex")[1])],
       before=r"""
pub open spec fn bc_map() -> Map<int, Seq<int>> { choose|m: Map<int, Seq<int>>| is_bc(m) }
pub open spec fn bl_new(a: bool, u: bool) -> ByteLevelPreTokenizer { ByteLevelPreTokenizer { add_prefix_space: a, use_regex: u, regex: S"'s|'t|'re|'ve|'m|'ll|'d| ?\\p{L}+| ?\\p{N}+| ?[^\\s\\p{L}\\p{N}]+|\\s+(?!\\S)|\\s+", BYTES_CHAR: bc_map() } }
pub proof fn lemma_bc_map(m: Map<int, Seq<int>>) requires is_bc(m) ensures m == bc_map() { assert(m =~= bc_map()); }
""")
reader("pt", "with_pre_tokenizer", "pre_tokenizer_params", "seq_pre_tokenizers", "pretokenizers",
       hints={"call ByteLevelPreTokenizer::ByteLevelPreTokenizer#0": "lemma_bc_map(#call.BYTES_CHAR);"})

# ---- decoders ----
KIND = kinds("get_decoder", [("Sequence", 0), ("BPEDecoder", 1), ("ByteLevel", 2), ("CTC", 3), ("Strip", 8), ("Metaspace", 4), ("WordPiece", 5),
                      ("ByteFallback", 6), ("Replace", 9), ("Fuse", 7)], 10)
family("dc", "Decoder", "get_decoder", KIND, "SequenceDecoder", "decoders",
       [("WordPiece", "WordPieceDecoder") + fields("cleanup", "prefix"), ("Strip", "StripDecoder") + fields("", "content", "start stop"),
        ("Replace", "ReplaceDecoder", 'pattern: pat_of(o, S"String"), ' + fields(strs="content")[0], 'has_pat(o, S"String") && ' + fields(strs="content")[1]),
        ("ByteFallback", "ByteFallbackDecoder", "", ""), ("Fuse", "FuseDecoder", "", ""), ("ByteLevel", "ByteLevelDecoder", "CHAR_BYTES: cb_map()", "")],
       before=r"""
pub open spec fn cb_map() -> Map<Seq<int>, int> { choose|m: Map<Seq<int>, int>| is_cb(m) }
pub proof fn lemma_cb_map(m: Map<Seq<int>, int>) requires is_cb(m) ensures m == cb_map() {
    assert(m.dom() =~= cb_map().dom());
    assert forall|s: Seq<int>| #[trigger] m.dom().contains(s) implies m[s] == cb_map()[s] by { let b = choose|b: int| is_byte(b) && s == #[trigger] chs(b); assert(m[chs(b)] == b); };
    assert(m =~= cb_map());
}
""")
reader("dc", "with_decoder", "decoder_params", "seq_decoders", "decoders", hints={"call ByteLevelDecoder::ByteLevelDecoder#0": "lemma_cb_map(#call.CHAR_BYTES);"})

# ---- truncation and padding ----
spec(r"""
// uses: utils
pub open spec fn tr_dir(s: Seq<int>) -> int { if s =~= S"Left" { 1int } else if s =~= S"Right" { 0int } else { 2int } }
pub open spec fn tr_of(o: JObj) -> Truncation {
    let s = get_str(o, S"strategy");
    Truncation { direction: tr_dir(get_str(o, S"direction")), strategy: (if s =~= S"LongestFirst" { 0int } else if s =~= S"OnlyFirst" { 1int } else if s =~= S"OnlySecond" { 2int } else { 3int }),
        max_length: get_int(o, S"max_length"), stride: get_int(o, S"stride") }
}
pub open spec fn tr_ok(o: JObj) -> bool { has_str(o, S"direction") && has_str(o, S"strategy") && has_int(o, S"max_length") && has_int(o, S"stride") }
// the strategy: a name, or an object whose field is the name with the fixed size
pub open spec fn pd_name(o: JObj) -> Seq<int> { match jget(o, S"strategy") { Some(Json::Str(s)) => s, Some(Json::Obj(s)) => s[0].first, _ => Seq::empty() } }
pub open spec fn pd_size(o: JObj) -> int { match jget(o, S"strategy") { Some(Json::Obj(s)) => s[0].second->Int_0, _ => -1 } }
pub open spec fn pd_of(o: JObj) -> Padding {
    let s = pd_name(o);
    Padding { direction: tr_dir(get_str(o, S"direction")), strategy: (if s =~= S"BatchLongest" { 0int } else if s =~= S"Fixed" { 1int } else { 2int }), fixed_size: pd_size(o),
        pad_id: get_int(o, S"pad_id"), pad_type_id: get_int(o, S"pad_type_id"), pad_token: get_str(o, S"pad_token"), pad_to_multiple_of: get_int(o, S"pad_to_multiple_of") }
}
pub open spec fn pd_ok(o: JObj) -> bool {
    &&& has_str(o, S"direction") && has_int(o, S"pad_id") && has_int(o, S"pad_type_id") && has_str(o, S"pad_token") && has_int(o, S"pad_to_multiple_of")
    &&& jget(o, S"strategy") is Some && match jget(o, S"strategy")->0 { Json::Null => true, Json::Str(_) => true, Json::Obj(s) => s.len() == 1 && is_int32(s[0].second), _ => false }
}
""", only="C25")
fn("with_truncation", requires=["tr_ok($truncation_params)"], ensures={"C25:component": "$r =~~= Some(tr_of($truncation_params))"}, props="C25")
fn("with_padding", requires=["pd_ok($padding_params)"], ensures={"C25:component": "$r =~~= Some(pd_of($padding_params))"}, props="C25",
   loops=[dict(inv=["#i > 0 ==> $strategy == #r[0].first && $fixed_size == #r[0].second->Int_0"])])

# ---- vocabulary and models ----
spec(r"""
// uses: model bpe
// the names of the fields differ
pub open spec fn distinct_keys(s: JObj) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).first != (#[trigger] s[j]).first }
pub open spec fn voc_ok(s: JObj) -> bool { forall|i: int| 0 <= i < s.len() ==> is_int32((#[trigger] s[i]).second) }
pub open spec fn voc_of(s: JObj, n: int) -> Map<Seq<int>, int> decreases n {
    if n <= 0 { Map::empty() } else { let m = voc_of(s, n - 1); if m.dom().contains(s[n - 1].first) { m } else { m.insert(s[n - 1].first, s[n - 1].second->Int_0) } }
}
// every field becomes an entry, and there is no other entry
pub proof fn lemma_voc_of(s: JObj, n: int)
    requires 0 <= n <= s.len(), distinct_keys(s)
    ensures forall|i: int| 0 <= i < n ==> voc_of(s, n).dom().contains((#[trigger] s[i]).first) && voc_of(s, n)[s[i].first] == s[i].second->Int_0,
        forall|k: Seq<int>| #[trigger] voc_of(s, n).dom().contains(k) ==> exists|i: int| 0 <= i < n && (#[trigger] s[i]).first == k
    decreases n
{
    if n > 0 {
        lemma_voc_of(s, n - 1);
        let m = voc_of(s, n - 1); let k = s[n - 1].first;
        if m.dom().contains(k) { let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] s[i]).first == k; assert(s[i].first != s[n - 1].first); }
        assert forall|x: Seq<int>| #[trigger] voc_of(s, n).dom().contains(x) implies exists|i: int| 0 <= i < n && (#[trigger] s[i]).first == x by {
            if x == k { assert(s[n - 1].first == x); } else { assert(m.dom().contains(x)); let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] s[i]).first == x; assert(s[i].first == x); }
        }
    }
}
""", only="C25")
fn("get_map_ints_from_json", requires=["voc_ok($json_object)"], spec="voc_of($json_object, slen($json_object))", total=True, props="C25",
   loops=[dict(inv=["$result == voc_of(#r, #i)", "#r == $json_object"])])

# ---- post-processors ----
KIND = kinds("get_post_processor", [("BertProcessing", 0), ("ByteLevel", 1), ("RobertaProcessing", 2), ("TemplateProcessing", 3), ("Sequence", 4)], 5)
spec(r"""
pub open spec fn is_str(o: JObj, k: Seq<int>) -> bool { jget(o, k) is Some && jget(o, k)->0 is Str }
pub open spec fn is_int(o: JObj, k: Seq<int>) -> bool { jget(o, k) is Some && is_int32(jget(o, k)->0) }
pub open spec fn as_obj(j: Json) -> JObj { match j { Json::Obj(o) => o, _ => Seq::empty() } }
// the pieces of a template: the fields of its elements, in order
pub open spec fn pc_of(f: Pair<Seq<int>, Json>) -> Pair<Seq<int>, Piece> { Pair { first: f.first, second: Piece { id: get_str(as_obj(f.second), S"id"), type_id: get_int(as_obj(f.second), S"type_id") } } }
pub open spec fn pcs_obj(o: JObj, n: int) -> Seq<Pair<Seq<int>, Piece>> decreases n { if n <= 0 { Seq::empty() } else { pcs_obj(o, n - 1).push(pc_of(o[n - 1])) } }
pub open spec fn pcs_of(a: Seq<Json>, n: int) -> Seq<Pair<Seq<int>, Piece>> decreases n { if n <= 0 { Seq::empty() } else { pcs_of(a, n - 1) + pcs_obj(as_obj(a[n - 1]), slen(as_obj(a[n - 1]))) } }
pub open spec fn pc_ok(f: Pair<Seq<int>, Json>) -> bool { f.second is Obj && is_str(as_obj(f.second), S"id") && is_int(as_obj(f.second), S"type_id") }
pub open spec fn pcs_obj_ok(o: JObj) -> bool { forall|i: int| 0 <= i < o.len() ==> pc_ok(#[trigger] o[i]) }
pub open spec fn pcs_ok(a: Seq<Json>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Obj && pcs_obj_ok(as_obj(a[i])) }
pub open spec fn nul_arr(o: JObj, k: Seq<int>) -> bool { jget(o, k) is Some && (jget(o, k)->0 is Null || jget(o, k)->0 is Arr) }
// the special tokens: the values of the fields, in order
pub open spec fn jints(a: Seq<Json>, n: int) -> Seq<int> decreases n { if n <= 0 { Seq::empty() } else { jints(a, n - 1).push(a[n - 1]->Int_0) } }
pub open spec fn jstrs(a: Seq<Json>, n: int) -> Seq<Seq<int>> decreases n { if n <= 0 { Seq::empty() } else { jstrs(a, n - 1).push(a[n - 1]->Str_0) } }
pub open spec fn ints_ok(a: Seq<Json>) -> bool { forall|i: int| 0 <= i < a.len() ==> is_int32(#[trigger] a[i]) }
pub open spec fn strs_ok(a: Seq<Json>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is Str }
pub open spec fn st_one(j: Json) -> SpecialToken { let o = as_obj(j); SpecialToken { id: get_str(o, S"id"), ids: jints(jarr(o, S"ids"), slen(jarr(o, S"ids"))), tokens: jstrs(jarr(o, S"tokens"), slen(jarr(o, S"tokens"))) } }
pub open spec fn sts_of(o: JObj, n: int) -> Seq<SpecialToken> decreases n { if n <= 0 { Seq::empty() } else { sts_of(o, n - 1).push(st_one(o[n - 1].second)) } }
pub open spec fn st_one_ok(j: Json) -> bool { let o = as_obj(j); j is Obj && is_str(o, S"id") && is_arr(o, S"ids") && ints_ok(jarr(o, S"ids")) && is_arr(o, S"tokens") && strs_ok(jarr(o, S"tokens")) }
pub open spec fn sts_all_ok(o: JObj) -> bool { forall|i: int| 0 <= i < o.len() ==> st_one_ok((#[trigger] o[i]).second) }
pub open spec fn nul_obj(o: JObj, k: Seq<int>) -> bool { jget(o, k) is Some && (jget(o, k)->0 is Null || jget(o, k)->0 is Obj) }
pub open spec fn jobj(o: JObj, k: Seq<int>) -> JObj { match jget(o, k) { Some(Json::Obj(s)) => s, _ => Seq::empty() } }
""", only="C25")
family("po", "PostProcessor", "get_post_processor", KIND, "SequenceProcessing", "processors",
       [("TemplateProcessing", "TemplateProcessing", 'single: pcs_of(jarr(o, S"single"), slen(jarr(o, S"single"))), pair: pcs_of(jarr(o, S"pair"), slen(jarr(o, S"pair"))), special_tokens: sts_of(jobj(o, S"special_tokens"), slen(jobj(o, S"special_tokens")))',
         'nul_arr(o, S"single") && pcs_ok(jarr(o, S"single")) && nul_arr(o, S"pair") && pcs_ok(jarr(o, S"pair")) && nul_obj(o, S"special_tokens") && sts_all_ok(jobj(o, S"special_tokens"))'),
        ("ByteLevel", "ByteLevelProcessing", fields("add_prefix_space trim_offsets")[0] + ", BYTES_CHAR: bc_map()", fields("add_prefix_space trim_offsets")[1])])
fn("ByteLevelProcessing::ByteLevelProcessing", ensures={"C07,C25:options": "$r.add_prefix_space == $add_prefix_space && $r.trim_offsets == $trim_offsets", "*:alphabet": "is_bc($r.BYTES_CHAR)", "C25:fields": "$r.BYTES_CHAR == bc_map()"}, hints={"return": [("C25", "lemma_bc_map($r.BYTES_CHAR);")]})


def pieces(v, key):
    return [dict(inv=['#r == jarr($post_processor_params, S"%s")' % key, "$%s == pcs_of(#r, #i)" % v], head="@let a%s = #r; @let i%s = #i;" % (v, v), end="assert(pcs_of(#a%s, #i%s + 1) == pcs_of(#a%s, #i%s) + pcs_obj(as_obj(#a%s[#i%s]), slen(as_obj(#a%s[#i%s]))));" % ((v,) * 8)),
            dict(inv=["#r == as_obj(#a%s[#i%s])" % (v, v), "$%s =~= pcs_of(#a%s, #i%s) + pcs_obj(#r, #i)" % (v, v, v)])]


reader("po", "with_post_processor", "post_processor_params", "seq_processors", "processors",
       loops=pieces("single", "single") + pieces("pair", "pair") + [
           dict(inv=['#r == jobj($post_processor_params, S"special_tokens")', "$special_tokens == sts_of(#r, #i)"], head="@let so = #r; @let si = #i;"),
           dict(inv=['#r == jarr(as_obj(#so[#si].second), S"ids")', "$ids == jints(#r, #i)"]),
           dict(inv=['#r == jarr(as_obj(#so[#si].second), S"tokens")', "$tokens == jstrs(#r, #i)"])])

# ---- models ----
kinds("get_model", [("BPE", 0), ("Unigram", 1), ("WordLevel", 2), ("WordPiece", 3)], 4)
spec(r"""
// @dyn WordPiece
// @dyn BPE
pub open spec fn mo_vocab(o: JObj) -> Map<Seq<int>, int> { voc_of(jobj(o, S"vocab"), slen(jobj(o, S"vocab"))) }
pub open spec fn get_fl(o: JObj, k: Seq<int>) -> Fl { match jget(o, k) { Some(Json::Int(i)) => fl_of_int(i), Some(Json::Num(f)) => f, _ => Fl { v: 0 } } }
pub open spec fn has_fl(o: JObj, k: Seq<int>) -> bool { jget(o, k) is Some && (jget(o, k)->0 is Null || jget(o, k)->0 is Int || jget(o, k)->0 is Num) }
pub open spec fn mo_merges(o: JObj) -> Seq<Seq<int>> { jstrs(jarr(o, S"merges"), slen(jarr(o, S"merges"))) }
pub open spec fn mo_wp(o: JObj, m: WordPiece) -> bool {
    &&& m.vocab == mo_vocab(o) && inverse(m.vocab, m.vocab_r)
    &&& m.unk_token == get_str(o, S"unk_token") && m.max_input_chars_per_word == get_int(o, S"max_input_chars_per_word") && m.continuing_subword_prefix == get_str(o, S"continuing_subword_prefix")
}
pub open spec fn mo_bpe(o: JObj, m: BPE) -> bool {
    &&& m.vocab == mo_vocab(o) && inverse(m.vocab, m.vocab_r) && bpe_ok(m) && m.cache =~= Map::<Seq<int>, Word>::empty()
    &&& m.unk_token == get_str(o, S"unk_token") && m.continuing_subword_prefix == get_str(o, S"continuing_subword_prefix") && m.end_of_word_suffix == get_str(o, S"end_of_word_suffix")
    &&& m.fuse_unk == get_bool(o, S"fuse_unk") && m.byte_fallback == get_bool(o, S"byte_fallback") && m.ignore_merges == get_bool(o, S"ignore_merges")
    &&& m.dropout == get_fl(o, S"dropout") && m.merges == mg_list(m.vocab, slen(m.continuing_subword_prefix), mo_merges(o), slen(mo_merges(o)))
}
pub open spec fn mo_is(o: JObj, r: Option<Model>) -> bool {
    let t = kind_get_model(get_str(o, S"type"));
    if t == 3 { exists|m: WordPiece| #[trigger] mo_wp(o, m) && r == Some(Model { dyn_id: dyn_WordPiece(m), vocab: m.vocab, vocab_r: m.vocab_r }) }
    else if t == 0 { exists|m: BPE| #[trigger] mo_bpe(o, m) && r == Some(Model { dyn_id: dyn_BPE(m), vocab: m.vocab, vocab_r: m.vocab_r }) }
    else { r is None }
}
pub open spec fn mo_ok(o: JObj) -> bool {
    let t = kind_get_model(get_str(o, S"type"));
    &&& typed(o) && nul_obj(o, S"vocab") && voc_ok(jobj(o, S"vocab"))
    &&& t == 3 ==> has_str(o, S"unk_token") && has_int(o, S"max_input_chars_per_word") && has_str(o, S"continuing_subword_prefix")
    &&& t == 0 ==> has_str(o, S"unk_token") && has_str(o, S"continuing_subword_prefix") && has_str(o, S"end_of_word_suffix") && has_bool(o, S"fuse_unk") && has_bool(o, S"byte_fallback") && has_bool(o, S"ignore_merges")
        && has_fl(o, S"dropout") && nul_arr(o, S"merges") && strs_ok(jarr(o, S"merges")) && mg_fit(mo_vocab(o), slen(get_str(o, S"continuing_subword_prefix")), mo_merges(o))
}
""", only="C25")
fn("with_model", requires=["mo_ok($model_params)"], ensures={"C25:component": "mo_is($model_params, $r)"}, props="C25",
   loops=[dict(inv=['#r == jarr($model_params, S"merges")', "$merges == jstrs(#r, #i)"])],
   hints={"call WordPiece::WordPiece#0": "assert(mo_wp($model_params, #call));", "call BPE::BPE#0": "assert(mo_bpe($model_params, #call));"})

# ---- added tokens ----
BOOLS = ("single_word", "lstrip", "rstrip", "normalized", "special")
spec(r"""
// uses: added_vocabulary
// the value of the last of the first n fields of a name
pub open spec fn jlast(o: JObj, k: Seq<int>, n: int) -> Option<Json> decreases n { if n <= 0 { None } else if o[n - 1].first == k { Some(o[n - 1].second) } else { jlast(o, k, n - 1) } }
pub open spec fn or_bool(j: Option<Json>, d: bool) -> bool { match j { Some(Json::Bool(b)) => b, _ => d } }
// an added token: its fields, or their defaults
pub open spec fn at_of(o: JObj, n: int) -> AddedToken {
    AddedToken { id: match jlast(o, S"id", n) { Some(Json::Int(i)) => i, _ => 0 }, content: match jlast(o, S"content", n) { Some(Json::Str(s)) => s, _ => Seq::empty() }, BOOLS }
}
pub open spec fn at_field_ok(f: Pair<Seq<int>, Json>) -> bool {
    &&& f.first == S"id" ==> is_int32(f.second)
    &&& f.first == S"content" ==> f.second is Str
    &&& f.first == S"single_word" || f.first == S"lstrip" || f.first == S"rstrip" || f.first == S"normalized" || f.first == S"special" ==> f.second is Bool
}
pub open spec fn at_ok(j: Json) -> bool { j is Obj && forall|i: int| 0 <= i < as_obj(j).len() ==> at_field_ok(#[trigger] as_obj(j)[i]) }
pub open spec fn ats_of(a: Seq<Json>, n: int) -> Seq<AddedToken> decreases n { if n <= 0 { Seq::empty() } else { ats_of(a, n - 1).push(at_of(as_obj(a[n - 1]), slen(as_obj(a[n - 1])))) } }
pub open spec fn ats_ok(a: Seq<Json>) -> bool { forall|i: int| 0 <= i < a.len() ==> at_ok(#[trigger] a[i]) }
// the names differ
pub proof fn lemma_at_names() ensures NAMES
{
    assert(S"id".len() == 2 && S"content".len() == 7 && S"single_word".len() == 11 && S"lstrip".len() == 6 && S"rstrip".len() == 6 && S"normalized".len() == 10 && S"special".len() == 7);
    assert(S"lstrip"[0] != S"rstrip"[0]); assert(S"content"[0] != S"special"[0]);
}
""".replace("BOOLS", ", ".join('%s: or_bool(jlast(o, S"%s", n), %s)' % (b, b, "true" if b == "normalized" else "false") for b in BOOLS))
   .replace("NAMES", ", ".join('S"%s" != S"%s"' % (a, b) for a in ("id", "content") + BOOLS for b in ("id", "content") + BOOLS if a < b)), only="C25")
fn("with_added_vocabulary", requires=["ats_ok($added_tokens_params)"], ensures={"C25:component": "$r =~~= Some(AddedVocabulary { added_tokens: ats_of($added_tokens_params, slen($added_tokens_params)), ..av_new() })"}, props="C25",
   hints={"entry": "lemma_at_names();"},
   loops=[dict(inv=["#r == $added_tokens_params", "$added_tokens == ats_of(#r, #i)"], head="@let ao = as_obj(#r[#i]); lemma_at_names();"),
          dict(inv=["#r == #ao", "$added_token == at_of(#r, #i)"], head="lemma_at_names();")])

# ---- the whole tokenizer ----
spec(r"""
// uses: tokenizer added_vocabulary
pub uninterp spec fn json_file(path: Seq<int>) -> Option<Seq<int>>;
pub uninterp spec fn json_parse(text: Seq<int>) -> Option<Json>;
// the members of a configuration: there, and null or of their kind
pub open spec fn part_of(o: JObj, k: Seq<int>) -> Option<JObj> { match jget(o, k) { Some(Json::Obj(p)) => Some(p), _ => None } }
pub open spec fn tc_ats(o: JObj) -> Seq<AddedToken> { ats_of(jarr(o, S"added_tokens"), slen(jarr(o, S"added_tokens"))) }
pub open spec fn tc_ok(o: JObj) -> bool {
    &&& nul_obj(o, S"truncation") && (part_of(o, S"truncation") is Some ==> tr_ok(part_of(o, S"truncation")->0))
    &&& nul_obj(o, S"padding") && (part_of(o, S"padding") is Some ==> pd_ok(part_of(o, S"padding")->0))
    &&& nul_arr(o, S"added_tokens") && ats_ok(jarr(o, S"added_tokens"))
    &&& nul_obj(o, S"normalizer") && (part_of(o, S"normalizer") is Some ==> nz_ok(part_of(o, S"normalizer")->0))
    &&& nul_obj(o, S"pre_tokenizer") && (part_of(o, S"pre_tokenizer") is Some ==> pt_ok(part_of(o, S"pre_tokenizer")->0))
    &&& nul_obj(o, S"model") && (part_of(o, S"model") is Some ==> mo_ok(part_of(o, S"model")->0))
    &&& nul_obj(o, S"decoder") && (part_of(o, S"decoder") is Some ==> dc_ok(part_of(o, S"decoder")->0))
    &&& nul_obj(o, S"post_processor") && (part_of(o, S"post_processor") is Some ==> po_ok(part_of(o, S"post_processor")->0))
    &&& forall|m: Option<Model>| tc_model(o, m) ==> ids_fit(Map::empty(), #[trigger] md_of(m), slen(tc_ats(o)))
}
pub open spec fn tc_model(o: JObj, m: Option<Model>) -> bool { match part_of(o, S"model") { Some(p) => mo_is(p, m), None => m is None } }
// the tokenizer that a configuration describes: each component that of its member, and the added tokens added
pub open spec fn tc_is(o: JObj, t: Tokenizer) -> bool {
    &&& t.truncation =~~= (match part_of(o, S"truncation") { Some(p) => Some(tr_of(p)), None => None })
    &&& t.padding =~~= (match part_of(o, S"padding") { Some(p) => Some(pd_of(p)), None => None })
    &&& t.normalizer =~~= (match part_of(o, S"normalizer") { Some(p) => nz_of(p), None => None })
    &&& t.pre_tokenizer =~~= (match part_of(o, S"pre_tokenizer") { Some(p) => pt_of(p), None => None })
    &&& tc_model(o, t.model)
    &&& t.decoder =~~= (match part_of(o, S"decoder") { Some(p) => dc_of(p), None => None })
    &&& t.post_processor =~~= (match part_of(o, S"post_processor") { Some(p) => po_of(p), None => None })
    &&& t.added_vocabulary =~~= (if is_arr(o, S"added_tokens") { Some(av_add(AddedVocabulary { added_tokens: tc_ats(o), ..av_new() }, tc_ats(o), md_of(t.model))) } else { None })
}
pub open spec fn tc_text(path: Seq<int>, config: Seq<int>) -> Option<Seq<int>> { if path.len() > 0 { json_file(path + S"/tokenizer.json") } else { Some(config) } }
pub open spec fn tc_doc(path: Seq<int>, config: Seq<int>) -> Option<Json> { match tc_text(path, config) { Some(s) => json_parse(s), None => None } }
""", only="C25")
fn("Tokenizer::Tokenizer", props="C25", throws="$path.len() == 0 && $config.len() == 0",
   requires=["$path.len() + $config.len() > 0 ==> tc_text($path, $config) is Some && (tc_doc($path, $config) is Some && tc_doc($path, $config)->0 is Obj && tc_ok(tc_doc($path, $config)->0->Obj_0))"],
   hints={"return": "let o = tc_doc($0path, $0config)->0->Obj_0; assert(tc_model(o, $r.model));"},
   ensures={"C25:components": "tc_is(tc_doc($path, $config)->0->Obj_0, $r)"})
trust("a file is read and a text is parsed as simdjson does", only="C25")
