#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})
I, C, H = "inputs", "configurations", "histories"
U, PP, DE, MO, PT, NO, AV, TK, CO = ("src/utils.cpp", "src/post_processor.cpp", "src/decoder.cpp", "src/model.cpp",
    "src/pre_tokenizer.cpp", "src/normalizer.cpp", "src/added_vocabulary.cpp", "src/tokenizer.cpp", "src/common.cpp")
few = "The tests check a handful of literal inputs; "

p("C01", "Truncation keeps exactly the first or last max_length tokens",
  "With the LongestFirst or OnlyFirst strategy, 0 <= stride < max_length and a reserved room r (0 for a direct call; inside encode, the number of special tokens that will be added), an encoding of more than m = max(max_length - r, 0) > stride tokens is cut to exactly its first m tokens (direction Right) or its last m tokens (direction Left), all seven per-token arrays being cut at the same place with their values and order kept. "
  "An encoding of at most max_length tokens is returned unchanged, including its overflowing list; with max_length 0 the main encoding is empty and the whole original is the only overflowing one; a stride that is not less than a positive max_length is rejected with an exception whenever something would have to be cut.",
  [I, C], "for every encoding (any length, any values), every max_length >= 0, every stride >= 0, both directions, the two strategies",
  few + "the cut position depends on length, max_length, stride and direction in combination, and left truncation with a stride was wrong for lengths the tests do not use.",
  [U], [("truncate", U), ("Truncation::truncate_encoding", U)], ["Truncation::truncate_encoding"],
  [("max_length, stride, direction, strategy", "truncation parameters", "include/tokenizers/utils.h")])
p("C02", "Overflow windows cover the text with exactly the configured overlap",
  "When an encoding is truncated with 0 <= stride < max_length, the main encoding followed by the overflowing ones is a sequence of windows over the original tokens, in order from the kept side, each a contiguous slice of all seven arrays of at most max_length tokens, in which each window starts exactly max_length - stride tokens after the previous one (counted from the kept side). "
  "The windows together contain every token of the original, the last one ends exactly at the far end of it, only the last one may be shorter than max_length, and windows have no overflowing list of their own.",
  [I, C], "for every encoding length, max_length, stride and both directions",
  few + "they use lengths up to 4 and never a case with three or more left windows; the statement quantifies over every length/stride combination.",
  [U], [("truncate: parts_ranges", U)], ["Truncation::truncate_encoding"])
p("C03", "Padding reaches the target length and leaves the original tokens intact",
  "pad_encoding with direction Left or Right makes the length of the encoding the target length whenever it is shorter and otherwise leaves it unchanged, the target being fixed_size (Fixed) or the encoding's own length (BatchLongest), rounded up to the next multiple of pad_to_multiple_of when that is positive. "
  "The original entries of all seven arrays stay contiguous, in order and unmodified on the side opposite to the padding; every padding entry has pad_id, pad_type_id, pad_token, word 0, offsets (0,0), special-token mask 1 and attention mask 0. Every overflowing encoding, at any depth, is padded to the same target in the same way and none is added, dropped or reordered.",
  [I, C], "for every encoding with its overflow tree, every fixed size, multiple, pad id/type/token, both directions and strategies",
  few + "none has overflowing encodings and a multiple at once.",
  [U], [("pad", U), ("Padding::pad_encoding", U)], ["Padding::pad_encoding"])
p("C04", "The seven per-token arrays of every encoding always have one length",
  "Every encoding that encode returns, and every overflowing encoding inside it, has ids, type ids, tokens, words, offsets, special-token mask and attention mask of the same length. "
  "Each stage on its own (collecting the tokens of the splits, truncation, every post-processor, padding) preserves this for every encoding that has it, provided that each special token of the configuration lists as many ids as tokens.",
  [I, C], "for every text, every configuration of the pipeline and every encoding handed to a stage",
  few + "a stage that forgets one array on one path (left padding, overflow, a special token with several ids) goes unnoticed.",
  [TK, U, PP], [("into_encoding", TK), ("truncate", U), ("pad", U), ("TemplateProcessing::process", PP), ("ByteLevelProcessing::process", PP)],
  ["Tokenizer::encode", "Truncation::truncate_encoding", "Padding::pad_encoding", "PostProcessor::process"])
p("C05", "Template post-processing inserts exactly the template's special tokens",
  "TemplateProcessing returns the concatenation, in template order, of the pieces of its single template: for a sequence piece the given encoding unchanged except that a piece for sequence A first sets all its type ids, in this and in later sequence pieces, to the piece's type id; for a special-token piece, when special tokens are requested, the ids and tokens of the first configured special token with that id (nothing if there is none), with the piece's type id, no word, offsets (0,0), special-token mask 1 and attention mask 1; when they are not requested, nothing. "
  "Every overflowing encoding is processed in the same way, in order, and the number of special tokens that it announces is the number it adds to an encoding.",
  [I, C], "for every encoding with its overflow tree, every template and every special-token table, with and without special tokens",
  few + "one template (BERT's) is exercised; templates with repeated sequences, tokens of several ids, unknown tokens and overflow are not.",
  [PP], [("TemplateProcessing::process", PP), ("TemplateProcessing::added_tokens", PP)], ["PostProcessor::process"])
p("C06", "The byte-level alphabet is a bijection and decoding inverts encoding",
  "The byte-level alphabet maps each of the 256 byte values to one character, different bytes to different characters, printable ASCII '!'..'~' and U+00A1..U+00AC, U+00AE..U+00FF to themselves and the others to U+0100 + k in increasing order. "
  "Byte-level pre-tokenization, after putting one space in front of the text of every split without tokens that neither is empty nor starts with white space (only if add_prefix_space is set) and then cutting each split without tokens into all its pieces by the GPT-2 pattern ('s|'t|'re|'ve|'m|'ll|'d| ?\\p{L}+| ?\\p{N}+| ?[^\\s\\p{L}\\p{N}]+|\\s+(?!\\S)|\\s+) if use_regex is set, replaces the text of each by the characters of its UTF-8 bytes in order, and the byte-level decoder turns the concatenation of any such texts back into exactly the original bytes, however they are cut into tokens at character boundaries; a token with a character outside the alphabet is passed through as it is.",
  [I], "for every byte string and every way to cut its byte-level text into tokens",
  few + "the decoder test uses ASCII and one accent; the statement is about all 256 bytes and all byte sequences.",
  [CO, PT, DE], [("bytes_char", CO), ("ByteLevelPreTokenizer::pre_tokenize", PT), ("ByteLevelDecoder::decode_chain", DE)],
  ["bytes_char", "PreTokenizer::pre_tokenize", "Decoder::decode_chain"])
p("C07", "Byte-level offset trimming only removes the spaces of the token",
  "With trim_offsets off, byte-level post-processing returns its encoding unchanged. With it on, for each token with offsets (a,b), a <= b, the start becomes min(a + L, b) and then, if the token has T > 0 trailing space characters of the byte-level alphabet and b >= T, the end becomes max(b - T, new start), L being the number of leading ones, counted as 0 if it is 1, a prefix space was added and the token is the first one or a is 0; "
  "so the offsets never grow, never cross and never move otherwise. Everything else in the encoding is unchanged, and the overflowing encodings are treated in the same way.",
  [I, C], "for every encoding (tokens of any text, any offsets) and both settings of the two options",
  few + "the tests cover single leading and trailing spaces.",
  [PP], [("ByteLevelProcessing::process_offsets", PP), ("ByteLevelProcessing::process", PP)], ["PostProcessor::process"])
p("C08", "Splitting partitions every text and never touches tokenized splits",
  "Splitting by a pattern leaves every split that already has tokens as it is and in place, and replaces every other split, in place, by pieces that are the consecutive substrings of its text delimited by the matches of the pattern, in order, without gap or overlap: all of them with behaviour Isolated; with behaviour Removed only those that are not matches (with invert, only those that are). "
  "Each piece's offsets are the character positions of that substring shifted by the start of the split it came from, so its length in characters is the length of its offsets.",
  [I, C], "for every list of splits (with and without tokens), every Unicode text and every pattern",
  few + "they use three ASCII sentences; text above U+FFFF, matches at the ends, adjacent matches and mixed tokenized splits are not tried.",
  [PT], [("find_matches", PT), ("split_normalized", PT), ("PreTokenizedString::split", PT), ("SplitPreTokenizer::pre_tokenize", PT)],
  ["PreTokenizer::pre_tokenize", "PreTokenizedString::split"])
p("C09", "The BERT pre-tokenizer yields the maximal words and single punctuation",
  "The BERT pre-tokenizer turns the untokenized splits of a text into exactly the maximal runs of characters that are neither regex white space (\\s) nor punctuation (\\p{P}) and the single punctuation characters, in order, each with its own character offsets; white space is dropped and nothing else is. "
  "Splits that already have tokens are kept as they are.",
  [I], "for every Unicode text and every list of splits",
  few + "two ASCII sentences are tried.",
  [PT], [("BertPreTokenizer::pre_tokenize", PT), ("is_whitespace", PT), ("is_bert_punc", PT)], ["PreTokenizer::pre_tokenize"])
p("C10", "WordPiece takes the longest matching piece at every position",
  "WordPiece tokenizes each split without tokens of at most max_input_chars_per_word characters into pieces that tile it from left to right, each being the longest one at its position whose text (with the continuation prefix if it does not start the word) is in the vocabulary, with the vocabulary's id for that text and its character offsets in the split. "
  "If at some position no piece matches, or the split is too long, it becomes the single unknown token with offsets over the whole split and the unknown token's id (0 if it is not in the vocabulary). Splits that already have tokens, and the texts and offsets of all splits, are left alone.",
  [I, C], "for every vocabulary, prefix, limit and every Unicode text",
  few + "the vocabularies of the tests have a handful of words and no competing prefixes.",
  [MO], [("WordPiece::tokenize", MO)], ["Model::tokenize"])
p("C11", "BPE tokens tile the word and agree with the vocabulary",
  "When every character of a split is in the vocabulary (or byte fallback or a vocabulary unknown token stands in for it) BPE's tokens for a split have offsets that go from 0 to the number of characters of the split without gap, each starting where the previous one ends (for byte-fallback tokens inside one character: covering that character). "
  "Each token's text is the vocabulary's text of its id, and characters that are not in the vocabulary become, in this order of preference, their <0xNN> byte tokens (only if all of them exist), the unknown token (adjacent ones fused into one if fuse_unk is set), or nothing.",
  [I, C], "for every vocabulary with distinct ids, merge list, option combination with dropout 0 (byte fallback without prefix and suffix), and every Unicode text",
  few + "the BPE tests use ASCII words without unknown characters and one unknown-token case.",
  [MO], [("BPE::merge_word", MO), ("BPE::word_to_tokens", MO), ("with_char_offsets", MO), ("Word::add", MO)], ["Model::tokenize"])
p("C12", "BPE applies merges by rank, leftmost first, until none applies",
  "Without dropout, BPE's result for a word is the one obtained from its initial symbols by repeatedly merging the adjacent pair of lowest rank, the leftmost one on ties, until no adjacent pair has a merge. "
  "The rank of a pair is its index in the merge list; a merge whose parts or result are not in the vocabulary is never applied, and with ignore_merges a split that is itself in the vocabulary becomes that single token.",
  [I, C], "for every vocabulary, merge list (as in trained models: every merge's result is a text longer than its parts) and every word",
  few + "a word needs several competing merges to distinguish rank order, leftmost order and stale queue entries.",
  [MO], [("Word::merge_all", MO), ("Merge::operator<", "include/tokenizers/model.h"), ("BPE::BPE", MO)], ["Model::tokenize"])
p("C13", "Results do not depend on what was tokenized before",
  "Encoding the same text with the same options gives the same encoding whatever was encoded or decoded before with the same tokenizer, as long as dropout is 0 and no tokens are added in between. "
  "In particular a word that the BPE cache already holds gives the same tokens as when it is tokenized for the first time, and every cached entry is the result for its own word.",
  [I, H], "for every sequence of encode and decode calls on one tokenizer",
  "A test calls encode once; the statement quantifies over call histories.",
  [MO, TK], [("BPE::tokenize_with_cache", MO), ("BPE::cache", "include/tokenizers/model.h")], ["Tokenizer::encode", "Model::tokenize"])
p("C14", "Vocabulary lookups by token and by id are inverse to each other",
  "For a model whose vocabulary gives different tokens different ids, token_to_id(t) is the id the vocabulary gives t and nothing for any other text, id_to_token(i) is the token with id i and nothing for any other id, so each lookup inverts the other; "
  "get_vocab_size is the number of tokens.",
  [I, C], "for every vocabulary with distinct ids, every text and every id (negative ones included)",
  few + "the tests look up one or two tokens.",
  [MO], [("Model::Model", MO), ("Model::token_to_id", MO), ("Model::id_to_token", MO), ("Model::get_vocab_size", MO)],
  ["Model::token_to_id", "Model::id_to_token"])
p("C15", "Added tokens get stable, unique ids that decode back to them",
  "Adding tokens gives each non-empty content the id it already has (from an earlier addition, else from the model) and otherwise a fresh id that is the least one not below the vocabulary size and above every id given to an added token so far; with a vocabulary whose ids are 0..n-1 no two contents share an id. "
  "The call returns the number of given tokens with non-empty content, id lookups return the content added last under that id, ids given earlier never change, and a content counts as special from the first time it is added as special.",
  [I, H, C], "for every sequence of add_tokens / add_special_tokens calls with any tokens, over any contiguous vocabulary",
  "A test adds one list once; ids depend on the whole history of additions and on what the model already knows.",
  [AV], [("AddedVocabulary::add_tokens", AV), ("AddedVocabulary::add_special_tokens", AV), ("AddedVocabulary::id_to_token", AV), ("AddedVocabulary::is_special_token", AV)],
  ["AddedVocabulary::add_tokens", "AddedVocabulary::id_to_token", "Tokenizer::add_tokens"])
p("C16", "Added-token extraction finds leftmost-longest matches and loses no text",
  "Extraction cuts a text into consecutive segments that together are the whole text (each segment outside the non-normalized added tokens being replaced by its normalization, in which the normalized ones are then found), in which every added token found is a segment with exactly its id, its text and offsets over all its characters. "
  "The occurrences are the leftmost ones, the longest one at each position, not overlapping; those of a single_word token next to a word character are not taken; lstrip and rstrip extend the segment over the white space to the left (up to the previous segment) and to the right.",
  [I, C], "for every set of added tokens (any contents, flags) and every Unicode text",
  few + "one test text with two special tokens; overlapping contents, adjacency, flags and non-ASCII text are not exercised.",
  [AV], [("AddedVocabulary::find_matches", AV), ("AddedVocabulary::extract_and_normalize", AV), ("AddedVocabulary::refresh_added_tokens", AV)],
  ["AddedVocabulary::extract_and_normalize", "Tokenizer::encode"])
p("C17", "Decoding drops exactly the special tokens when asked to",
  "decode maps each id, in order, to its added token if there is one, else to the model's token, drops the ids that have neither, and, if and only if special tokens are to be skipped, also those whose text is a special added token; the result is the concatenation of what the decoder makes of that list (of the list itself without a decoder). "
  "No id list and no combination of missing components makes it fail.",
  [I, C], "for every list of ids (unknown and negative ones included), every vocabulary, added vocabulary and decoder",
  "There is no test that decodes through the tokenizer with added tokens and unknown ids.",
  [TK, AV], [("Tokenizer::decode", TK), ("AddedVocabulary::id_to_token", AV), ("AddedVocabulary::is_special_token", AV)], ["Tokenizer::decode"])
p("C18", "The WordPiece decoder joins pieces, and cleans up only when asked",
  "Without cleanup, the WordPiece decoder returns one text per token: the first token as it is, every later token without its continuation prefix if it starts with it, and otherwise with one space in front. "
  "With cleanup each of these texts additionally goes through the fixed list of replacements (\" .\" to \".\", \" ?\" , \" !\", \" ,\", \" ' \" to \"'\", \" n't\", \" 'm\", \" do not\" to \" don't\", \" 's\", \" 've\", \" 're\" losing the space), each replacing every occurrence from left to right, in that order.",
  [I, C], "for every list of tokens, every prefix, with and without cleanup",
  few + "one sentence is decoded.",
  [DE], [("WordPieceDecoder::decode_chain", DE), ("cleanup_token", DE), ("replace", DE)], ["Decoder::decode_chain"])
p("C19", "The BERT normalizer changes exactly the characters it documents",
  "With clean_text, BERT normalization drops NUL, U+FFFD and control characters (general category C other than tab, newline, carriage return) and turns every white-space character into a space; with handle_chinese_chars it puts a space before and after each CJK ideograph of its blocks; with strip_accents or lowercase it removes the non-spacing marks of the canonical decomposition; with lowercase it maps each character to its simple lower case. "
  "The enabled steps apply in that order, each to every character, and nothing else changes; with all of them off the text is unchanged.",
  [I, C], "for every Unicode text and all 16 settings of the options",
  few + "the tests have a few short strings per option and none that combines removal and insertion.",
  [NO], [("BertNormalizer::normalize", NO), ("do_clean_text", NO), ("do_handle_chinese_chars", NO), ("do_strip_accents", NO), ("do_lowercase", NO)],
  ["Normalizer::normalize"])
p("C20", "Strip, StripAccents, Prepend and Replace rewrite exactly what they name",
  "Strip removes exactly the maximal run of white space at each requested end; StripAccents removes exactly the characters U+0300..U+036F; Prepend puts its text in front of every non-empty text and leaves the empty one; "
  "Replace substitutes its content for each non-overlapping occurrence of its literal pattern, found from left to right, and an empty pattern changes nothing.",
  [I, C], "for every Unicode text and every parameter of the four normalizers",
  few + "one or two literal inputs for each of them.",
  [NO], [("Strip::normalize", NO), ("StripAccents::normalize", NO), ("Prepend::normalize", NO), ("Replace::normalize", NO)], ["Normalizer::normalize"])
p("C21", "Normalization keeps the alignment table well formed",
  "A fresh text is aligned with itself character by character, and after any normalizer or sequence of normalizers the table has exactly one entry per character of the normalized text, the entries are consecutive non-empty ranges that cover the list of original positions exactly, and these original positions are non-empty ranges inside the original text in non-decreasing order. "
  "A character that a per-character normalizer keeps stays aligned with the character it came from, and added characters are aligned with their neighbour.",
  [I, C], "for every Unicode text and every normalizer or sequence of normalizers",
  "The tests compare the normalized text only; the alignment is not checked at all.",
  [NO], [("NormalizedString::NormalizedString", NO), ("NormalizedString::transform", NO), ("NormalizedString::replace_range", NO), ("NormalizedString::transform_range", NO), ("align_normalized", NO)],
  ["Normalizer::normalize"], [("offsets, offset_ranges", "alignment table of the normalized text", "include/tokenizers/normalizer.h")])
p("C22", "Token offsets point at the original text",
  "Every offset pair (a,b) in an encoding that encode returns satisfies 0 <= a <= b <= length of the text in characters, and the offsets of tokens that are not special or padding are in non-decreasing order, unless a post-processor trims offsets or its template gives the text more than once. "
  "Without a normalizer and a post-processor that trims offsets, and with a model that stands for every character, the characters a..b of the text are exactly the characters the token was made from: for a vocabulary token its own text without continuation prefix (with a byte-level pre-tokenizer, the characters that its bytes belong to), for an added token or unknown token the text it replaced; with a normalizer they are the original characters those are aligned with.",
  [I, C], "for every text and every pipeline of supported components",
  few + "one tokenizer test with ASCII text checks offsets.",
  [TK, AV, NO], [("into_encoding", TK), ("original_offsets", TK), ("AddedVocabulary::extract_and_normalize", AV), ("NormalizedString::transform_range", NO)], ["Tokenizer::encode"])
p("C23", "Encoding runs the configured stages in the documented order",
  "encode is the composition, in this order, of added-token extraction with normalization, pre-tokenization, the model, collecting the tokens (word number = index of the split, type id 0, special-token mask 0, attention mask 1), truncation (leaving room for the special tokens only when these are added), post-processing with the caller's choice of special tokens, and padding; "
  "each missing component is skipped and nothing else happens to its data. Without added tokens the normalizer still applies to the whole text.",
  [I, C], "for every text, every subset of the components being present and both settings of add_special_tokens",
  "One test has all components and one has none.",
  [TK], [("Tokenizer::encode", TK), ("Tokenizer::do_tokenize", TK), ("Tokenizer::do_post_process", TK), ("into_encoding", TK)], ["Tokenizer::encode"])
p("C24", "A sequence of components is their composition in order",
  "A Sequence normalizer, pre-tokenizer, post-processor or decoder gives exactly what applying its members one after the other in their configured order gives, each exactly once to the result of the one before it; the empty sequence is the identity. "
  "A sequence of post-processors passes the choice of special tokens on to each member and announces the sum of their special tokens.",
  [I, C], "for every list of members and every input",
  few + "sequences of one or two members whose order does not matter.",
  [NO, PT, PP, DE], [("SequenceNormalizer::normalize", NO), ("SequencePreTokenizer::pre_tokenize", PT), ("SequenceProcessing::process", PP), ("SequenceDecoder::decode_chain", DE)],
  ["Normalizer::normalize", "PreTokenizer::pre_tokenize", "PostProcessor::process", "Decoder::decode_chain"])
p("C25", "Loading a configuration yields the component it describes",
  "For each supported component type, the component built from a JSON configuration behaves exactly like the one constructed directly with the values of the configuration's fields, a null field standing for the field's empty value (false, 0, empty text or list); unsupported type names yield no component, and members of a sequence that are not supported are left out without changing the order of the others. "
  "Vocabulary, merges, templates, special tokens and added tokens are taken over completely, in order and with every value. "
  "A tokenizer loaded from a configuration (text or file) has exactly the components that its members describe, none for a null member, and the added tokens are added to its vocabulary; neither text nor path is an error.",
  [C, I], "for every well-formed configuration of every supported component (all field values)",
  "The tests load one configuration per component and compare its type or one result.",
  [NO, PT, PP, DE, MO, U, AV, TK], [("Tokenizer::Tokenizer", TK), ("with_normalizer", NO), ("with_pre_tokenizer", PT), ("with_post_processor", PP), ("with_decoder", DE), ("with_model", MO), ("with_truncation / with_padding", U), ("with_added_vocabulary", AV)],
  ["with_normalizer", "with_pre_tokenizer", "with_post_processor", "with_decoder", "with_model", "with_truncation", "with_padding", "with_added_vocabulary", "Tokenizer::Tokenizer"])
p("C26", "NFC, NFD, NFKC and NFKD return the Unicode normalization form they name",
  "Each of the four Unicode normalizers returns exactly the normalization form it is named after of the whole text, in all planes, with nothing else added, dropped or reordered.",
  [I], "for every Unicode text (without unpaired surrogates)",
  few + "one accented word per form, on which compatibility and canonical forms mostly agree.",
  [NO], [("NFC::normalize", NO), ("NFD::normalize", NO), ("NFKC::normalize", NO), ("NFKD::normalize", NO)], ["Normalizer::normalize"])
p("C27", "Byte-level BPE encodes and decodes every text without loss",
  "With a byte-level pre-tokenizer without prefix space (alone, or after pre-tokenizers that isolate what they split at), a BPE model whose vocabulary contains all 256 byte-level characters and whose merges concatenate their parts (no continuing prefix, no end-of-word suffix), a byte-level decoder, and no normalizer, truncation or padding, decoding the ids of the encoding of a text (no special tokens added, none skipped) gives exactly the UTF-8 bytes of that text, added tokens in it included (added tokens that are printable ASCII and do not strip). "
  "This holds for every merge list and every regex setting, with the cache cold or warm.",
  [I, C, H], "for every Unicode text, every such vocabulary and merge list",
  "No test goes through encode and decode; the composition of four stages must be lossless for every text.",
  [TK, PT, MO, DE, CO], [("Tokenizer::encode", TK), ("ByteLevelPreTokenizer::pre_tokenize", PT), ("BPE::tokenize", MO), ("ByteLevelDecoder::decode_chain", DE), ("Tokenizer::decode", TK)],
  ["Tokenizer::encode", "Tokenizer::decode"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
