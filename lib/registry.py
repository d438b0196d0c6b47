COMMON_ASSUMPTIONS = [
    "the interpreted IR is clang 18 -O1 output of /repo's current sources for x86-64; gcc-only miscompilation is out of reach",
    "libc/libm functions with engine models (memcpy, strtol, malloc, ...) behave as modelled; sampled path models are replayed natively to check this",
    "allocation never fails; addresses of distinct objects are distinct and ordered by creation",
]
M = lambda *f: ["--merge=" + x for x in f]
# the character classes of symbolic text come from the exact table of the current tree
CLS = ["--table=getCodeType:@"]
BIND = ["--bind=8"]
# symbolic numbers are printed by the harness
NUM = ["--replace=write_doubleIdNS_10FormatSpec:jpp_write_double"]
CORE = ["util", "core", "analysis", "dic", "spec", "impl"]
FMT = CORE + ["rnn", "jumandic"]
CHECKS = {
    "A01": dict(harness=["h_utf8.cc"], groups=["util"], entries=[
        dict(name="utf8_decode", reach=["valid", "invalid"], params=dict(n=5), tparams=dict(n=8), opts=CLS,
             what="preprocessRawData/numCodepoints against a reference decoder", bounds="all byte strings of up to n bytes")]),
    "A02": dict(harness=["h_utf8.cc"], groups=["util"], entries=[
        dict(name="char_class", opts=["--conc-addr"], what="class of every BMP code point against range tables", bounds="U+0000..U+FFFF"),
        dict(name="char_class_astral", fn="char_class", opts=["--conc-addr"], params=dict(plo=256, phi=700), tparams=dict(plo=256, phi=0x10ff),
             what="class of supplementary code points", bounds="pages plo..phi of 256 code points")]),
    "A03": dict(harness=["h_coded.cc"], groups=["util"], entries=[
        dict(name="varint_roundtrip", what="write/read of one integer", bounds="all 64-bit values"),
        dict(name="varint_parse", reach=["ok", "rejected"], what="reading arbitrary bytes as an integer", bounds="all buffers of up to 12 bytes"),
        dict(name="mixed_roundtrip", params=dict(ops=3), tparams=dict(ops=4), what="sequences of mixed writes", bounds="ops writes"),
        dict(name="string_parse", reach=["ok", "rejected"], params=dict(n=5), tparams=dict(n=8), what="reading arbitrary bytes as a string", bounds="buffers of up to n bytes")]),
    "A04": dict(harness=["h_ser.cc"], groups=["util"], entries=[
        dict(name="ser_roundtrip", what="save/load of a nested object", bounds="lists/strings up to 2 elements, all values"),
        dict(name="ser_truncated", what="loading every proper prefix fails", bounds="as ser_roundtrip"),
        dict(name="ser_corrupt", reach=["ok", "rejected"], params=dict(n=5), tparams=dict(n=7), what="loading arbitrary bytes", bounds="buffers of up to n bytes"),
        dict(name="ser_map", what="save/load of hash maps", bounds="up to 2 entries, all keys")]),
    "A05": dict(harness=["h_csv.cc"], groups=["util"], entries=[
        dict(name="csv_reference", params=dict(n=8), tparams=dict(n=10), ttime=600, what="rows and fields against a reference RFC 4180 parser", bounds="texts of up to n bytes"),
        dict(name="csv_any", params=dict(n=8), tparams=dict(n=10), ttime=600, what="termination and memory safety on arbitrary text", bounds="texts of up to n bytes")]),
    "A06": dict(harness=["h_strings.cc"], groups=["util"], entries=[
        dict(name="sp_compare", params=dict(n=4), tparams=dict(n=6), bounds="strings of up to n bytes"),
        dict(name="sp_hash", params=dict(n=40), tparams=dict(n=70), bounds="strings of up to n bytes"),
        dict(name="sp_slice", bounds="all slices of short strings"),
        dict(name="parse_u64", params=dict(n=5), tparams=dict(n=7), bounds="texts of up to n bytes"),
        dict(name="char_buffer", params=dict(n=4), tparams=dict(n=5), bounds="n interned strings of assorted lengths"),
        dict(name="char_buffer_reset", bounds="interning, reset, interning again")]),
    "A07": dict(harness=["h_containers.cc", "h_queue.cc"], groups=["util"], entries=[
        dict(name="flatmap", params=dict(ops=3), tparams=dict(ops=4), bounds="ops operations"),
        dict(name="flatmap_collide", params=dict(ops=3), tparams=dict(ops=4), bounds="ops operations, all keys in one bucket"),
        dict(name="flatmap_owned", params=dict(n=20), tparams=dict(n=30), bounds="n insertions with removals and clearing in between, 27 patterns"),
        dict(name="flatmap_grow", params=dict(n=40), tparams=dict(n=120), bounds="n insertions, symbolic key base"),
        dict(name="flatset", params=dict(ops=4), tparams=dict(ops=5), bounds="ops operations"),
        dict(name="lru", params=dict(ops=4), tparams=dict(ops=6), bounds="ops operations"),
        dict(name="queue", params=dict(ops=7), tparams=dict(ops=9), bounds="ops operations"),
        dict(name="queue_threads", jobs=8, params=dict(ops=3, others=3), tparams=dict(ops=3, others=4), time=100, ttime=600, what="operations of other threads wherever no thread holds the lock: around locking, while waiting, while an item is moved", bounds="ops operations interleaved with others operations of two further threads which end before the interrupted one goes on, one wake-up without reason, capacity up to 2, empty to full, new or used queues"),
        dict(name="inlined_vector", params=dict(ops=5), tparams=dict(ops=7), bounds="ops operations")]),
    "A08": dict(harness=["h_containers.cc"], groups=["util"], entries=[
        dict(name="pool", params=dict(n=3), tparams=dict(n=4), bounds="n allocations, reset, one more"),
        dict(name="pool_pages", jobs=8, params=dict(n=3), tparams=dict(n=3, rounds=4), ttime=600, bounds="rounds resets with up to n blocks of 4 kinds in between, two users")]),
    "A09": dict(harness=["h_topk.cc"], groups=CORE, entries=[
        dict(name="partition", params=dict(n=6), tparams=dict(n=7), ttime=600, bounds="n candidates"),
        dict(name="beam_candidate", bounds="all scores and indices"),
        dict(name="entry_beam", params=dict(n=5), tparams=dict(n=6), ttime=600, bounds="n pushes, beam of up to 3")]),
    "B01": dict(harness=["h_dic.cc"], groups=CORE, entries=[
        dict(name="trie", jobs=8, opts=BIND, params=dict(keys=2, len=3), tparams=dict(keys=3, len=3), what="look-up of any byte string against the key set, byte by byte and at once",
             bounds="up to keys keys of up to len bytes over 4 byte values, every query of up to len bytes"),
        dict(name="trie_bytes", jobs=8, opts=BIND, what="as above on four larger key sets added in any rotation", bounds="every query of up to 3 bytes")]),
    "B02": dict(harness=["h_dic.cc"], groups=CORE, entries=[
        dict(name="dic_rows", jobs=8, params=dict(rows=3), tparams=dict(rows=4), time=120, ttime=700, what="rows sharing surfaces, features or both are read back", bounds="up to rows rows over 3 surfaces and 2 tags, 3 field orders, with and without an unknown word template"),
        dict(name="dic_columns", jobs=8, what="fields declared in another order than their columns", bounds="3 field orders x 3 column orders x 9 row pairs"),
        dict(name="dic_cells", jobs=8, params=dict(len=3), tparams=dict(len=4), time=120, ttime=300, what="any list, key-value or string list cell", bounds="cells of up to len characters over item, separator and colon characters")]),
    "C01": dict(harness=["h_seeds.cc"], groups=CORE, entries=[
        dict(name="seeds_dic", jobs=8, opts=BIND + CLS, params=dict(n=5), tparams=dict(n=6), time=120, ttime=600, what="dictionary words in the lattice against substring search", bounds="every text of up to n one- or three-byte characters"),
        dict(name="seeds_dic_24", fn="seeds_dic", jobs=8, opts=BIND + CLS, params=dict(n=3, kinds=30), tparams=dict(n=4, kinds=30), time=120, ttime=600, what="the same with characters of every length", bounds="every text of up to n characters of 1 to 4 bytes")]),
    "C02": dict(harness=["h_seeds.cc"], groups=CORE, entries=[
        dict(name="unk_chunking", jobs=8, opts=BIND + CLS, params=dict(n=4), tparams=dict(n=5), time=120, ttime=700, what="runs of one character class", bounds="every text of up to n one- or three-byte characters of any class"),
        dict(name="unk_single", jobs=8, opts=BIND + CLS, params=dict(n=4), tparams=dict(n=5), time=120, ttime=700, what="single characters", bounds="every text of up to n one- or three-byte characters of any class")]),
    "C03": dict(harness=["h_seeds.cc"], groups=CORE, entries=[
        dict(name="unk_onomatopoeia", jobs=8, opts=BIND + CLS, params=dict(n=4, kinds=8), tparams=dict(n=5, kinds=8), time=150, ttime=700, what="repeated patterns", bounds="every text of 3 to n three-byte characters of any class"),
        dict(name="unk_onomatopoeia_long", fn="unk_onomatopoeia", jobs=8, params=dict(n=6), tparams=dict(n=8), time=150, ttime=700, what="longer patterns next to dictionary words", bounds="texts of 3 to n characters over 3 kana"),
        dict(name="unk_onomatopoeia_rest", fn="unk_onomatopoeia", jobs=8, params=dict(n=4, min=4, plain=1, rest=4), tparams=dict(n=5, min=3, plain=1, rest=5), time=150, ttime=700, what="patterns followed by characters of another class", bounds="every four characters over 2 kana followed by every rest characters over 2 kana and a kanji"),
        dict(name="unk_onomatopoeia_plain", fn="unk_onomatopoeia", jobs=8, params=dict(n=8, plain=1), tparams=dict(n=10, plain=1), time=150, ttime=300, what="longer patterns without dictionary words", bounds="texts of 3 to n characters over 2 kana")]),
    "C04": dict(harness=["h_seeds.cc"], groups=CORE, entries=[
        dict(name="unk_numeric", jobs=8, opts=BIND + CLS, params=dict(n=3, kinds=8), tparams=dict(n=4, kinds=8), time=150, ttime=850, what="the longest number from every character", bounds="every text of up to n three-byte characters of any class"),
        dict(name="unk_numeric_comma", fn="unk_numeric", jobs=8, params=dict(n=6, alpha=0), tparams=dict(n=7, alpha=0), time=150, ttime=400, what="digit groups and decimals", bounds="texts of up to n characters over 4"),
        dict(name="unk_numeric_affix", fn="unk_numeric", jobs=8, params=dict(n=5, alpha=1), tparams=dict(n=6, alpha=1), time=150, ttime=400, what="prefixes and units", bounds="texts of up to n characters over 5"),
        dict(name="unk_numeric_infix", fn="unk_numeric", jobs=8, params=dict(n=6, alpha=2), tparams=dict(n=7, alpha=2), time=150, ttime=400, what="fractions and kanji numbers", bounds="texts of up to n characters over 4")]),
    "C05": dict(harness=["h_seeds.cc"], groups=CORE, entries=[
        dict(name="unk_normalize%d" % a, fn="unk_normalize", jobs=8, params=dict(n=5, alpha=a), tparams=dict(n=6, alpha=a), time=150, ttime=400, what="spelling variants of dictionary words", bounds="texts of 1 to n characters over alphabet %d" % a) for a in (0, 1, 2)]),
    "D01": dict(harness=["h_lattice.cc"], groups=CORE, entries=[
        dict(name="connect", jobs=8, reach=["plain", "low", "none"], opts=BIND + CLS, params=dict(n=3), tparams=dict(n=5), time=150, ttime=800,
             what="nodes, places, connections and last resort words against the spans of the text", bounds="every text of up to n one- or three-byte characters of any class")]),
    "D02": dict(harness=["h_lattice.cc"], groups=CORE, entries=[
        dict(name="beam_full%d" % sh, fn="beam_full", jobs=8, params=dict(shape=sh, **x), tparams=dict(shape=sh, lim=100, **x), time=150, ttime=800,
             what="every node's beam against all candidate connections", bounds="lattice shape %d, weights in -3..3 (thorough: -100..100)" % sh)
        for sh, x in ((0, {}), (1, {}), (2, dict(nb=3, nt=2)), (4, dict(nb=2)))] + [
        dict(name="beam_full_wide", fn="beam_full", jobs=8, params=dict(shape=0, beam=3), tparams=dict(shape=0, beam=3, nb=3, nt=2), time=150, ttime=800, what="beams of three", bounds="lattice shape 0"),
        dict(name="beam_full_more", fn="beam_full", jobs=8, params=dict(shape=6, nw=4), tparams=dict(shape=6), time=150, ttime=850, what="more words at a place than the beam holds twice over", bounds="lattice shape 6"),
        dict(name="beam_full_plugin", fn="beam_full", jobs=8, params=dict(plug=1), tparams=dict(plug=1, shape=1, nw=4), time=150, ttime=850, what="with a score plugin", bounds="lattice shape 0, plugin scores in -3..3")]),
    "D03": dict(harness=["h_lattice.cc"], groups=CORE, entries=[
        dict(name="beam_global%s" % nm, fn="beam_global", jobs=8, params=x, tparams=y, time=150, ttime=850, what="global beam, cut and beams of every place against all hypotheses (%s)" % w, bounds="lattice shape %d, weights in -3..3" % x.get("shape", 0))
        for nm, w, x, y in (
            ("", "plain", dict(gbeam=2), dict(gbeam=3)),
            ("_cut", "right cut", dict(gbeam=3, check=2, right=1, nw=4), dict(gbeam=3, check=2, right=1)),
            ("_cut1", "right cut", dict(gbeam=3, check=1, right=2, nw=4), dict(gbeam=3, check=1, right=2)),
            ("_cut2", "right cut", dict(gbeam=2, check=3, right=2, shape=6, nw=4), dict(gbeam=2, check=3, right=2, shape=1)),
            ("_plugin", "plugin", dict(gbeam=2, plug=1), dict(gbeam=3, plug=1)),
            ("_plugin_cut", "plugin and right cut", dict(gbeam=3, check=1, right=1, plug=1, nw=2), dict(gbeam=3, check=1, right=1, plug=1)),
            ("_other", "second scorer", dict(second=1, shape=5, gbeam=3, check=1, right=1), dict(second=1, gbeam=2, nw=4)),
            ("_other2", "second scorer", dict(second=1, shape=5), dict(second=1, shape=4)),
            ("_later", "sizes changed between analyses", dict(shape=5, later=1, gbeam2=3, check2=1, right2=1), dict(shape=0, later=1, gbeam2=3, check2=1, right2=1, nw=4)))]),
    "D04": dict(harness=["h_lattice.cc"], groups=CORE, entries=[
        dict(name="best_path%s" % nm, fn="best_path", jobs=8, params=x, tparams=y, time=150, ttime=850, what="the returned path against every path", bounds="lattice shape %d, weights in -3..3" % x.get("shape", 0))
        for nm, x, y in (
            ("0", dict(), dict(lim=100)),
            ("1", dict(shape=1, nw=4), dict(shape=1)),
            ("4", dict(shape=4, nb=2), dict(shape=4, nb=3, nt=2)),
            ("_global", dict(gbeam=16, nw=4), dict(gbeam=16)),
            ("_global_cut", dict(shape=5, gbeam=16, check=2, right=9), dict(gbeam=16, check=2, right=9)))]),
    "D05": dict(harness=["h_lattice.cc"], groups=CORE, entries=[
        dict(name="reuse", jobs=8, reach=["refused", "again", "after a refused one"], opts=BIND + CLS, params=dict(n=3, k=2), tparams=dict(n=4, k=2), time=150, ttime=850,
             what="the whole lattice of a text after another one against that of a fresh analyzer", bounds="every byte string of up to n bytes, then every text of up to k characters"),
        dict(name="reuse_long", fn="reuse", jobs=8, reach=["refused", "again", "after a refused one"], opts=BIND + CLS, params=dict(n=2, k=1, long=1, gbeam=2, plug=1), tparams=dict(n=2, k=2, long=1, gbeam=2, plug=1), time=150, ttime=850,
             what="after longer or too long texts with a plugin, global beam", bounds="8 to 10 bytes first")]),
    "D06": dict(harness=["h_lattice.cc"], groups=CORE, entries=[
        dict(name="auto_beam", jobs=8, params=dict(nw=1), tparams=dict(nw=2), time=150, ttime=850, what="beam sizes which follow the text length", bounds="base up to 3, step up to 3, maximum up to 4, texts of up to 4 characters, two in a row"),
        dict(name="analyzer_config", jobs=8, reach=["ok", "refused"], what="which settings are accepted", bounds="up to 3 weights, 2 additional scorers, all switches")]),
    "E01": dict(harness=["h_features.cc"], groups=CORE, entries=[
        dict(name="ngram_steps", jobs=8, opts=BIND, params=dict(nu=6, nb=4, nt=4, n0=3), tparams=dict(nu=9, nb=6, nt=6, n0=3, n1=3, n2=3), time=150, ttime=800,
             what="step-wise, per-node and all-at-once n-gram scores of any patterns", bounds="up to nu/nb/nt unigrams, bigrams, trigrams; up to n0 nodes after n1, n2; any 64-bit patterns, 4 weights in -3..3"),
        dict(name="perceptron", jobs=8, params=dict(n=9, nw=2), tparams=dict(n=20, nw=3), what="sums of weights", bounds="up to n features with any 32-bit values, up to 2^nw weights"),
        dict(name="perceptron_load", jobs=8, reach=["loaded", "end"], what="which saved weights are accepted", bounds="up to 2 parts of up to 3 pieces, up to 8 weights, any size exponent")]),
    "E02": dict(harness=["h_codegen.cc"], groups=CORE + ["rnn"], entries=[
        dict(name="static_ngrams", jobs=8, opts=BIND, params=dict(n0=2), tparams=dict(n0=4, n1=4, n2=4), time=150, ttime=600,
             what="n-gram features of the generated code against the dynamic ones", bounds="11 model specifications, any 64-bit patterns"),
        dict(name="static_analysis", jobs=8, opts=BIND, params=dict(texts=2), tparams=dict(texts=5), time=150, ttime=600,
             what="whole analyses with generated code against those without", bounds="11 model specifications, 5 texts, 4 weights in -3..3"),
        dict(name="static_analysis_global", fn="static_analysis", jobs=8, opts=BIND, params=dict(texts=1, gbeam=3), tparams=dict(texts=5, gbeam=3), time=150, ttime=800,
             what="the same with a global beam", bounds="as above"),
        dict(name="static_analysis_cut", fn="static_analysis", jobs=8, opts=BIND, params=dict(texts=1, gbeam=3, check=2, right=2), tparams=dict(texts=4, gbeam=3, check=2, right=2), time=150, ttime=800,
             what="the same with a right check", bounds="as above")]),
    "E03": dict(harness=["h_features.cc"], groups=CORE, entries=[
        dict(name="feature_values%d" % g, fn="feature_values", jobs=8, reach=["unknown", "word", "end"], opts=BIND + CLS, params=dict(group=g, n=2, ohi=1 if g == 1 else 3), tparams=dict(group=g, n=3, ohi=1 if g == 1 else 3), time=200, ttime=850,
             what="the value of every feature and pattern of every word against the specification (%s)" % w, bounds="every text of up to n characters, several orders of the fields")
        for g, w in ((0, "fields and matches"), (1, "context"), (2, "lengths"))]),
    "F01": dict(harness=["h_format.cc"], groups=FMT, entries=[
        dict(name="fmt_juman%d" % k, fn="fmt_juman", jobs=8, opts=BIND + CLS, params=dict(kind=k, n=2, **x), tparams=dict(kind=k, n=3, **x), time=150, ttime=850, what="lines of the default output (%s)" % w, bounds="texts of up to n characters over 6, any comment of up to 1 byte, 2 weights in -1..1")
        for k, w, x in ((0, "aliases", {}), (1, "variants", {}))] + [
        dict(name="fmt_juman_any", fn="fmt_juman", jobs=8, opts=BIND + CLS, params=dict(any=1, nw=1, n=2), tparams=dict(any=1, nw=1, n=3), time=150, ttime=850, what="lines of unknown words", bounds="texts of up to n characters, any one-byte characters"),
        dict(name="fmt_juman_again", fn="fmt_juman", jobs=8, opts=BIND + CLS, params=dict(rounds=2, n0=1, n=2), tparams=dict(rounds=2, n0=2, n=2), time=150, ttime=850, what="a second text with the same formatter", bounds="n0 and n characters"),
        dict(name="fmt_ids", jobs=8, opts=BIND, params=dict(step=40), tparams=dict(step=7), time=150, ttime=600, what="ids of all pairs of parts of speech in dictionaries with parts of the grammar", bounds="the whole grammar table, steps of `step` conjugations")]),
    "F02": dict(harness=["h_format.cc"], groups=FMT, entries=[
        dict(name="fmt_lattice%s" % nm, fn="fmt_lattice", jobs=8, opts=BIND + CLS + NUM, params=x, tparams=y, time=150, ttime=850, what="lines of the lattice output (%s)" % w, bounds="texts of up to n characters over 6, weights in -1..1, N up to beam + 1")
        for nm, w, x, y in (
            ("0", "aliases", dict(), dict(n=3)),
            ("1", "variants", dict(kind=1), dict(kind=1, beam=3)),
            ("_any", "any characters", dict(any=1, nw=1), dict(any=1, nw=1, n=3)),
            ("_other", "additional scorer", dict(other=1, nw=1), dict(other=1, nw=2)),
            ("_many", "more analyses of three words", dict(kind=2, beam=3, n=3, lo=3, nw=2), dict(kind=2, beam=4, n=3, nw=3)),
            ("_again", "second text", dict(rounds=2, n0=1, n=1), dict(rounds=2, n0=1, n=2)))]),
    "F03": dict(harness=["h_format.cc"], groups=FMT, entries=[
        dict(name="fmt_%s%s" % (f, nm), fn="fmt_" + f, jobs=8, opts=BIND + CLS, params=x, tparams=y, time=150, ttime=850, what="%s output (%s)" % (f, w), bounds="texts of up to n characters, any comment or separator of up to 1 or 2 bytes")
        for f in ("morph", "segment") for nm, w, x, y in (
            ("", "words", dict(), dict(n=3)),
            ("_variants", "variants", dict(kind=1), dict(kind=1, n=3)),
            ("_any", "any characters", dict(any=1, nw=1), dict(any=1, nw=1, n=3)),
            ("_again", "second text", dict(rounds=2, n0=1), dict(rounds=2, n0=2)))]),
    "F04": dict(harness=["h_format.cc"], groups=FMT, entries=[
        dict(name="fmt_subset", jobs=8, opts=BIND, params=dict(n=2), tparams=dict(n=3), time=150, ttime=850, what="lines of the dictionary words of a text", bounds="texts of up to n characters over 4, 10 special texts in 5 kinds of fields"),
        dict(name="fmt_quoted", jobs=8, params=dict(n=6), tparams=dict(n=8), time=150, ttime=600, what="quoting", bounds="any text of up to n bytes")]),
    "G01": dict(harness=["h_pex.cc"], groups=CORE + ["input"], entries=[
        dict(name="pex_read", jobs=8, reach=["blank", "end"], opts=BIND + CLS, params=dict(examples=1, lines=2, chars=2), tparams=dict(examples=1, lines=3, chars=2), time=150, ttime=800, what="everything which is read from the lines of an example", bounds="up to lines lines of up to chars characters of 1 or 3 bytes, 7 sets of tags"),
        dict(name="pex_read_two", fn="pex_read", jobs=8, reach=["blank", "end"], opts=BIND + CLS, params=dict(examples=2, lines=1, chars=1), tparams=dict(examples=2, lines=2, chars=1), time=150, ttime=800, what="the same for two examples in a row", bounds="as above"),
        dict(name="pex_match", jobs=8, reach=["match", "tag", "place"], opts=BIND + CLS, params=dict(lines=2, chars=2), tparams=dict(lines=3, chars=2), time=150, ttime=800, what="every word and place of the lattice against the annotation", bounds="up to lines lines of up to chars characters, 7 sets of tags")]),
    "G02": dict(harness=["h_pex.cc"], groups=CORE + ["input"], entries=[
        dict(name="pex_stream", jobs=8, reach=["agrees", "contradicts"], opts=BIND + CLS, params=dict(lines=2, chars=2, beam=2), tparams=dict(lines=2, chars=2, beam=2, nw=2), time=150, ttime=850, what="penalty of the best analysis against that of all analyses", bounds="up to lines lines of up to chars characters, 7 sets of tags, nw weights in -3..3"),
        dict(name="pex_stream_two", fn="pex_stream", jobs=8, reach=["agrees", "contradicts"], opts=BIND + CLS, params=dict(examples=2, lines=1, chars=1), tparams=dict(examples=2, lines=1, chars=2), time=150, ttime=850, what="the same for two examples in a row", bounds="as above")]),
    "G03": dict(harness=["h_pex.cc"], groups=CORE + ["input"], entries=[
        dict(name="plain_stream", jobs=8, reach=["long", "read"], opts=BIND + CLS, params=dict(lines=2, chars=3), tparams=dict(lines=3, chars=3), time=150, ttime=850, what="texts and comments of all lines, limits", bounds="up to lines lines of up to chars characters of 1 or 3 bytes, limits up to 9 bytes")]),
    "G04": dict(harness=["h_train.cc"], groups=CORE + ["input", "training"], entries=[
        dict(name="full_read", jobs=8, reach=["csv", "double", "unknown"], opts=CLS, params=dict(examples=2, words=2), tparams=dict(examples=2, words=3), time=200, ttime=850, what="words, fields, places, texts and comments of examples in both formats", bounds="up to examples examples of up to words words of 6 kinds"),
        dict(name="full_short", jobs=8, reach=["short", "whole"], opts=CLS, params=dict(words=2), tparams=dict(words=3), time=150, ttime=600, what="words with too few fields in both formats", bounds="up to words words, any number of missing fields")]),
    "G05": dict(harness=["h_train.cc"], groups=CORE + ["input", "training"], entries=[
        dict(name="gold_path%s" % nm, fn="gold_path", jobs=8, reach=["there", "added"], opts=CLS, params=dict(words=3, **x), tparams=dict(words=4, **x), time=150, ttime=850, what="nodes of the annotated words%s" % w, bounds="up to words words of 10 kinds")
        for nm, w, x in (("", "", {}), ("_ignored", ", a field is ignored", dict(ignored=1)))]),
    "G06": dict(harness=["h_train.cc"], groups=CORE + ["input", "training"], entries=[
        dict(name="train_loss%s" % nm, fn="train_loss", jobs=8, reach=["same", "differ", "update"], opts=CLS, params=x, tparams=y, time=150, ttime=850, what="loss and update against their definitions (%s)" % w, bounds="up to words words of 10 kinds, nw weights in -lim..lim, beam of 1 or 2, all modes")
        for nm, w, x, y in (
            ("1", "one word", dict(words=1, nw=3), dict(words=1, nw=4, lim=3)),
            ("2", "two words", dict(words=2, fixed=1, nw=2, lim=1, beam=1), dict(words=2, fixed=1, nw=2, lim=2, beam=2)),
            ("3", "three words", dict(words=3, fixed=1, nw=1, lim=1), dict(words=4, fixed=1, nw=1, lim=1)),
            ("_ignored", "a field is ignored", dict(words=2, nw=1, ignored=1), dict(words=2, nw=2, ignored=1)))]),
    "G07": dict(harness=["h_ptrain.cc"], groups=CORE + ["input", "training"], entries=[
        dict(name="partial_update%s" % nm, fn="partial_update", jobs=8, reach=r, opts=CLS, params=x, tparams=y, time=150, ttime=850, what="loss and update of an example (%s)" % w, bounds="up to lines lines of up to chars characters, 7 sets of tags, nw weights in -lim..lim")
        for nm, w, r, x, y in (
            ("", "two lines", ["agrees", "contradicts", "tag", "boundary"], dict(lines=2, chars=2, nw=1), dict(lines=2, chars=2, nw=2)),
            ("_long", "one line", ["agrees", "contradicts", "across", "tag"], dict(lines=1, chars=3, nw=3), dict(lines=1, chars=4, nw=3, beam=3)),
            ("_again", "twice", ["agrees", "contradicts"], dict(lines=2, chars=2, nw=1, rounds=2), dict(lines=2, chars=2, nw=2, rounds=2)))]),
    "G08": dict(harness=["h_ptrain.cc"], groups=CORE + ["input", "training"], entries=[
        dict(name="epochs%s" % nm, fn="epochs", jobs=8, reach=["first", "later"], opts=CLS, params=x, tparams=y, time=150, ttime=850, what="examples, results, weights and losses of whole passes (%s)" % w, bounds="up to threads threads, batches of up to batch, full and partial examples, epochs passes")
        for nm, w, x, y in (
            ("", "both kinds of examples", dict(), dict(full=4, partial=2)),
            ("_threads", "three threads", dict(threads=3, full=3, batch=3, partial=0), dict(threads=3, full=3, batch=3, partial=1)),
            ("_beams", "global beam", dict(beams=1, threads=1, epochs=3), dict(beams=1, threads=2, epochs=3)))]),
    "G09": dict(harness=["h_ptrain.cc"], groups=CORE + ["input", "training"], entries=[
        dict(name="scw_update", jobs=8, reach=["change"], opts=CLS, params=dict(rounds=2), tparams=dict(rounds=3), time=150, ttime=600, what="weights before and after updates", bounds="rounds updates of up to two of three features"),
        dict(name="scw_zero", jobs=8, reach=["small", "large", "between"], opts=CLS, time=150, ttime=600, what="weights after the first pass", bounds="any common value of the weights")]),
    "H01": dict(harness=["h_model.cc"], groups=FMT, entries=[
        dict(name="map_read", jobs=8, reach=["mapped", "refused"], time=150, ttime=300, what="pieces of files for reading", bounds="7 file sizes, offsets and sizes around the page size"),
        dict(name="map_write", jobs=8, params=dict(pieces=2), tparams=dict(pieces=3), time=150, ttime=600, what="pieces of files for writing", bounds="pieces pieces of 12 kinds"),
        dict(name="map_whole", jobs=8, params=dict(steps=4), tparams=dict(steps=6), time=150, ttime=600, what="opening, closing and failing to open whole files", bounds="steps operations")]),
    "H02": dict(harness=["h_model.cc"], groups=FMT, entries=[
        dict(name="model_round", jobs=8, reach=["loaded"], params=dict(parts=2, pieces=1), tparams=dict(parts=2, pieces=2), time=150, ttime=850, what="saving and loading", bounds="up to parts parts with up to pieces pieces of 3 sizes"),
        dict(name="model_header", jobs=8, reach=["loaded", "refused"], params={"from": 4040, "to": 4100}, tparams={"from": 3900, "to": 4150}, time=150, ttime=600, what="descriptions around the largest possible size", bounds="comments of from..to bytes"),
        dict(name="model_fails", jobs=8, reach=["saved", "failed"], time=150, ttime=300, what="every failing call of the system", bounds="two pieces"),
        dict(name="model_broken", jobs=8, reach=["cut", "loaded", "refused"], params=dict(span=30, bytes=1, any=6, rest=5), tparams=dict(span=60, bytes=1, any=7, rest=5), time=200, ttime=850, what="cut files, changed and arbitrary descriptions", bounds="bytes changed bytes in the first span bytes, descriptions of any bytes")]),
    "H03": dict(harness=["h_restore.cc"], groups=FMT, entries=[
        dict(name="env_round", jobs=8, reach=["same", "no analysis", "untrained"], opts=CLS, params=dict(rounds=1), tparams=dict(rounds=2), time=150, ttime=850, what="analyses of a loaded model against those of the one in memory", bounds="12 specifications, 6 texts, beams of 1 and 2, rounds texts"),
        dict(name="env_round_gbeam", fn="env_round", jobs=8, reach=["same", "no analysis", "untrained"], opts=CLS, params=dict(rounds=1, gbeam=1), tparams=dict(rounds=2, gbeam=1), time=150, ttime=850, what="the same with a global beam", bounds="as above"),
        dict(name="dic_restore", jobs=8, reach=["restored", "refused"], opts=CLS, time=150, ttime=300, what="incomplete dictionaries", bounds="12 specifications, every cut"),
        dict(name="dic_corrupt", jobs=8, reach=["restored", "refused"], opts=CLS, params=dict(spec=1), tparams=dict(spec=1), time=200, ttime=850, what="every value of every byte of the description", bounds="one specification")] + [
        dict(name="dic_corrupt%d" % k, fn="dic_corrupt", thorough_only=True, jobs=8, reach=["restored", "refused"], opts=CLS, params=dict(spec=k), time=200, ttime=300, what="the same for another specification", bounds="specification %d" % k) for k in (4, 8)] + [
        dict(name="dic_many", jobs=8, reach=["read", "refused"], opts=CLS, params=dict(features=18, data=18, span=3), tparams={"features": 18, "data": 18, "from": 1, "span": 20}, time=150, ttime=600, what="dictionaries with many columns", bounds="from 15 to 18 columns, thorough: from 1")]),
    "I01": dict(harness=["h_rnn.cc"], groups=FMT, entries=[
        dict(name="rnn_scores%s" % nm, fn="rnn_scores", jobs=8, reach=["end", "unknown"], opts=CLS, params=x, tparams=y, time=150, ttime=850, what="scores of all words and analyses and their order (%s)" % w, bounds="texts of up to n of 3 characters, vocabularies of up to 5 of 8 words, orders up to orders, any feature weights and any of nw perceptron weights in -lim..lim")
        for nm, w, x, y in (
            ("", "any feature weights", dict(whole=1, weights=0, n=2, any=2, nw=2), dict(whole=1, weights=0, n=3, any=2, nw=2)),
            ("_long", "longer texts", dict(whole=1, weights=0, n=3, any=2, nw=1), dict(whole=1, weights=0, n=4, any=2, nw=1)),
            ("_values", "contexts with any numbers", dict(n=3), dict(n=4, words=1)),
            ("_fields", "two fields", dict(n=3, two=1), dict(n=4, two=1)),
            ("_orders", "four orders", dict(n=3, orders=4, words=1), dict(n=4, orders=4, words=1, weights=1)),
            ("_again", "second text", dict(n=2, rounds=2), dict(n=2, rounds=3, weights=0)),
            ("_narrow", "narrow beams", dict(n=3, gbeam=2, beam=2), dict(n=4, gbeam=3, beam=2)))]),
    "I02": dict(harness=["h_rnn.cc"], groups=FMT, entries=[
        dict(name="rnn_saved", jobs=8, reach=["end", "scored", "disabled", "unknown"], opts=CLS, params=dict(whole=1, nw=0, weights=0, n=1), tparams=dict(whole=1, nw=0, weights=0, n=2), time=150, ttime=850, what="scores of saved language models with all combinations of settings", bounds="texts of up to n characters, bias, constant and penalty in -5..5"),
        dict(name="rnn_saved_large", fn="rnn_saved", jobs=8, reach=["end", "scored", "disabled", "unknown"], opts=CLS, params=dict(weights=0, n=1, layer=3, layers=5, orders=1, two=0), tparams=dict(weights=0, n=1, layer=3, layers=5, two=1), time=150, ttime=850, what="the same with large contexts", bounds="contexts of 3 to 5"),
        dict(name="rnn_files", jobs=8, reach=["read", "refused"], opts=CLS, params=dict(weights=0), tparams=dict(weights=0, layers=4), time=150, ttime=600, what="complete and broken files", bounds="up to 140 missing bytes, 15 kinds of unsuitable files"),
        dict(name="rnn_parts", jobs=8, reach=["loaded", "refused"], opts=CLS, params=dict(weights=0), tparams=dict(weights=0, layers=4), time=150, ttime=600, what="complete and incomplete saved models", bounds="every missing piece, up to 60 missing bytes of the description, up to 5 of the others")]),
}
