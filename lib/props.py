# The property texts.  gen.py writes properties.jsonl and MANIFEST.json from this file and registry.py.
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, observe_at=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=mechanism)))


P("A01", "UTF-8 text is decoded exactly and safely",
  "Well-formed UTF-8 of one to four bytes per character decodes to exactly its code points, each with the byte range it came from; the ranges are consecutive and cover the whole text. "
  "Truncated sequences, stray continuation bytes and bytes that cannot start a character are rejected with an error instead of being accepted or read past the end of the text.",
  ["inputs"], "every byte string up to the bound, valid or not",
  "The tests decode a few Japanese literals; they cannot cover every byte pattern, in particular every truncation at the end of a buffer.",
  ["src/util/characters.cc", "src/util/characters.h"], ["preprocessRawData", "numCodepoints", "toCodepoint"])
P("A02", "Every code point gets its documented character class",
  "Each code point gets the character class of its script or symbol group: kanji, katakana, hiragana, letters, digits (ASCII and full width), kanji and full width numbers, punctuation, brackets, and the long vowel mark keep their classes everywhere in their ranges. "
  "Characters are compatible with a set of classes exactly when they share at least one class with it.",
  ["inputs"], "every Unicode code point in the planes checked and every pair of class masks",
  "Tests classify some tens of characters; a wrong range border affects exactly the characters nobody listed.",
  ["src/util/characters.cc"], ["getCodeType", "IsCompatibleCharClass"])
P("A03", "Integers and strings survive the compact binary encoding",
  "Any sequence of unsigned integers, fixed-width integers and strings written with the variable-length encoding reads back as the same sequence, consuming exactly the bytes written. "
  "Reading arbitrary bytes either yields a value or fails cleanly, never reads past the end and never returns a string outside the buffer.",
  ["inputs"], "every 64-bit value, every string and every byte buffer up to the bound",
  "Tests round-trip a few numbers; values around each 7-bit boundary and truncated or over-long encodings are not sampled.",
  ["src/util/coded_io.h", "src/util/coded_io.cc"], ["CodedBuffer", "CodedBufferParser"])
P("A04", "Saved objects load back equal, and damaged data is rejected",
  "Objects made of numbers, strings, lists, maps and nested objects load back equal to what was saved. Loading a truncated buffer fails instead of returning a partly filled object as success. "
  "Loading arbitrary bytes never reads outside the buffer nor allocates for more elements than the data could hold.",
  ["inputs"], "every object of the bounded shape, every truncation point and every short byte buffer",
  "Tests save and load one or two objects; no truncated or corrupt buffer is tried.",
  ["src/util/serialization.h", "src/util/serialization_flatmap.h"], ["Saver", "Loader", "SerializeImpl"])
P("A05", "CSV dictionaries are split into exactly the fields RFC 4180 gives",
  "Reading CSV text yields every row and every field in order, with quotes removed and doubled quotes undone, for any mix of empty fields, quoted separators and line ends, with or without a final line end. "
  "Reading always ends, and rejects or ends at malformed rows without reading outside the text.",
  ["inputs"], "every text up to the bound over the characters CSV treats specially and ordinary ones",
  "Tests read a dozen hand-written inputs; combinations such as an empty last field before the end of the file are not among them.",
  ["src/util/csv_reader.cc", "src/util/csv_reader.h"], ["CsvReader::nextLine", "CsvReader::field"])
P("A06", "Byte string views compare, hash, slice and parse by content",
  "Comparing two byte strings gives the same order and equality as comparing all their bytes, equal strings have equal hashes, and slicing selects exactly the requested bytes. "
  "Decimal parsing returns the value of the digits and rejects any other text. Interned copies stay equal to their originals and unmoved until the buffer is reset.",
  ["inputs", "histories"], "every byte content up to the bound, including zero bytes, and every sequence of interning requests up to the bound",
  "Tests compare short printable literals and never fill an interning page exactly.",
  ["src/util/string_piece.h", "src/util/string_piece.cc", "src/util/char_buffer.h", "src/util/parse_utils.h"],
  ["StringPiece::compareTo", "parseU64", "CharBuffer::import"])
P("A07", "Hash tables, caches and queues behave like their ideal counterparts",
  "After any sequence of insertions, updates, removals and lookups, hash maps and sets contain exactly the keys added and not removed with their latest values, whatever the hash values and however often the table grows. "
  "The least-recently-used set evicts only its oldest entry, bounded queues deliver items in order exactly once and refuse when full, and vectors with inline storage hold the pushed values in order.",
  ["histories"], "every sequence of operations up to the bound over keys that collide or not",
  "Tests run one fixed sequence per container; interactions such as removing a key in the middle of a collision chain are not covered.",
  ["src/util/flatmap.h", "src/util/flatset.h", "src/util/lru_set.h", "src/util/bounded_queue.h", "src/util/inlined_vector.h"],
  ["FlatMap", "FlatSet", "LruSet", "bounded_queue", "InlinedVector"])
P("A08", "Arena allocations never overlap and are aligned",
  "Blocks handed out by the page allocator lie inside its pages, respect the requested alignment and never overlap until the allocator is reset; after a reset the same memory is reused safely.",
  ["histories"], "every sequence of allocation sizes and alignments up to the bound, including ones larger than a page",
  "Tests allocate a few objects; exact page fits, oversized blocks and reset between them are not combined.",
  ["src/util/memory.cc", "src/util/memory.hpp"], ["Manager::newPage", "PoolAlloc::allocate_memory"])
P("A09", "Beam selection keeps the best candidates and loses none",
  "Selecting the best k of n candidates returns exactly k candidates none of which is worse than a dropped one, as a permutation of the input. Packed candidates keep their score order and identify the same left neighbour and beam slot. "
  "A beam of limited size holds the best pushed items, each once, best first.",
  ["inputs"], "every sequence of scores up to the bound, with ties, and every k",
  "Tests use one or two fixed score lists; ties and k at the limits are not covered.",
  ["src/util/stl_util.h", "src/core/analysis/score_processor.h", "src/core/analysis/lattice_types.h", "src/core/analysis/lattice_types.cc"],
  ["util::partition", "BeamCandidate", "EntryBeam"])

P("B01", "The dictionary index finds exactly its keys",
  "Looking up a byte string in the built index reports a value exactly when the string is one of the keys, and then that key's value; it reports a continuing prefix exactly when the string is a proper prefix of some key and no key itself, and nothing for any other string. "
  "The result does not depend on how the look-up is split into steps nor on the order in which keys were added.",
  ["inputs"], "every set of distinct keys up to the bound and every byte string looked up in it",
  "Tests look up a few words; a wrong node in the packed double array shows only for particular combinations of keys and queries.",
  ["src/core/dic/darts_trie.h", "src/core/dic/darts_trie.cc", "src/core/dic/darts.h"], ["DoubleArrayBuilder::build", "DoubleArrayTraversal::step"])
P("B02", "Every dictionary row can be read back with all its fields",
  "After importing a CSV dictionary, looking up a surface yields exactly the rows with that surface, each with the strings, lists and key-value pairs of its cells, whatever order the fields are declared in and whichever columns they use. "
  "Rows with the same surface and the same feature fields share one entry and all their other values are listed; an empty-value marker reads back as the empty string; lists are split at their separator; the rows used as unknown word templates are not found as words.",
  ["inputs"], "every small dictionary up to the bound: surfaces, tags and cell contents, field and column orders",
  "Tests import one or two fixed dictionaries with columns in declaration order.",
  ["src/core/dic/dic_builder.cc", "src/core/dic/dic_entries.h", "src/core/dic/field_import.cc", "src/core/dic/field_import.h", "src/core/dic/dictionary.cc", "src/core/dic/field_reader.h"],
  ["DictionaryBuilder::importCsv", "DicEntryBuffer::fillFromStorage", "FieldImporter"])
P("C01", "Exactly the dictionary words occurring in the text become candidates",
  "For every text, the lattice contains a node for a dictionary row at a span of characters exactly when the row's surface equals that span, once for each row.",
  ["inputs"], "every text up to the bound",
  "Tests analyze a handful of texts; overlapping and nested matches at both text ends are not enumerated.",
  ["src/core/analysis/dictionary_node_creator.cc", "src/core/analysis/dictionary_node_creator.h", "src/core/analysis/analyzer_impl.cc"], ["DictionaryNodeCreator::spawnNodes"])
P("C02", "Class based unknown words cover exactly the right spans",
  "For a chunking rule every non-empty part of a run of characters of its class, and for a single character rule every character of its class, becomes an unknown word, except when a dictionary word with the same surface exists. "
  "The word's surface is the covered text, its other fields come from its template row, and its prefix feature is 0 exactly when some dictionary word starts with the surface and 1 otherwise.",
  ["inputs"], "every text up to the bound and every assignment of character classes to its characters",
  "Tests check that some expected words are present in a few texts, not that nothing else is and never all spans.",
  ["src/core/analysis/unk_nodes_creator.cc", "src/core/analysis/unk_nodes_creator.h", "src/core/analysis/unk_nodes.cc"],
  ["ChunkingUnkMaker::spawnNodes", "SingleUnkMaker::spawnNodes", "UnkNodesContext::makePtr"])
P("C03", "Onomatopoeia are found wherever a kana pattern repeats",
  "Wherever a pattern of two to four characters is immediately repeated, its first character belongs to the rule's class and every character of the pattern shares a class with the first, an onomatopoeia node covers both halves, unless a dictionary word has that surface; no other onomatopoeia nodes exist. Its prefix feature is 0 exactly when some dictionary word starts with the surface.",
  ["inputs"], "every text up to the bound, including texts ending with the pattern",
  "Tests contain few patterns, none of four characters at the end of the text.",
  ["src/core/analysis/onomatopoeia_creator.cc"], ["OnomatopoeiaUnkMaker::spawnNodes", "OnomatopoeiaUnkMaker::FindOnomatopoeia"])
P("C04", "Numbers are recognised with their longest extent",
  "From every character at which a number can start exactly one number node is made and it covers the longest number: digits; 数, 何 or 幾 before a digit or before a unit; ぶんの or 分の between digits; キロ, メガ, ギガ, テラ or ミリ after a numeric or counting character; a comma followed by exactly three figures; and a period between two digits. "
  "A number starts neither with an infix, comma, period nor unit. A dictionary row with the same surface and the same feature fields as the number suppresses it.",
  ["inputs"], "every text up to the bound and every assignment of character classes to its characters",
  "Tests list some numbers; truncated groups, periods and infixes at the end of the text were not among them.",
  ["src/core/analysis/numeric_creator.cc"], ["NumericUnkMaker::FindLongestNumber", "NumericUnkMaker::checkComma", "NumericUnkMaker::checkPeriod", "NumericUnkMaker::checkSuffix"])
P("C05", "Spelling variants of dictionary words are found completely",
  "A text span that is no plain match yields a node for every dictionary row whose surface arises from it by reading a long vowel mark after a kana as the vowel it prolongs, reading a small vowel kana as the large one, or dropping a prolonging mark after a kanji or kana, a small っ which follows a dropped character, ends the text, precedes a symbol, letter or another っ or stands between kana of its own kind, or a small vowel which repeats the vowel before it; "
  "the node covers the whole span, and its flags record the kinds of changes of one such derivation. Each row appears once per span and no other variants exist.",
  ["inputs"], "every text up to the bound over alphabets which trigger each rule",
  "Tests check a few presence conditions on sample words; interactions of consecutive changes are not covered.",
  ["src/core/analysis/charlattice.cc", "src/core/analysis/charlattice.h", "src/core/analysis/normalized_node_creator.cc"], ["CharLattice::Parse", "CharLattceTraversal::lookupCandidatesFrom"])
P("D01", "The lattice connects exactly the words which can follow each other",
  "Analysis is possible exactly when dictionary and unknown words can cover the text from begin to end, and then every candidate word is a node at the place where it starts, is listed once among the words ending at the place where it ends, and the sentence start and end enclose them. "
  "Unknown words of low priority are made exactly when the other words cannot cover the text. The returned path is a sequence of adjacent words from the start to the end of the text.",
  ["inputs"], "every text up to the bound over characters of any class",
  "Tests build a few lattices; texts with dead ends, unreachable words or without any cover are hardly among them.",
  ["src/core/analysis/lattice_builder.cc", "src/core/analysis/lattice_types.cc", "src/core/analysis/analyzer_impl.cc", "src/core/analysis/analysis_result.cc"],
  ["LatticeBuilder::checkConnectability", "LatticeBuilder::fillEnds", "AnalyzerImpl::prepareNodeSeeds"])
P("D02", "A node's beam holds its best scored ways",
  "Without a global beam every node keeps, best first and each once, the best ways to reach it from the kept ways of all words ending there, as many as the beam holds; a way's score is that of the way it extends plus the weights of all unigram, bigram and trigram features of the node and its two predecessors plus the change made by the score plugin, if there is one. Every kept way refers to the way it extends.",
  ["inputs"], "every assignment of feature weights and plugin scores on a family of lattices, with all ties",
  "Tests check the best path for one weight vector; wrong beams show only for particular score orders.",
  ["src/core/analysis/score_processor.cc", "src/core/analysis/score_processor.h", "src/core/analysis/analyzer_impl.cc", "src/core/impl/feature_impl_ngram_partial.h", "src/core/analysis/perceptron.h"],
  ["AnalyzerImpl::computeScoresFull", "ScoreProcessor::makeBeams", "ScoreProcessor::applyPluginToFullBeam"])
P("D03", "The global beam and the right cut keep what they promise",
  "With a global beam the best ways ending at a place, as many as it holds and best first, are extended to the words starting there; with a right check size only the words which score best after the first ways, as many as the right beam holds, get all ways and the others only the first ones. "
  "Kept ways have the exact score including the score plugin; an additional scorer's scores are added with the scorer's weights to the totals and the ways at the sentence end are ranked by these totals. Sizes can be changed between analyses.",
  ["inputs"], "every assignment of feature weights, plugin scores and additional scores on a family of lattices, with all ties",
  "Tests run single models; cut offs act only for particular score orders and sizes.",
  ["src/core/analysis/score_processor.cc", "src/core/analysis/analyzer_impl.cc", "src/core/analysis/lattice_types.cc", "src/core/impl/feature_impl_ngram_partial.h"],
  ["ScoreProcessor::makeGlobalBeam", "ScoreProcessor::computeGbeamScores", "ScoreProcessor::adjustBeamScores", "ScoreProcessor::remakeEosBeam"])
P("D04", "With a beam that is wide enough the best path is returned",
  "When the beams are at least as wide as the number of ways, the path returned has the highest sum of feature weights of all ways through the lattice, reports the exact score at every word, and consists of one word at each place which follow each other and cover the text.",
  ["inputs"], "every assignment of feature weights on a family of lattices, with all ties",
  "Tests compare with the expected result of a few sentences.",
  ["src/core/analysis/score_processor.cc", "src/core/analysis/analysis_result.h", "src/core/analysis/analysis_result.cc", "src/core/analysis/analyzer_impl.cc"],
  ["AnalysisPath::fillIn", "ScoreProcessor::makeBeams", "ScoreProcessor::makeT0Beam"])
P("D05", "A result does not depend on earlier texts",
  "Analyzing a text with an analyzer that was used before, also for texts it refused because they are too long, not UTF-8 or cannot be covered, accepts the same texts and builds the same lattice with the same scores as a new analyzer, and a plugin given for one text does not act on the next.",
  ["inputs", "histories"], "every pair of an earlier byte string and a later text up to the bounds",
  "Tests mostly use a fresh analyzer for one text.",
  ["src/core/analysis/analyzer.cc", "src/core/analysis/analyzer_impl.cc", "src/core/analysis/analyzer_impl.h", "src/core/analysis/analysis_input.cc", "src/core/analysis/extra_nodes.cc", "src/util/memory.hpp"],
  ["AnalyzerImpl::resetForInput", "AnalyzerImpl::reset", "AnalysisInput::reset"])
P("D06", "Beam sizes follow the configuration and wrong settings are refused",
  "With automatic beams the local beam and, if used, the global one have the size base + length / step limited by the maximum for every text, where the configured maximum does not exceed the global beam; without a step the configured sizes hold. "
  "An analyzer is created only with a feature scorer, a non-zero beam, as many weights and scorer slots as scorers, a global beam when there are additional scorers and a non-zero right beam when there is a right check.",
  ["inputs", "configurations"], "every small configuration and text length up to the bound",
  "Tests use a couple of configurations.",
  ["src/core/analysis/analyzer_impl.cc", "src/core/analysis/analyzer.cc"], ["AnalyzerImpl::autoBeamSizes", "AnalyzerImpl::initScorers", "Analyzer::initialize"])
P("E01", "N-gram scores are the same step by step and all at once",
  "The score that the n-gram features give to a word after one and two other words is the sum of the weights of all unigram, bigram and trigram features, where a feature picks its weight by the patterns of the nodes it refers to. It is the same when it is computed for many words after one, for one word after many, incrementally or for all features together, for any numbers of features of each order and any numbers of words. "
  "The linear model sums the weights selected by the low bits of the feature values for any number of features, and it loads exactly those saved weights whose number is the one in their header.",
  ["inputs"], "every 64-bit value of every pattern, every weight assignment, all counts of features and nodes up to the bounds",
  "Tests compare a few hand-made features; the unrolled loops behave differently for each remainder of the counts.",
  ["src/core/impl/feature_impl_ngram_partial.h", "src/core/impl/feature_impl_ngram_partial.cc", "src/core/impl/feature_impl_combine.h", "src/core/impl/feature_impl_combine.cc", "src/core/analysis/perceptron.h", "src/core/analysis/perceptron.cc"],
  ["PartialNgramFeatureApplyImpl", "NgramDynamicFeatureApply", "computeUnrolled4Perceptron", "HashedFeaturePerceptron::load"])
P("E02", "Generated static code behaves as the dynamic implementation",
  "The C++ code generated from a model specification compiles for every specification, is used by the model it was generated from, and gives every word the same patterns, scores and connections as the dynamic implementation, whatever n-gram orders and feature kinds the specification has.",
  ["inputs", "configurations"], "a family of specifications; every pattern value for the n-gram features; every weight assignment for whole analyses of a set of texts",
  "Tests generate code for one or two specifications and compare a few values.",
  ["src/core/codegen/feature_codegen.cc", "src/core/codegen/ngram_feature_codegen.cc", "src/core/codegen/partial_ngram_feature_codegen.cc", "src/core/codegen/pattern_feature_codegen.cc", "src/core/impl/feature_impl_ngram_partial_kernels.h"],
  ["StaticFeatureCodegen", "PartialNgramPrinter", "InNodeComputationsCodegen", "applyBiTriFullKernel"])
P("E03", "Features have the values their definitions give",
  "For every word of the lattice each feature has the value its definition gives: the field of the dictionary entry, the code point or character class at its offset from the word, the length of a field in characters or bytes, whether a field, list or key matches the declared strings or rows, and whether an unknown word maker marked the word; conditional features contribute the features of the branch that holds. "
  "A pattern combines the values of its features in their order. This holds for words of the dictionary and unknown words, at the borders of the text, and for every order of the fields.",
  ["inputs"], "every text up to the bound with characters of any class, dictionary and unknown words, several field orders",
  "Tests check each feature kind on one or two words.",
  ["src/core/impl/feature_impl_prim.h", "src/core/impl/feature_impl_prim.cc", "src/core/impl/feature_impl_compute.cc", "src/core/impl/feature_impl_compute.h", "src/core/impl/feature_impl_pattern.cc", "src/core/impl/feature_impl_pattern.h", "src/core/dic/dic_feature_impl.cc"],
  ["PrimitiveFeatureContext", "CodepointFeatureImpl", "PatternDynamicApplyImpl", "ExprComputeFeatureImpl"])
P("F01", "Juman output lists the words of the best path and their aliases",
  "The default output has, for every text and whatever was formatted before, the comment if there is one, a line for each word of the best path and EOS. A line has the surface, reading and dictionary form, the four parts of speech with * for an empty one and the ids which the grammar table gives them (0 when the table does not), and the quoted features of the word or NIL. "
  "Entries which share the features of a word follow it as lines starting with @ in the order of the dictionary. An unknown word has its own text where its maker says so and the rest from its template, and a spelling variant shows how it was changed.",
  ["inputs", "histories"], "every text up to the bound over several alphabets or with any one-byte characters, every comment, every assignment of weights",
  "Tests compare outputs of a few sentences; ids are wrong only for dictionaries which lack some parts of speech, and aliases, variants and empty texts combine.",
  ["src/jumandic/shared/juman_format.cc", "src/jumandic/shared/juman_format.h", "src/jumandic/shared/jumandic_id_resolver.cc", "src/core/analysis/output.cc", "src/core/analysis/output.h", "src/core/analysis/analysis_result.cc", "src/core/analysis/analysis_result.h"],
  ["JumanFormat::format", "JumandicIdResolver", "OutputManager::locate", "NodeWalker"])
P("F02", "Lattice output lists the words of the N best analyses",
  "The lattice output has the comment or, without one, the total scores of the best analyses, then the words of the wanted number of best analyses, as many as there are, each once, ordered by place and numbered in this order, and EOS. Each word is given with the numbers of the words before it (0 for the sentence start), the indices of its first and last character, its surface, canonical form (dictionary form/reading if it has none), reading, dictionary form, parts of speech with ids, features, the weighted scores of a connection by which it is reached and their sum, and the ranks of the analyses which contain it; entries with the same features get a line each.",
  ["inputs", "histories"], "every text up to the bound, every comment, every assignment of weights and additional scores, all N up to more than the beam",
  "Tests do not read this output.",
  ["src/jumandic/shared/lattice_format.cc", "src/jumandic/shared/lattice_format.h", "src/core/analysis/output.cc"], ["LatticeFormatInfo", "LatticeFormat::format"])
P("F03", "Segmented and morph outputs list the words of the best path",
  "The segmented output is the surfaces of the words of the best path with the separator between them and a line break at the end, so that without the separators it is the text. "
  "The morph output has for every word surface_pos:subpos, in its full form the surface, reading, dictionary form, part of speech, its sub-part, conjugation type and form joined by underscores, with * for an empty one after the part of speech, each followed by a space, then the comment if there is one, and a line break. Both hold whatever was formatted before.",
  ["inputs", "histories"], "every text up to the bound, every separator and comment, every assignment of weights",
  "Tests do not read these outputs.",
  ["src/core/impl/segmented_format.cc", "src/jumandic/shared/morph_format.cc", "src/core/analysis/analysis_result.h"], ["SegmentedFormat::format", "MorphFormat::format"])
P("F04", "The dictionary subset can be read as a dictionary",
  "The subset output is the full morph output followed by the dictionary words which were candidates in the text. Every such entry is given once, with all entries sharing its features, as a line of a CSV dictionary with the same contents, whatever characters (quotes, commas, line breaks) its fields contain; every text that is quoted is read back as it was.",
  ["inputs"], "every text up to the bound with special characters in every kind of field; every field of up to some bytes for quoting",
  "A test quotes two strings.",
  ["src/jumandic/shared/mdic_format.cc", "src/jumandic/shared/subset_format.cc", "src/util/csv_reader.cc"], ["MdicFormat::format", "printMaybeQuoted", "printMaybeQuoteStringList", "SubsetFormat::format"])
P("G01", "Partial annotations are read and matched exactly",
  "A file of partially annotated examples yields its examples one after another, the last one also without an empty line behind it. An example has the characters of its lines as text and the comment of its comment line; a boundary is given at the end of every line, no boundary is possible where & stands and inside the words given after a tab, and such a word has its place, length, surface and tags with the numbers of their values. Nothing is left of the example read before into the same object. "
  "A word of the lattice matches exactly when it neither begins nor ends where no boundary is possible, has no given boundary inside, and, when a word is given at its place, has its length and the values of all its tags.",
  ["inputs", "histories"], "every example up to the bound over any characters, several sets of tags, every word of its lattice",
  "Tests read a few examples.",
  ["src/core/input/partial_example_io.cc", "src/core/input/partial_example.cc", "src/core/input/partial_example.h"],
  ["PartialExampleReader::readExample", "PartialExample::checkViolation", "PartialExample::doesNodeMatch"])
P("G02", "Annotated text is analysed with as few contradictions as possible",
  "Analysing partially annotated text chooses among all analyses one whose words contradict the annotation the least: a word at an impossible place counts ten times as much as one with a wrong tag, and when an analysis agrees with the annotation the result agrees. The text and comment of an example are those given, whatever was analysed before and also for readers initialized from another one.",
  ["inputs", "histories"], "every example up to the bound, every assignment of small weights",
  "A test analyses two examples.",
  ["src/core/input/pex_stream_reader.cc", "src/core/input/partial_example.cc", "src/core/analysis/score_processor.cc"],
  ["PexStreamReader::readExample", "PexStreamReader::analyzeWith", "PexPlugin::updateScore"])
P("G03", "Plain input is read line by line with its comments",
  "Reading plain text yields every line which is no comment as a text to be analysed, with the comment of the comment line directly before it or else none; a comment begins with # and a space. A line which exceeds the limit for texts or comments is refused and any other line is accepted.",
  ["inputs", "histories"], "every sequence of lines up to the bound over any characters, every limit",
  "Tests read two lines.",
  ["src/core/input/stream_reader.cc", "src/core/input/stream_reader.h"], ["PlainStreamReader::readExample"])
P("G04", "Fully annotated examples are read word by word",
  "A file of fully annotated examples, one word per line or one example per line, yields all of its examples in order with their comments and line numbers, including one which ends with the file, and can be read again from its start. Every word has its place and length in characters, for each training field the number which the dictionary gives to the string or a negative value if it has none, and the text of the string which is not in the dictionary; the text of the example is that of its words. Quoted fields are read as they were before quoting. A word with fewer fields than the training fields is refused.",
  ["inputs", "histories"], "every file up to the bound made of words with and without special characters and unknown strings",
  "Tests read a few lines.",
  ["src/core/training/full_example.cc", "src/core/training/full_example.h", "src/core/input/training_io.cc"], ["FullExampleReader::readFullExampleCsv", "FullExampleReader::readFullExampleDblCsv"])
P("G05", "Annotated words are found in or added to the lattice",
  "For training, each word of a fully annotated example is a node of the lattice at its place, with its length and the values of its fields: the node which is there already or, if there is none, exactly one added to it, also when the text has no analysis without it. The other nodes keep their fields, and it is reported whether nodes were added. Fields with no weight are ignored.",
  ["inputs"], "every example up to the bound made of words which are in the dictionary, partly in it, or unknown",
  "Tests check a few examples.",
  ["src/core/training/gold_example.cc", "src/core/training/gold_example.h", "src/core/training/trainer.cc"], ["TrainingExampleAdapter::ensureNodes", "TrainingExampleAdapter::nodeSeedExists", "Trainer::prepare"])
P("G06", "The training loss and update are those of the annotated and best words",
  "The loss is the share of the field weights in which the words of the best path differ from the annotated ones, a place where only one of both has a word counting fully; it is zero exactly when they agree. "
  "The update raises features of the annotated words and lowers those of the best words at the places where they differ, in proportion to how often one has them more than the other and not those which both have equally; one of both sides is scaled so that raising and lowering are balanced. It stops two places behind the one where the annotated path left the beam, or where the best path's score exceeds it most, when the mode says so.",
  ["inputs"], "every example up to the bound, every assignment of small weights, beams of one and two, all update modes",
  "Tests check that training converges on a few sentences, which it does with a wrong update, too.",
  ["src/core/training/loss.cc", "src/core/training/loss.h", "src/core/training/trainer.cc"], ["LossCalculator::computeComparison", "LossCalculator::computeLoss", "LossCalculator::computeFeatureDiff", "Trainer::computeTrainingLoss"])
P("G07", "Partial annotations change features of contradicting and agreeing words",
  "Training with a partially annotated example changes nothing and has no loss when the best analysis agrees with the annotation. Otherwise the loss is the share of the words of the best analysis which contradict it, or 0 when at most one feature would change. Only features of the best analysis are lowered and only features of three words in a row which all agree with the annotation are raised, each feature once and never more raised than lowered in sum; raised are the agreeing hypotheses in the beams around the contradicting word: those over a place where no boundary is possible, those which end at a given boundary inside it, or else those which begin at its place.",
  ["inputs", "histories"], "every example up to the bound over several sets of tags, every assignment of small weights, beams of one and two",
  "No test looks at the features of an update.",
  ["src/core/training/partial_trainer.cc", "src/core/training/partial_trainer.h", "src/core/training/training_types.h"],
  ["PartialTrainer::compute", "PartialTrainer::handleBoundaryConstraint", "PartialTrainer::handleTagConstraint", "PartialTrainer::finalizeFeatures"])
P("G08", "Every example is trained once per pass whatever the threads do",
  "In every pass over the data each fully annotated example is in exactly one batch of at most the given size, also the last ones; all partially annotated examples, including the last one of their file, are trained with every batch after the first pass. In every iteration over a batch each of its examples is trained exactly once, and its result changes the weights exactly once, in whatever order threads finish; nothing is in work after the pass. The loss of the pass is the sum of the losses of the last iterations over its batches, which end when their loss is small enough or at the given number. "
  "The sizes of the global beam used in training lie between the given limits, go to the smallest at the end, and are off in the first iteration over a batch when asked.",
  ["schedules", "inputs"], "every number of examples, batch size, number of threads and iterations up to the bound and every order in which the threads finish",
  "Tests train with a single thread order which the system happens to choose.",
  ["src/core/training/training_env.cc", "src/core/training/trainer.cc", "src/core/training/training_executor.cc", "src/core/training/training_executor.h"],
  ["TrainingEnv::trainOneEpoch", "TrainingEnv::trainOneBatch", "TrainerBatch", "TrainingExecutor", "TrainingExecutorThread::runMain"])
P("G09", "Weight updates move only the features of the update and are what is exported",
  "An update with a loss below 0.00001 changes no weight. Any other one changes only the weights of its features, each in the direction of its value, never to a value which is not finite, and equally certain ones in proportion to their values. The exported model consists of exactly the weights which are used for scoring, as many as configured. After the first pass weights which stayed within the range of the random initial ones are removed and clearly larger ones are kept as they are.",
  ["inputs", "histories"], "every sequence of updates up to the bound with several features, values and losses; any common weight",
  "Tests check that training converges.",
  ["src/core/training/scw.cc", "src/core/training/scw.h"], ["SoftConfidenceWeighted::update", "SoftConfidenceWeighted::substractInitValues", "SoftConfidenceWeighted::exportModel"])
P("H01", "Mapped files give and take exactly the requested piece",
  "A piece of a file mapped for reading has exactly the bytes of the file at its offset and is refused if it is not completely inside of the file; reading never changes or creates files. A piece mapped for writing has the bytes which the file has there, zeros behind its end, and what is written into it is in the file afterwards and nothing else changes; the file grows as far as needed. "
  "Pieces and files can be moved, closed, opened again and dropped in any order: each is unmapped and closed exactly once, and a moved piece keeps its contents.",
  ["inputs", "histories"], "every sequence of operations up to the bound, file sizes, offsets and sizes around the page size",
  "Tests map one file.",
  ["src/util/mmap.h", "src/util/mmap.cc", "src/util/mmap_impl_unix.h"], ["MappedFile::map", "MappedFileFragment", "FullyMappedFile::open"])
P("H02", "Model files are loaded as they were saved and broken ones refused",
  "A model file which was saved without an error is loaded with the same parts in the same order: kinds, comments and contents of all pieces, also when it replaced another file. The first part of a kind is the one found. If a call of the system fails while saving or loading, an error is reported. "
  "A file whose end is missing is refused, and no file whose description is changed in any way makes the reader look behind the file. Everything which was opened or mapped is released.",
  ["inputs", "faults"], "every model up to the bound, every failing call, every changed byte of the description, files cut at many places",
  "Tests load one model which they just saved.",
  ["src/core/impl/model_io.cc", "src/core/impl/model_io.h", "src/core/impl/model_format_ser.h"], ["ModelSaver::save", "FilesystemModel::open", "FilesystemModel::load"])
P("H03", "Saved models restore the specification, dictionary and analyses",
  "Loading a saved model gives the specification, the dictionary fields and the comments it was saved with, and analyses every text as the model in memory does: the same words with the same fields and scores, also with a global beam. A model without weights loads but gives no analyser. "
  "A dictionary with a missing or additional piece, cut description, another magic or a changed description is refused or used without reading outside of it; up to 16 columns are supported and more are refused.",
  ["inputs", "faults"], "every specification of a set which covers the kinds of fields and features, texts of a set, every value of every byte of the description",
  "Tests compare a few fields of one model.",
  ["src/core/env.cc", "src/core/env.h", "src/core/dic/dic_builder.cc", "src/core/impl/perceptron_io.cc", "src/core/impl/perceptron_io.h"], ["JumanppEnv::loadModel", "BuiltDictionary::restoreDictionary", "fixupDictionary"])
P("I01", "Language-model scores follow the words of each analysis",
  "With a recurrent language model every analysis left after the search gets, for each of its words and the end of the sentence, the score which the model defines for that word after the words before it in this analysis: the product of the word's output vector with the context computed from the sentence start over all words before, plus the values of the features of the word with up to three words before it, the sentence start standing for what is missing, minus the bias. A word is looked up by the configured fields, also when it is unknown to the dictionary; words which the model does not know get the constant plus the penalty for each character. "
  "The score of an analysis is the weighted sum of both scores of its words, the analyses are ordered by it, and as many of the best ones as fit the beam are given. Analyses before have no influence.",
  ["inputs", "histories"], "every text and vocabulary up to the bound, feature orders from 1 to 4, one or two fields, any small values of the feature weights",
  "Tests compare one or two scores with the tools of the authors and do not look at the history.",
  ["src/core/analysis/rnn_scorer_gbeam.cc", "src/core/analysis/rnn_id_resolver.cc", "src/core/analysis/rnn_id_resolver.h", "src/rnn/mikolov_rnn_impl.h", "src/core/analysis/score_processor.cc"],
  ["RnnScorerGbeam::scoreLattice", "RnnIdResolver::resolveIdsAtGbeam", "RnnIdContainer::addPath", "MikolovRnnImplParallel", "ScoreProcessor::adjustBeamScores"])
P("I02", "Language models are restored from model files with their settings",
  "The files of a language model are read as they are; missing, cut, too long or unsuitable ones (other version, activation, training without NCE, no sentence marker or unknown marker, no features) are refused. A language model saved in a model file gives the scores which it gave before, also when its context is larger than its vocabulary, and is saved again with the same contents; cut or missing pieces are refused. "
  "Saved settings stay in effect, a setting which is passed replaces only itself, the bias of the model is used when none is set, and defaults are used for the others. A scale of 0 disables the language model, after which analyses are those without one, until it is enabled again; another language model can replace the saved one or be added to a model without one.",
  ["inputs", "faults"], "every combination of saved and passed settings with any small values, vocabularies and texts up to the bound, every cut",
  "Tests read one file and do not save it.",
  ["src/core/analysis/rnn_scorer_gbeam.cc", "src/core/env.cc", "src/core/env.h", "src/rnn/mikolov_rnn.cc", "src/core/analysis/rnn_scorer.h", "src/util/cfg.h"],
  ["RnnScorerGbeamFactory::load", "RnnScorerGbeamFactory::makeInfo", "JumanppEnv::setRnnConfig", "JumanppEnv::setRnnHolder", "MikolovModelReader::parse", "readHeader"])
