#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run: python3 tools/spec.py (writes both files)."""
import json, os
P = []

def prop(id, title, statement, over, text, why, files, mech, crate, note, state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, crate=crate, note=note, state=state, observe=observe, na=na))

TRUST = "Trusts proptest, libxml2, the reference model in harness/, and (full crate) the test doubles in stubs/."

prop("P01", "DNM offsets and node ranges describe the plaintext exactly",
  "For every document, parameter setting and root node, a DNM's byte-offset table gives the start of every character of its plaintext plus the end, the root's range is the whole plaintext, and get_plaintext of any node's range is the text that range denotes. An entered element's range is exactly the concatenation of its children's ranges in document order, and either all or none of an element's children have ranges; nodes outside the DNM have none (an Err).",
  ["inputs", "configurations"], "every XML/HTML tree (elements, text, comments, any Unicode) x every DNMParameters value x every element as root",
  "The repository's DNM tests look at a handful of fixed documents and spot-check single ranges; offsets only go wrong for particular mixes of multi-byte text, skipped or tokenized nodes and whitespace folding.",
  ["src/dnm/mod.rs", "src/dnm/range.rs"],
  [("recurse over the tree, recording (start, end) per node", "src/dnm/mod.rs DNM::recurse_node_create, text_node_create"), ("byte offset table", "src/dnm/mod.rs DNM::new")],
  "full", "Structural invariants over generated documents, parameters and roots.",
  state=[("byte_offsets", "byte offset of each character, plus the end", "src/dnm/mod.rs"), ("node_map", "node -> character range", "src/dnm/mod.rs")],
  observe=["DNM::byte_offsets", "DNM::get_range_of_node", "DNMRange::get_plaintext"])
prop("P02", "The plaintext is what the parameters prescribe",
  "A DNM's plaintext and every node's range equal those of the documented construction: text nodes in document order, whitespace runs folded to one blank (none leading) when normalization is on, unicode/stem/lowercase rewriting applied per text node, elements replaced by their token, skipped, entered or replaced by their callback's result according to the rule for the first matching class in class-attribute order, else for the element name, with tokens wrapped in blanks when requested. Building the same DNM twice gives the same result.",
  ["inputs", "configurations"], "every XML/HTML tree x every DNMParameters value x every element as root",
  "Fixed test documents cover only a few parameter combinations; precedence between rules, whitespace state across skipped/token nodes and unicode expansion interact in ways only combinations show.",
  ["src/dnm/mod.rs", "src/dnm/parameters.rs"],
  [("text node pipeline", "src/dnm/mod.rs DNM::text_node_create, normalize_unicode"), ("special tag handling", "src/dnm/mod.rs DNM::intermediate_node_create, push_token, push_whitespace")],
  "full", "Differential against an independent reference construction.", observe=["DNM::plaintext", "DNM::get_range_of_node"])
prop("P03", "Every plaintext character maps back to its origin in the DOM",
  "With back mapping on, the back map has exactly one entry per plaintext character; the entry names the text node and the character offset the character comes from (all characters of one character's expansion share its offset), or the replaced element with offset -1. With back mapping off there are no entries, and get_node of a range is the origin of its first character.",
  ["inputs", "configurations"], "every XML/HTML tree x every parameter setting x every character of the plaintext",
  "Off-by-one drift after an expanding or vanishing character only shows for particular Unicode input and option combinations, which the fixed test documents do not have.",
  ["src/dnm/mod.rs", "src/dnm/range.rs"],
  [("back map maintained in step with the characters", "src/dnm/mod.rs DNM::text_node_create"), ("offsets through unicode and case rewriting", "src/dnm/mod.rs normalize_unicode, to_lowercase")],
  "full", "Differential against a reference that tracks origins, plus a direct comparison with DOM characters.",
  state=[("back_map", "plaintext character -> (node, offset)", "src/dnm/mod.rs")], observe=["DNM::back_map", "DNMRange::get_node"])
prop("P04", "Range arithmetic agrees with text slicing",
  "For every range of every text: its plaintext is exactly the characters it spans; trim yields the range of the trimmed text (empty at the end when all blank) and is idempotent; sub-ranges by character offsets, and by (possibly mid-character) non-empty byte offsets, select exactly the characters named; is_empty, clone and the truncated plaintext agree with the text.",
  ["inputs"], "all texts with characters of 1 to 4 bytes, all ranges and sub-ranges of them",
  "Existing tests use a few ASCII sentences; confusing byte and character offsets is invisible on ASCII.",
  ["src/dnm/range.rs"],
  [("trim", "src/dnm/range.rs DNMRange::trim"), ("sub-ranges", "src/dnm/range.rs get_subrange, get_subrange_from_byte_offsets")],
  "full", "Generated texts and ranges against slicing of the character vector.", observe=["DNMRange::trim", "DNMRange::get_subrange_from_byte_offsets"])
prop("P05", "Ranges survive the round trip through XPointer strings",
  "Serializing a range of a back-mapped DNM gives an arange(...) string, and deserializing that string against the same document gives the range back (positions inside one character's expansion or inside one replaced element cannot be told apart and widen to it). Read in a DNM of the same node with other parameters, it denotes the same place of the document, or the start of the replaced element around it. Without back mapping serialization is refused. The end of a document's last replaced element has no address and is exempt.",
  ["inputs", "configurations"], "every document with unique ids, with and without namespaces x parameters x DNM roots x all ranges",
  "The existing test serializes a few ranges of one document; wrong child indices, ids on text-node ancestors, comments and ranges next to tokens need generated trees.",
  ["src/dnm/range.rs"],
  [("serialize", "src/dnm/range.rs DNMRange::serialize, serialize_node, serialize_offset, create_arange"), ("deserialize", "src/dnm/range.rs DNMRange::deserialize")],
  "full", "Round trip over generated documents and ranges.", observe=["DNMRange::serialize", "DNMRange::deserialize"])
prop("P06", "Canonical form and hash depend only on linguistic content",
  "The canonical form of a node is its plaintext-bearing markup with blank text dropped, element names and sorted classes kept, and ids, other attributes, comments, annotations and semantics wrappers left out; the hash is the lowercase hex MD5 of that form, for the whole DNM and for every node. Changing only ids, other attributes, class order, comments, annotations or semantics wrappers changes neither.",
  ["inputs", "configurations"], "every document x parameters x node, and all edits of the listed kinds",
  "Tests pin a few documents' canonical strings; invariance under irrelevant edits and sensitivity to relevant ones quantify over all documents.",
  ["src/dnm/c14n.rs"],
  [("canonical writer", "src/dnm/c14n.rs DNM::canonical_internal"), ("hash", "src/dnm/c14n.rs node_hash_basic, to_hash_basic")],
  "full", "Reference writer plus metamorphic edits.", observe=["DNM::to_c14n_basic", "DNM::node_c14n_basic", "DNM::to_hash_basic", "DNM::node_hash_basic"])
prop("P07", "Plain strings become faithful one-paragraph documents",
  "DNM::from_str turns any text into a document with a single paragraph whose text content is that text unchanged (markup characters included) and whose DNM follows the given or default parameters. from_ams_paragraph_str rebuilds prose from stored AMS paragraphs: each maximal run of formula lexemes one blank apart becomes one \"mathformula\", every line starts capitalized, and the non-empty lines are joined by \" . \".",
  ["inputs", "configurations"], "every text without NUL x parameters; every list of AMS token lines",
  "One stored paragraph and three short strings are tested; escaping and lexeme runs depend on arbitrary input.",
  ["src/dnm/mod.rs"],
  [("text to document", "src/dnm/mod.rs DNM::from_str"), ("AMS lines to prose", "src/dnm/mod.rs DNM::from_ams_paragraph_str")],
  "full", "Generated text and token lines against the reference construction.", observe=["DNM::from_str", "DNM::from_ams_paragraph_str"])
prop("P08", "Sentence tokenization partitions the text without losing anything",
  "For every DNM, the sentence ranges are non-empty, in order, disjoint, inside the text and start and end on non-blank characters; only whitespace lies between them, and what follows the last one contains no letters. Tokenizing again gives the same ranges.",
  ["inputs"], "every plaintext (prose, arbitrary Unicode, any punctuation) and every generated document",
  "Tests tokenize a few dozen literal sentences; lost tails, overlapping or misplaced ranges depend on the exact characters around boundaries.",
  ["src/tokenizer.rs"],
  [("sentence scan", "src/tokenizer.rs Tokenizer::sentences"), ("trailing sentence", "src/tokenizer.rs Tokenizer::sentences")],
  "full", "Partition invariant over generated text.", observe=["Tokenizer::sentences"])
prop("P09", "Sentence boundaries follow the documented rules",
  "A boundary is placed exactly where the rules say: after a period or colon followed by a capitalized word (unless the period ends a known abbreviation or a single letter other than I and the word is no stopword), before a bracket, star or quote, or - period only - before a formula; after ? or ! unless bracketed; at a blank line before an uppercase word; and before a capital letter directly following a formula.",
  ["inputs"], "all combinations of words, abbreviations, stopwords, formulas, punctuation and whitespace",
  "The rules interact (abbreviation x stopword x formula x quote x line feed); the fixed sentences of the tests reach a small fraction of the combinations.",
  ["src/tokenizer.rs", "src/stopwords.rs"],
  [("boundary decisions", "src/tokenizer.rs Tokenizer::sentences"), ("abbreviation window", "src/tokenizer.rs Tokenizer::sentences, default")],
  "full", "Differential against an independent implementation of the rules; abbreviations and stopwords enumerated.", observe=["Tokenizer::sentences"])
prop("P10", "Word tokenization keeps every word and every punctuation mark",
  "words() of any range returns exactly the maximal runs of alphanumeric characters and possessive 's apostrophes, in order; words_and_punct() additionally returns every other non-blank character as a token of its own, splitting at apostrophes and keeping the known clitics attached to theirs, so that concatenating its tokens gives all non-blank characters of the range. All word ranges are non-empty and inside the range.",
  ["inputs"], "every text and every range of it",
  "A handful of sentences are tested; apostrophes at ends, non-ASCII letters and inner ranges are where words get lost.",
  ["src/tokenizer.rs"],
  [("words", "src/tokenizer.rs Tokenizer::words"), ("words and punctuation", "src/tokenizer.rs Tokenizer::words_and_punct")],
  "full", "Differential against independent definitions.", observe=["Tokenizer::words", "Tokenizer::words_and_punct"])
prop("P11", "Document selectors find exactly the described nodes",
  "For every document, the paragraph, heading, math, reference, abstract, keywords, acknowledgement and caption selections return exactly the nodes their documentation describes (LaTeXML class, element name, no ltx_ERROR inside, none preceding for paragraphs), each once and in document order; the extended paragraph walk is first abstract paragraph, first keywords, paragraphs, first acknowledgement, captions. Custom XPath and closure filters select exactly the matching nodes in document order, and the sequential and parallel document types agree.",
  ["inputs"], "every XML/HTML tree over LaTeXML-like classes and names",
  "Tests count nodes of a few fixed documents; selection errors need classes and error markup in unusual places.",
  ["src/data.rs", "src/parallel_data/document.rs"],
  [("selectors", "src/parallel_data/document.rs heading_nodes, paragraph_nodes, abstract_p_node, keywords_node, acknowledgement_node, caption_nodes, math_nodes, ref_nodes"), ("closure filter", "src/parallel_data/document.rs dfs_filter_nodes")],
  "full", "Reference selection over a snapshot of the tree.", observe=["Document::paragraph_iter", "Document::extended_paragraph_iter", "Document::filter_iter"])
prop("P12", "Iterators compose: document, paragraphs, sentences, words",
  "Iterating a document's paragraphs, their sentences and their words yields exactly the selected paragraphs' DNMs, the tokenizer's non-empty sentence ranges and its non-empty word ranges, in order, nothing skipped or repeated; the sequential and parallel APIs yield the same texts. The tagged word iterator yields the tagger's words with their tags and with ranges whose text is the tagged word. Iterators over several documents do not influence each other, however their steps interleave.",
  ["inputs"], "every document and every sentence",
  "Tests count items over fixed documents; dropped or duplicated items and misplaced word ranges (multi-byte text before the word) need generated documents.",
  ["src/data.rs", "src/parallel_data.rs", "src/parallel_data/document.rs"],
  [("sequential iterators", "src/data.rs ParagraphIterator, SentenceIterator, SimpleWordIterator, SennaWordIterator"), ("parallel iterators", "src/parallel_data.rs RoNodeIterator, DNMRangeIterator")],
  "full", "Iterators against direct calls and each other.", observe=["Document::paragraph_iter", "Sentence::simple_iter", "Sentence::senna_iter"])
prop("P13", "A sequential corpus walk visits every document once",
  "Walking a corpus directory yields every file below it whose name ends in the corpus extension (.html or .xhtml by default), exactly once, parsed by the parser for its extension, and nothing else; an unparseable file does not hide other documents. Loading one document by path gives the same document as the walk, and loading a missing file is an error. A corpus can be walked again, also after a walk that was given up, and then shows the directory as it is by then.",
  ["inputs", "configurations", "fault_sequences"], "every directory layout (nested, hidden, look-alike names, broken files) x extension setting",
  "The tests walk one flat directory of good files.",
  ["src/data.rs"],
  [("walk", "src/data.rs DocumentIterator::next"), ("parser choice", "src/data.rs Document::new")],
  "full", "Generated directory trees against the list of created files.", observe=["Corpus::iter", "Corpus::load_doc"])
prop("P14", "Parallel walks add up every document's catalog",
  "For every directory layout, thread count and visiting order, the parallel catalog walks call the closure exactly once per selected non-hidden document, parsed by the parser for its extension (.xhtml: XML, others: HTML), and return the key-wise sum of the returned catalogs (both sums for the two-catalog walk), equal to the sequential sum, also while other walks run at the same time.",
  ["inputs", "schedules"], "every directory layout x catalogs x traversal order x worker threads",
  "The test runs one directory once; lost or double-counted merges depend on how the work is split.",
  ["src/parallel_data/corpus.rs"],
  [("parallel map and reduce", "src/parallel_data/corpus.rs catalog_with_parallel_walk, catalogs_with_parallel_walk")],
  "full", "Generated layouts and catalogs; the order of the walk and the number of threads are generated too.", observe=["Corpus::catalog_with_parallel_walk", "Corpus::catalogs_with_parallel_walk"])
prop("P15", "Pattern files load completely or are rejected",
  "Loading a well-formed pattern file yields every rule under its name, with its summary, and with references resolved to the rule of that name and kind wherever it is defined (earlier or later). A file with an undefined reference, a duplicate rule, an unknown node, tag, match type or missing attribute is rejected with an error; nothing panics.",
  ["inputs"], "all pattern files of the pattern language and all single-fault mutations of them",
  "No test loads a pattern file with an error, and only one example file exists.",
  ["src/patterns/rules.rs", "src/patterns/utils.rs"],
  [("rule table with forward references", "src/patterns/rules.rs get_rule_position, PCtx::verify"), ("loaders", "src/patterns/rules.rs load_from_node functions, load_rule, PatternFile::load")],
  "full", "Generated pattern files, with and without a planted fault.", observe=["PatternFile::load"])
prop("P16", "Pattern matching returns exactly the matches of the pattern language",
  "match_sentence tries the named sequence rule at every word of a tagged, parsed sentence and returns, in order, exactly the markers the pattern language prescribes: word, part-of-speech, negation and alternatives; phrases (shortest/longest, start and end conditions); math nodes with names, symbols, children and descendants. Every text marker's range is the marked words' text, every math marker the marked node; an unknown rule or a sentence without a parse tree is an error.",
  ["inputs", "programs"], "all patterns of the language (as generated programs) x all tagged sentences with formulas",
  "No test exercises the matcher; semantics are combinations of nested patterns.",
  ["src/patterns/matching.rs", "src/patterns/rules.rs"],
  [("matchers", "src/patterns/matching.rs match_seq, match_word, match_math, match_mtext, match_pos"), ("phrases", "src/patterns/matching.rs PhraseTree, get_phrase_matches")],
  "full", "Generated rule sets and sentences against an independent interpreter of the pattern language.", observe=["match_sentence"])
prop("P17", "XML helper functions read nodes as documented",
  "For every node: the simple content is the text of a node whose only child is text (empty if none, error otherwise, trimmed on request); the strict child list is all non-text, non-comment children or an error if a non-blank text is among the children; the fast list never fails; the only-child and no-child assertions succeed exactly when the strict list has one or no entry; a required attribute is its value or an error naming node and attribute; a property found twice is an error naming both nodes.",
  ["inputs"], "every XML tree mixing elements, blank and non-blank text and comments",
  "The helpers have no tests.",
  ["src/patterns/utils.rs"],
  [("child access", "src/patterns/utils.rs get_non_text_children, fast_get_non_text_children, get_only_child, assert_no_child"), ("content and attributes", "src/patterns/utils.rs get_simple_node_content, require_node_property, check_found_property_already")],
  "base", "Differential against what is in the tree.", observe=["get_non_text_children", "get_simple_node_content"])
prop("P18", "N-gram counts are exact",
  "Adding content counts every n consecutive words of every maximal run of words that have an anchor word within the window on either side, once per occurrence and content, and nothing else (words are blank-separated items starting with an alphanumeric character; runs never join across unjustified words or separate contents). get, distinct_count and sorted (descending by count) report exactly these counts; recording a word list counts all its n-grams.",
  ["inputs", "histories"], "every text x anchor x window x n, and every sequence of additions",
  "There are no n-gram tests; errors depend on the spacing of anchors relative to the window.",
  ["src/ngrams.rs"],
  [("anchored scan", "src/ngrams.rs Ngrams::add_anchored_content"), ("n-gram window", "src/ngrams.rs Ngrams::record_words")],
  "base", "Model-based: a naive reference counter after every addition.", state=[("counts", "n-gram -> occurrences", "src/ngrams.rs")], observe=["Ngrams::counts", "Ngrams::sorted"])
prop("P19", "A dictionary numbers words by first appearance",
  "After any sequence of insertions, the dictionary holds exactly the distinct inserted words, each with its rank (from 1) by first insertion; repetitions change nothing; count is the number of distinct words and sorted lists all of them by descending index.",
  ["histories"], "every sequence of insertions with repetitions",
  "No tests; numbering errors appear only after particular repetition patterns.",
  ["src/ngrams.rs"], [("insertion", "src/ngrams.rs Dictionary::insert")],
  "base", "Model-based insertion histories.", state=[("map, index", "word -> rank, last rank", "src/ngrams.rs")], observe=["Dictionary::map", "Dictionary::count", "Dictionary::sorted"])
prop("P20", "The stopword set is the published one",
  "stopwords::load contains exactly the published stopword list: every listed word is a stopword, no other word (including near misses and capitalized forms) is.",
  ["inputs"], "all words",
  "The test looks up three words.",
  ["src/stopwords.rs"], [("word list", "src/stopwords.rs load")],
  "base", "Membership queries against the list published at the pinned commit, and the complete list enumerated.", observe=["stopwords::load"])
prop("P21", "Formulas are lexicalized from their annotations",
  "lexematize_math of any node returns, in document order, the lexemes of all llamapun annotations below it: numbers, arrays, atoms and superscript operators reduced to their class, ':' and '-' written '_', glued ':end'/':start' markers separated; a node without any lexeme yields \"mathformula\". The result never depends on earlier calls.",
  ["inputs"], "every math tree with any annotations (nested, foreign, empty)",
  "Only indirect use over fixed documents; lexeme glueing and empty annotations are not sampled.",
  ["src/dnm/node.rs"], [("annotation reading", "src/dnm/node.rs lexematize_math")],
  "base", "Differential against a reference reading.", observe=["lexematize_math"])
prop("P22", "Heading normalization is total, stable and maps known headings",
  "For every lowercase heading, normalization terminates and returns the documented class for every known synonym, prefix and suffix form; leading/trailing enumeration (roman numerals, single letters, NUM), fixed lead and trail phrases and common plurals do not change the class; a heading the tables do not know is returned unchanged apart from that stripping, with no words glued together.",
  ["inputs"], "all headings built from known and unknown words, enumerations, phrases and plurals",
  "No test covers heading normalization.",
  ["src/util/data_helpers.rs"], [("stripping rules and tables", "src/util/data_helpers.rs normalize_heading_title")],
  "full", "Reference normalizer and metamorphic decorations of headings.", observe=["normalize_heading_title", "StructuralEnv::from"])
prop("P23", "AMS and structural environments are classified by the published tables",
  "Every theorem-like environment name maps to exactly the environment of the published table (Other if unknown), a class attribute maps to the environment of its ltx_theorem_ suffix (Theorem if bare, Proof for ltx_proof, nothing otherwise), printing a structural environment and reading it back gives the same one, and markup detection holds exactly for documents with a div of class ltx_theorem.",
  ["inputs"], "all environment names and class attributes, all documents",
  "The tables have about 1,600 entries and no test; single entries can be mapped wrongly or shadowed.",
  ["src/ams.rs"], [("tables", "src/ams.rs normalize_env, StructuralEnv::from, Display impls"), ("class attribute", "src/ams.rs class_to_env"), ("markup detection", "src/ams.rs has_markup_xmldoc")],
  "full", "Complete enumeration of the published table, plus generated near misses, class attributes and documents.", observe=["normalize_env", "class_to_env", "has_markup_xmldoc"])
prop("P24", "Word normalization and headings follow their options",
  "Normalizing a word range yields its lowercase alphanumeric text, NUM for numerals, citationelement for citations and the formula's lexemes (or nothing when math is discarded) for formulas; keeping punctuation or case is honoured; words longer than the maximum are an error. The heading of a node is its normalized words without numerals, or none if a word is an error.",
  ["inputs", "configurations"], "every word of every generated document x all option combinations",
  "No test calls it with non-default options.",
  ["src/util/data_helpers.rs"], [("word normalization", "src/util/data_helpers.rs ams_normalize_word_range"), ("heading text", "src/util/data_helpers.rs heading_from_node_aux")],
  "full", "Differential against a reference normalizer.", observe=["ams_normalize_word_range", "heading_from_node_aux"])
prop("P25", "The token model accounts for every token of every paragraph",
  "Extracting a token model from any corpus writes, for every document once and contiguously, one line per kept paragraph with the documented token stream, and returns counts that are exactly the number of documents, paragraphs, dropped paragraphs, words, formulas, citations and numerals; paragraphs with an overlong word are dropped as a whole. The result does not depend on thread scheduling except for the order of documents, nor on what the file held before; an extraction whose file cannot be created or written does not report success.",
  ["inputs", "schedules", "fault_sequences"], "every corpus x discard-math option x traversal order",
  "One test runs it on the resource directory and looks at nothing but success.",
  ["src/util/token_model.rs"], [("per-document buffer under a lock", "src/util/token_model.rs extract")],
  "full", "Generated corpora against a reference extraction; documents compared as a multiset.", observe=["token_model::extract"])
prop("P26", "Path-based tokenization matches the library, across the FFI too",
  "path_to_words of any document path returns one line per sentence of every clean paragraph, holding its normalized words, and drops a paragraph with an overlong word as a whole; the C entry point returns the same string as a valid C string for every document.",
  ["inputs"], "every document",
  "Only one resource document is used in the tests.",
  ["src/util/path_helpers.rs", "src/extern_use.rs"], [("tokenize a path", "src/util/path_helpers.rs path_to_words"), ("C entry point", "src/extern_use.rs word_tokenize_for_vec2doc")],
  "full", "Generated documents against the composition of the library's parts.", observe=["path_to_words", "word_tokenize_for_vec2doc"])
prop("P27", "The language filter rejects exactly non-English or non-Latin text",
  "The filter asks the detector about the plaintext with formula, citation and reference placeholders blanked, and reports a DNM as invalid exactly when the detector names a non-Latin script, or a language other than English with confidence above 0.93; undetectable text is not rejected.",
  ["inputs"], "all plaintexts x all detector answers",
  "No test.",
  ["src/util/data_helpers.rs"], [("filter", "src/util/data_helpers.rs invalid_for_english_latin")],
  "full", "The detector is a test double whose answers are generated; the question it is asked is checked as well.", observe=["invalid_for_english_latin"])
prop("P28", "The normalization presets are the published ones",
  "The default parameters have no special rules, fold whitespace and support back mapping; the llamapun preset replaces, skips or enters exactly the published element names and classes with the published tokens, keeps whitespace, wraps tokens and normalizes unicode. check() warns exactly about the contradictory settings and changes nothing.",
  ["inputs", "configurations"], "all element and class names, all flag combinations",
  "The presets are only exercised through a few documents; a missing or altered rule is not noticed.",
  ["src/dnm/parameters.rs"], [("presets", "src/dnm/parameters.rs llamapun_normalization, Default"), ("check", "src/dnm/parameters.rs DNMParameters::check")],
  "base", "Queries against the published tables; all flag combinations enumerated.", observe=["DNMParameters::llamapun_normalization", "DNMParameters::check"])
prop("P29", "The resource list names every test document",
  "The preloaded list of resource documents contains the file stem of exactly the .html and .xhtml files below tests/resources of the working directory, in any nesting, once per file.",
  ["inputs"], "all directory layouts",
  "The list is only used as a helper; no test checks it.",
  ["src/util/test.rs"], [("walk", "src/util/test.rs RESOURCE_DOCUMENTS")],
  "base", "Generated directory layouts, each in a fresh process.", observe=["RESOURCE_DOCUMENTS"])
prop("P30", "Plots show every data point",
  "Plotting a frequency list hands gnuplot exactly one point per entry, in order, with the key as x and the base-2 logarithm of the count as y, under the given axis labels and title, written as PNG to the given path.",
  ["inputs"], "all frequency lists, labels and paths",
  "No test plots anything.",
  ["src/util/plot.rs"], [("plot", "src/util/plot.rs plot_simple")],
  "base", "The command stream a stand-in gnuplot receives is decoded and compared.", observe=["plot_simple"])
prop("P31", "Any HTML is processed without panicking",
  "For any byte content of an .html file, loading it and running the whole pipeline - paragraphs, sentences, words, headings, canonical forms, word tokenization - either reports an error or completes; it never panics, and the ranges it yields lie inside their texts.",
  ["inputs"], "arbitrary bytes and mutated real documents",
  "Tests run on four well-formed LaTeXML documents.",
  ["src/data.rs", "src/dnm/mod.rs", "src/tokenizer.rs", "src/util/path_helpers.rs", "src/parallel_data/document.rs"],
  [("HTML parsing with recovery", "src/data.rs Document::new"), ("pipeline", "src/util/path_helpers.rs path_to_words")],
  "full", "Structured and mutational fuzzing of file contents with the structural invariants as oracle.", observe=["Corpus::load_doc", "path_to_words"])

DONE = set("P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P17 P18 P19 P20 P21 P22 P23 P24 P25 P26 P27 P28 P29 P30 P15 P16 P31".split())

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}, ensure_ascii=False) + "\n")
checks, na = [], []
for p in P:
    if p["id"] not in DONE:
        na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['crate']} run {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p['crate']} run {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "property-based testing (proptest, fixed-work, shrinking) against an explicit oracle: " + p["note"],
        "level": "exploration",
        "level_note": "Random search over generated cases; finds counterexamples, does not prove absence. " + TRUST,
    })
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: all checks use public items, or include the module file. See DESIGN.md."}, f, indent=1, ensure_ascii=False)
    f.write("\n")
