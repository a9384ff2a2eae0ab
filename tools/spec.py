"""Single source for properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
P = []   # claimed
N = []   # not applicable
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe))
def na(id, title, statement, over, qtext, why, files, mech, reason):
    N.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, reason=reason))

L = "lttoolbox/"
prop("P01", "Every integer written to a binary is read back as the same integer",
 "Any unsigned number that the library writes to a compiled file, a stream or a serialised object is read back by the matching reader as exactly the same number, consuming exactly the bytes that were written, whichever of the file and stream variants wrote and read it. A number the format cannot hold is refused, never written as another number, and every number below 2^30 can be written.",
 ["inputs"], "all 2^32 values of the variable-length code, all values of the fixed-width 64-bit fields and of every scalar type with a serialiser, for every writer/reader pairing",
 "The tests compile small dictionaries, so they reach a handful of small values and only the file variant; one wrong mask or threshold loses data only for particular value ranges.",
 [L+"compression.cc", L+"compression.h", L+"serialiser.h", L+"deserialiser.h", L+"endian_util.h"],
 [("variable-length integer code", "Compression::multibyte_write / multibyte_read (FILE* and stream variants)"), ("fixed-width codec", "write_le/read_le, Serialiser/Deserialiser of scalars")],
 "bit-provenance abstract interpretation over the exported AST: writer composed with reader over a finite exhaustive partition of the value space",
 "exhaustive over all values; assumes stdio/iostream deliver the bytes in order")
prop("P02", "Every weight written to a binary is read back as the same weight",
 "A transducer weight written to a compiled file is read back as the same weight up to the precision of the format, with its sign and exponent intact, and both infinities come back as themselves. The number of bytes consumed equals the number written.",
 ["inputs"], "every mantissa/exponent pair a finite weight can have, and both infinities, for each writer/reader pairing",
 "Tests use a few small positive weights; sign, exponent and infinity handling are separate paths.",
 [L+"compression.cc"], [("weight code", "Compression::long_multibyte_write / long_multibyte_read")],
 "bit-provenance abstract interpretation with symbolic mantissa and exponent bits; infinities as separate cases",
 "assumes frexp/ldexp are inverse on the scaled mantissa")
prop("P03", "Every Unicode character is carried whole, also those above U+FFFF",
 "A character of the input, of a dictionary or of a compiled file is never cut down to half of its UTF-16 form or treated as two characters: appending any character to a string and decoding the string gives the same character back, and what the processor and the compilers add to symbol sequences are whole characters. Reading UTF-8 input takes exactly the bytes of each character.",
 ["inputs"], "all 1,112,063 characters; every first byte of a UTF-8 sequence; every conversion in the code between a character and a UTF-16 unit, and every place that takes a character",
 "Almost all test data is in the basic plane, where a unit and a character are the same number.",
 [L+x for x in ("ustring.h", "ustring.cc", "input_file.cc", "file_utils.cc", "att_compiler.cc", "fst_processor.cc", "state.cc", "tmx_compiler.cc", "compiler.cc", "regexp_compiler.cc")],
 [("UTF-16 encoder and decoders", "operator+=(UString&, UChar32), ustring_to_vec32, first_char32"), ("UTF-8 input", "InputFile::internal_read"), ("users of characters", "State::step*, Transducer::insert*Transduction, sets of letters, symbol sequences")],
 "bit-provenance abstract interpretation of encoder and decoder over a partition of all characters; type-based scan of conversions and uses of characters",
 "case mapping of characters above U+FFFF is not covered; ICU's and utf8cpp's own decoders are trusted")
prop("P04", "A compiled dictionary is read back exactly as it was written",
 "Whatever the letters, symbols, symbol pairs, sections, states, transitions, final states and weights of a compiled dictionary, reading the file gives the same letters, the same alphabet with the same numbers, the same sections under the same names and the same transducers, whether read for processing or for further editing. Every element is restored, none is added, and nothing the reading object held before remains.",
 ["inputs"], "transducers with any number of states, transitions and finals and any weights, alphabets and sets of sections of any size, pattern lists; both readers of a transducer, with and without a symbol offset, weighted or not",
 "Tests read a few small dictionaries; relative numbering, wrap-around of targets, rare weights and emptiness are data dependent.",
 [L+x for x in ("transducer.cc", "trans_exe.cc", "alphabet.cc", "file_utils.cc", "pattern_list.cc", "compression.cc", "tmx_compiler.cc", "compiler.cc")],
 [("transducer", "Transducer::write / Transducer::read / TransExe::read, Transducer::weighted"), ("alphabet", "Alphabet::write / read"), ("file", "writeTransducerSet, TMXCompiler::write / readShared, readTransducerSet"), ("pattern list", "PatternList::write / read"), ("strings", "Compression::string_write / string_read")],
 "lockstep abstract interpretation of writer and reader over a symbolic tape (affine domain, loops related by induction), any size",
 "assumes states are numbered 0..n-1 and symbols have the form <...>, as every producer in the repository makes them; primitives are P01-P03; objects are assumed freshly used where TransExe is concerned")
prop("P05", "Old compiled files still load and unknown future ones are refused",
 "A compiled file without the feature headers of current versions is read as the unweighted dictionary it holds, and a file or a transducer in it that announces any feature this version does not know is refused instead of being misread. Files written by this version announce exactly the features they use.",
 ["inputs"], "every 64-bit feature word with an unknown bit, for every reader; files without header of any contents",
 "The tests never load a file of another version.",
 [L+x for x in ("file_utils.cc", "transducer.cc", "trans_exe.cc", "compression.h", "tmx_compiler.cc")],
 [("file header", "readShared, writeTransducerSet, TMXCompiler::write"), ("transducer header", "Transducer::read, TransExe::read, Transducer::write"), ("feature bits", "LT_FEATURES, TD_FEATURES")],
 "lockstep abstract interpretation of the readers against header tapes; unknown bits enumerated (each alone, with all known bits, all together)",
 "assumes the input can be repositioned and that old files do not happen to begin with a header")
prop("P06", "A serialised object is restored exactly",
 "Deserialising what was serialised gives an alphabet, transducer or pattern list with the same contents, whatever it holds, and consumes exactly what was written. Every type that can be serialised is read back element by element in the order and type in which it was written.",
 ["inputs"], "every instantiation of the serialiser templates in the library, containers of any size, any contents",
 "Serialisation is used by other programs (apertium's tagger) and by no test here.",
 [L+x for x in ("serialiser.h", "deserialiser.h", "alphabet.cc", "transducer.cc", "pattern_list.cc")],
 [("templates", "Serialiser<T>, Deserialiser<T>"), ("classes", "Alphabet/Transducer/PatternList::serialise and deserialise")],
 "lockstep abstract interpretation of serialiser and deserialiser per type, containers of symbolic size",
 "scalar values are P01")
prop("P08", "Copies of library objects are complete and independent of the original",
 "Copying an object of any library class, by construction or by assignment (to itself included), gives an object that holds the same contents as the original. The copy shares no storage with the original that either of them frees, and what the target held before is released, not leaked or reused.",
 ["inputs", "histories"], "every class with its own copy constructor or assignment operator, every member, every path, any contents",
 "Nearly no test copies an object; a forgotten member or shared pointer shows only in programs that copy and then change or destroy one of the two.",
 [L+x for x in ("alphabet.cc", "buffer.h", "node.cc", "node.h", "transducer.cc", "state.cc", "match_state.cc", "match_exe.cc", "match_node.cc", "trans_exe.cc", "regexp_compiler.cc", "entry_token.cc", "pattern_list.cc", "sorted_vector.cc")],
 [("copy/destroy members", "X::copy, X::destroy, X(X const&), X::operator= of every class that defines them")],
 "per-class dataflow (typestate of each member) over the clang CFG of copy constructors, assignments and the helpers they call",
 "decides member completeness, element-wise copying, storage ownership and self-assignment; two interior-pointer defects are listed as known findings")
prop("P15", "No object starts out with an indeterminate value",
 "Whatever constructor makes an object of a library class, every number, flag and pointer in it has a defined value before anything reads it. Results therefore never depend on what happened to be in memory.",
 ["inputs", "histories"], "every constructor of every class of the library and the tools, every path through it",
 "An uninitialised member usually reads as zero in a test process, so tests pass whatever the code does.",
 [L+"*.h", L+"*.cc"], [("constructors and in-class initialisers", "all classes of the library")],
 "definite-initialisation dataflow over constructors (initialiser lists, bodies and helpers they call)",
 "members of scalar and pointer type; containers initialise themselves")
prop("P12", "Command-line options and file arguments do what they are documented to do",
 "For every lt-* tool, each documented option (short and long form) and each relevant environment variable reaches exactly the processing step, mode or setting it is documented to control, and nothing else does. Options that contradict each other, undeclared options, a wrong number of file arguments and invalid option values are refused with a failure status. The input and output files named on the command line are the ones the step reads and writes, in their documented roles.",
 ["inputs"], "every tool, every option alone and every pair of options (triples of mode options in the thorough check), with and without the optional file arguments and environment variables",
 "The tests run each tool with a few fixed option sets; a swapped key, file index or mode shows only for the combination nobody tried.",
 [L+x for x in ("lt_proc.cc", "lt_comp.cc", "lt_expand.cc", "lt_trim.cc", "lt_print.cc", "lt_append.cc", "lt_compose.cc", "lt_restrict.cc", "lt_paradigm.cc", "lt_merge.cc", "lt_tmxcomp.cc", "lt_tmxproc.cc", "lt_invert.cc", "lt_apply_acx.cc", "cli.cc", "cli.h")],
 [("tool front ends", "main() of every tool"), ("option parser", "CLI::add_*_arg, CLI::parse_args"), ("settings", "set* members of FSTProcessor, Compiler, Expander, AttCompiler, TMXCompiler")],
 "disjunctive constant propagation through main() per enumerated command line, compared with a table of the documented meaning; call-graph reachability for the fields behind the settings",
 "the table of documented meanings is written from the man pages and usage texts; the value each setting has inside the engine is followed up to the field and the existence of a reader in each mode, not its effect")
prop("P11", "A failure is reported and ends the run with a failure status",
 "When a file named on a tool's command line cannot be opened, when an XML input (dictionary, ACX, ICX, RCX, TMX or character file) cannot be read or is not well-formed, when a dictionary is invalid or an AT&T line is malformed, or when an exception reaches the top of a tool, the tool says so and ends with a nonzero status. No code path that has reported an error carries on as if nothing had happened or ends with status 0.",
 ["inputs", "faults"], "every tool, every call that opens or parses an input, every error message in the library and every path after it",
 "Tests run tools on good input; each error path needs its own broken input, and a missing exit() goes unnoticed because the message is still printed.",
 [L+"*.cc"], [("tool front ends", "main() of every tool"), ("error paths", "XMLParseUtil::error_and_die, open_or_exit, openInBinFile/openOutBinFile, Compiler, Expander, AttCompiler, TMXCompiler, readACX, FSTProcessor::parseICX/parseRCX")],
 "path-sensitive dataflow (typestate ok/reported/failed) over the clang CFGs, interprocedural, one assumed failure at a time",
 "not covered: errors while writing, truncated binaries, inputs on which a tool does not terminate")
prop("P17", "lt-comp, lt-expand and lt-restrict select exactly the entries admitted",
 "For every entry of a dictionary, lt-comp keeps it exactly when its r, i, alt, v, vl and vr attributes admit the direction and the variants asked for, with its left and right sides in the roles of that direction and its weight counted once; a unified compilation keeps every entry that is not ignored and marks it so that lt-restrict then keeps exactly the entries admitted by the direction and variants it is given. lt-expand shows each form with the direction mark its parts admit. Entries that are not selected, empty entries included, are passed over without touching their neighbours.",
 ["inputs"], "every combination of the restriction attributes of an entry, of the direction and of the selected variants, and entries of up to four parts for the combination of directions",
 "There are thousands of combinations of attributes and options; the tests try about ten.",
 [L+x for x in ("compiler.cc", "expander.cc", "lt_restrict.cc", "lt_comp.cc")],
 [("entry selection", "Compiler::procEntry, filterEntry, symbolFilters; Expander::procEntry, append"), ("direction", "Compiler::matchTransduction"), ("restriction", "lt_restrict main()")],
 "disjunctive constant propagation over the clang CFGs per combination of attributes and options, compared with the documented selection table",
 "quick: entries with up to two restriction attributes and six option sets; thorough: up to four attributes and all option sets. The number of parts and symbols per entry is bounded by small numbers; the code treats all further ones in the same loop")
prop("P18", "Each element of the dictionary format means what it is documented to mean",
 "In lt-comp and lt-expand, text, <b/>, <j/>, <a/>, <g>, <m/>, <s/> (and in separable dictionaries <t/>, <w/>, <d/>, <f/> in lt-comp) contribute exactly their documented symbols to the side they stand in; <i>, <ig>, <p>, <par> and <re> contribute their parts to an entry in document order, and <pardef>, <section>, <sdef> and <alphabet> determine where entries go and which symbols and letters exist. Undefined symbols and paradigms, a paradigm that refers to itself, content in elements that must be empty, elements in the wrong place and sections without id or type are refused. lt-expand escapes exactly the special characters of its output, wherever they stand.",
 ["inputs"], "every element name in every context, empty or not, with and without keep-boundaries, in separable and other dictionaries; every sequence of up to three parts in an entry",
 "The tests use the common elements in common positions; rare elements, empty elements and refusals are not exercised.",
 [L+x for x in ("compiler.cc", "expander.cc", "entry_token.cc", "xml_parse_util.cc")],
 [("element handlers", "Compiler/Expander::procNode, readString, procIdentity, procTransduction, procPar, procParDef, procSection, procAlphabet, procRegexp"), ("assembly of an entry", "Compiler::insertEntryTokens")],
 "disjunctive constant propagation over the clang CFGs per element, with the XML reader modelled as a known sequence of nodes",
 "libxml2 is assumed to deliver nodes as documented; how a regular expression is compiled is not covered")
prop("P14", "What is output for a word does not depend on the words before it",
 "In every mode of lt-proc, lt-tmxproc and lt-merge, the output for a word (token, segment) depends on that word, the text it is joined with and the options, not on words or segments processed before: nothing a word left behind (flags, lengths, matches, numbers, recycled buffers) is read for a later one. Processing changes neither the loaded dictionary nor the state words start from.",
 ["inputs", "histories"], "every processing mode, every variable and member that lives longer than one word, every path from the end of one word through the next",
 "Tests process short texts; a value left over shows only for particular pairs of words in a particular order.",
 [L+x for x in ("fst_processor.cc", "fst_processor.h", "stream_reader.cc", "stream_reader.h", "state.cc", "state.h")],
 [("processing modes", "FSTProcessor::analysis, tm_analysis, generation, transliteration, bilingual, SAO, quoteMerge, quoteUnmerge"), ("tokens", "StreamReader::next"), ("recycled buffers", "State::new_sequence and its users")],
 "stale-value dataflow over the clang CFGs: at each word boundary every carried variable is marked, a read of a marked variable is a violation; effect analysis for members, statics and the dictionary",
 "text that has been read and not yet written (queues, look-ahead buffer) is carried on purpose and belongs to P07; counters of positions in mode transliteration are followed as flags and strings only")
prop("P07", "Every NUL-terminated segment gives one NUL-terminated, flushed segment",
 "With null flushing, and in the modes that always honour it, each NUL in the input ends a segment: exactly one NUL is written for it, flushed before any more input is read, after everything that belongs to the segment and before anything that does not. No reader of words, blanks, tags or escapes reads beyond a NUL, whatever the text before it looks like, and no text or blank of one segment is kept for the next.",
 ["inputs", "schedules", "histories"], "every function that takes characters from the input stream, every mode and wrapper, every path, with a NUL possible at every read",
 "A NUL can come at any place in the stream, in the middle of a tag, blank, escape or word; the tests put it after complete words.",
 [L+x for x in ("fst_processor.cc", "stream_reader.cc", "input_file.cc")],
 [("stream readers", "InputFile::readBlock, finishWBlank, readBlank; StreamReader::next; FSTProcessor::readAnalysis, readTMAnalysis, readSAO, readTransliterationBlank, readTransliterationWord"), ("modes", "FSTProcessor::analysis, tm_analysis, SAO, transliteration, generation, bilingual, quoteMerge, quoteUnmerge"), ("wrappers", "*_wrapper_null_flush, maybeFlush")],
 "path-sensitive dataflow over the clang CFGs with the next character of the stream as NUL, end of file or another character, put-back characters, queues known to be empty and the NUL/flush state of the output",
 "assumes that no set of special characters contains NUL and that U+FFFF is not in the text; lt-tmxproc text that is pending when a segment ends inside a possible match is not followed (known loss, see DESIGN.md)")

prop("P10", "Working in several threads gives the result of working in one",
 "Tasks that run at the same time (one per section with --jobs or LT_JOBS in lt-comp and lt-compose) share nothing that one of them, or the thread that started them, changes meanwhile: no argument, captured variable, member or static, in anything they call. Every thread is waited for before what it works on is used and before the function that started it ends, and the same operations are performed with and without threads.",
 ["schedules", "inputs"], "every schedule of the tasks and of the thread that starts them, any number of sections; every function reachable from a task",
 "A race shows on few schedules, and the tests never use several threads.",
 [L+x for x in ("compiler.cc", "lt_compose.cc", "transducer.cc", "sorted_vector.hpp", "alphabet.cc")],
 [("starting and waiting", "Compiler::parse, compose() of lt-compose"), ("what tasks run", "Transducer::minimize, determinize, reverse, closure_all, sorted_vector")],
 "interprocedural effect analysis (what each function may change, in terms of parameters, this, statics, captures) and path-sensitive dataflow from the start of a task to where it is waited for",
 "the standard library's containers are taken to be free of hidden shared state; locks and atomics are taken to be used correctly")

prop("P09", "Weights survive every operation and are all counted in a run",
 "A transition or final state that an operation (joining finals, reversing, minimising, union, insertion, optional and repetition, inversion, alphabet update, ACX, trimming, composing, restricting, AT&T conversion) makes from others carries their weight, added up where it is made from several (of the two in composition; of the analyser in trimming), and replacing final states loses none of their weights. When a transducer is run, the weight of a reading is the sum of the weights of every transition on its path (those without input or output, and those before a compound boundary, included) plus that of its final state, counted from zero for each reading.",
 ["inputs"], "every transducer and every weight; every place that creates transitions or final states and every place that follows them",
 "Tests use a handful of weighted paths, mostly with the weight in one place.",
 [L+x for x in ("transducer.cc", "state.cc", "att_compiler.cc", "lt_trim.cc", "lt_compose.cc", "node.cc")],
 [("creating", "Transducer::linkStates, insertTransducer, joinFinals, reverse, determinize, optional, trim, compose, invert, updateAlphabet, applyACX, moveLemqsLast; AttCompiler::_extract_transducer"), ("running", "State::apply_into, apply_into_override, epsilonClosure, restartFinals, filterFinalsArray")],
 "provenance analysis (each label, target and weight traced to the transition it is taken from, through locals, containers and helpers) and path-sensitive dataflow over final states and over steps of a run",
 "which paths an operation keeps is not decided (P30); two transitions with equal label and target but different weights: the first one is kept, by design of linkStates; weights written in dictionaries (the attribute w) are followed from Compiler's entry code only as far as the arc they are put on")

T = [L+"transducer.cc"]
na("P30", "Determinising, minimising, reversing and joining keep the set of string pairs",
 "Every operation on transducers that is meant to keep the relation (determinize, minimize, reverse twice, joinFinals, removal of empty transitions) leaves the set of string pairs and the weight of each pair as it was, and union, concatenation, optional and closure give exactly the relation their names promise.",
 ["inputs"], "all transducers", "Tests compile a few dictionaries and look at a few words.", T,
 [("operations", "Transducer::determinize, minimize, reverse, joinFinals, unionWith, concatenate, optional, oneOrMore, zeroOrMore")],
 "equality of the relations of two automata of unbounded size is a property of subset-construction and reachability values computed at run time; no dataflow, type or shape argument in reach relates the language of the result to that of the input (only the clause that copied arcs keep their weight is decidable: P09)")
na("P31", "Trimming, composing and subtracting give exactly the relation they promise",
 "lt-trim keeps exactly the analyses whose lexical form the bilingual dictionary can look up, lt-compose gives exactly the composed relation, and subtraction removes exactly the given paths.",
 ["inputs"], "all pairs of transducers", "Each test has two small dictionaries.", [L+"transducer.cc", L+"lt_trim.cc", L+"lt_compose.cc"],
 [("product constructions", "Transducer::trim, intersect, compose, subtract, moveLemqsLast, copyWithTagsFirst")],
 "correctness of a worklist product construction quantifies over the reachable pairs of states of two unbounded automata")
na("P32", "Analysis finds every reading of the longest match, at every position",
 "For every text and dictionary, the analyser outputs for each token the readings of the longest prefix that is an entry and ends at a word boundary, all of them and no others, in the case the options ask for.",
 ["inputs"], "all texts and dictionaries", "Tests sample a few words.", [L+"fst_processor.cc", L+"state.cc"],
 [("longest match", "FSTProcessor::analysis, State::step, State::filterFinals")],
 "the reading set is the value of a run of the automaton on the text; which states survive is decided by data, not by the shape of the code")
na("P33", "Generation inverts analysis",
 "Analysing a text and generating from one of its readings with the same dictionary compiled in the other direction gives the surface form back.",
 ["inputs"], "all dictionaries and words", "Round trips are not tested.", [L+"fst_processor.cc", L+"compiler.cc"],
 [("both directions", "FSTProcessor::generation, Compiler::parse")],
 "round-trip equality of two runs of automata over data; the clauses visible in the code (the roles of the sides, the case and mark handling) are in P17 and P18")
na("P34", "N-best output keeps exactly the best classes, in order of weight",
 "With -N and -L exactly the readings of the N best readings or weight classes are printed, sorted by weight.",
 ["inputs"], "all weighted dictionaries", "Tests have a few weighted entries.", [L+"state.cc"],
 [("ranking", "State::NFinals, State::filterFinals")],
 "an ordering of run-time numbers; no static bound relates the printed sequence to the sorted one beyond the comparator handed to std::sort")
na("P35", "Compound analysis finds exactly the admissible splittings",
 "A word is analysed as a compound exactly when it splits into elements whose left parts carry the left symbol and whose last part may stand at the end, with the fewest elements.",
 ["inputs"], "all words and dictionaries", "Tests have a handful of compounds.", [L+"fst_processor.cc", L+"state.cc"],
 [("decomposition", "FSTProcessor::compoundAnalysis, State::pruneCompounds, restartFinals")],
 "depends on which restarted states survive for the given text; only its independence of earlier words (P14) is visible in the code")
na("P36", "Text outside the matches of a translation memory is passed through unchanged",
 "lt-tmxproc outputs everything that is not part of a match exactly as it was read.",
 ["inputs"], "all texts and memories", "A few texts are tested.", [L+"fst_processor.cc"],
 [("translation memory", "FSTProcessor::tm_analysis, readTMAnalysis")],
 "a conservation law over buffer positions computed at run time; it also does not hold today for text pending when a segment ends (see DESIGN.md)")
na("P37", "Every run ends, in memory bounded by the dictionary and the longest word",
 "No input makes a tool loop for ever, and lt-proc needs memory bounded by its dictionary and the longest token.",
 ["inputs"], "all inputs", "No test measures this.", [L+"fst_processor.cc", L+"state.cc", L+"transducer.cc"],
 [("loops", "all reading loops and worklists")],
 "termination measures of the worklist algorithms and sizes of state sets are run-time quantities; cyclic dictionaries with empty loops make some of them genuinely unbounded")
