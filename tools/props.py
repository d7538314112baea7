NOTES = ('Every check builds /repo\'s working tree with AddressSanitizer and UBSan (or ThreadSanitizer, or without '
         'sanitizers for valgrind) outside the tree, drives the real tools with seeded random workloads and lets independent reference '
         'monitors written in Python judge what they print; any sanitizer report is a violation too.')
TRUST = ('Exploration: random, seeded workloads over the real programs, judged by a reference monitor that shares no '
         'code with them; trusts the reference semantics in lib/ and the sanitizers. ')
PROPS = [
 dict(id='C01', title='Compiling a dictionary yields exactly the pairs and weights it describes',
  statement='''For every dictionary accepted by lt-comp, direction (lr, rl) and alt/variant selection, each section of the
   compiled transducer relates exactly the (input, output) strings that the selected entries, paradigms and regular
   expressions of the XML describe: none lost, none added, whatever the sharing of prefixes, suffixes and paradigms.
   Each pair carries the smallest total of the entry weights on a derivation of it.
   In dictionaries for apertium-separable a wildcard stands for one or more
   characters or tags, and every pair may end in a word boundary. A dictionary in which an entry could match the empty string or start with a blank, or a regular expression is malformed, is refused.''',
  over=['inputs', 'configurations'],
  for_all='all dictionaries (entries, nested and repeated paradigms, regexes, identities, weights, direction and variant '
          'attributes, any Unicode letters) and all command-line selections',
  why='The tests compile a few dozen fixed dictionaries and compare some lookups; loss or leakage needs particular '
      'combinations of shared paradigms, empty sides, weights and filters.',
  files=['lttoolbox/compiler.cc', 'lttoolbox/transducer.cc', 'lttoolbox/regexp_compiler.cc', 'lttoolbox/lt_comp.cc'],
  mechanism=[('entry tokens to transducer', 'lttoolbox/compiler.cc: Compiler::insertEntryTokens, matchTransduction'),
             ('determinise and minimise', 'lttoolbox/transducer.cc: Transducer::minimize'),
             ('regular expressions', 'lttoolbox/regexp_compiler.cc')],
  observe=['the .bin file, read by an independent reader'],
  note=TRUST + 'The relation is compared exactly for finite dictionaries and up to a length bound for cyclic ones.'),
 dict(id='C02', title='Expanding a dictionary lists exactly its entries, escaped',
  statement='''lt-expand prints exactly the pairs a dictionary describes, with every direction restriction marked
   (`:>:`, `:<:`, `:`), special characters escaped, for every alt/variant selection, and once per derivation at least; a pair is
   listed as valid in a direction exactly when compiling in that direction with the same selection contains it (except that v=
   restricts an entry to left-to-right when its variant is not the selected one, where compilation drops it). A regular
   expression is shown as such after `__REGEXP__`, its special characters escaped.''',
  over=['inputs', 'configurations'],
  for_all='all acyclic dictionaries and selections',
  why='The tests expand a handful of dictionaries; escapes, one-directional entries followed by paradigms and variant '
      'filters interact in combinations they do not contain.',
  files=['lttoolbox/expander.cc', 'lttoolbox/lt_expand.cc'],
  mechanism=[('cartesian product of paradigm expansions with directions', 'lttoolbox/expander.cc: Expander::procEntry')],
  observe=['stdout of lt-expand'],
  note=TRUST + 'Dictionaries with regular expressions are compared up to the REGEXP placeholder.'),
 dict(id='C06', title='Analysis conserves the text: nothing lost, added, reordered or unescaped',
  statement='''For every text and dictionary, the stream lt-proc prints when analysing is well formed, and its surface forms
   together with the text between them are the input text: every character in order, none lost, duplicated or changed,
   escapes intact.  Every superblank comes through unchanged, exactly once and in order.''',
  over=['inputs', 'configurations'],
  for_all='all input streams (any Unicode text, escapes, superblanks, word blanks, soft hyphens, texts that end anywhere) '
          'and dictionaries with all section types',
  why='Tests sample some dozens of short inputs; losses happen for rewinds, blanks inside multiwords, ends of input and '
      'characters outside the BMP in combinations with particular dictionaries.',
  files=['lttoolbox/fst_processor.cc', 'lttoolbox/input_file.cc', 'lttoolbox/buffer.h'],
  mechanism=[('analysis loop with rewinding', 'lttoolbox/fst_processor.cc: FSTProcessor::analysis'),
             ('blank queue', 'lttoolbox/fst_processor.cc: readAnalysis, flushBlanks')],
  observe=['stdout of lt-proc'],
  note=TRUST + 'White space next to superblanks inside a multiword may be duplicated by design and is not compared exactly.'),
 dict(id='C07', title='Analysis is left-to-right longest match with exactly the dictionary analyses',
  statement='''lt-proc segments a text from left to right into the longest dictionary matches that end at a word boundary
   (anywhere for inconditional, postblank and preblank sections), and prints for each exactly the analyses the dictionary has for it,
   without repetition and ordered by weight; other runs of alphabetic characters come out as one unknown word.
   Upper case in the text matches lower case in the dictionary and is carried over to the analysis, unless -c (case
   sensitive) or -w (dictionary case) says otherwise.''',
  over=['inputs', 'configurations'],
  for_all='all texts, dictionaries and case options',
  why='Tests check fixed words; overlap of entries, backtracking, case variants and weights interact.',
  files=['lttoolbox/fst_processor.cc', 'lttoolbox/state.cc', 'lttoolbox/node.cc', 'lttoolbox/trans_exe.cc'],
  mechanism=[('state stepping and case folding', 'lttoolbox/state.cc: State::step, apply_into'),
             ('longest match bookkeeping', 'lttoolbox/fst_processor.cc: FSTProcessor::analysis'),
             ('output rendering', 'lttoolbox/state.cc: State::filterFinals')],
  observe=['stdout of lt-proc'],
  note=TRUST + 'Dictionaries are finite; texts mix special section types only with standard ones.'),
 dict(id='C08', title='Generation prints exactly the surface forms of each lexical unit',
  statement='''For every lexical unit in the input, lt-proc in generation mode (-g, -d, -n, -l, -m, -C) prints exactly the
   surface forms the dictionary has for its symbols, without repetition and ordered by weight, with the lemma's capitalisation
   carried over; units it does not have, or marked * or @, come out as the mode documents (mark, lemma, tags) with their
   characters escaped exactly once.  Everything between the units is copied unchanged.''',
  over=['inputs', 'configurations'],
  for_all='all streams of lexical units (any characters, escapes, tags, marks, blanks), dictionaries and generation modes',
  why='Tests generate a few fixed units; escapes, capitals outside the BMP, unknown tags and mode-specific marks are '
      'combinations they lack.',
  files=['lttoolbox/fst_processor.cc', 'lttoolbox/stream_reader.cc', 'lttoolbox/state.cc'],
  mechanism=[('generation loop', 'lttoolbox/fst_processor.cc: FSTProcessor::generation'),
             ('lexical unit reader', 'lttoolbox/stream_reader.cc: StreamReader::next')],
  observe=['stdout of lt-proc'],
  note=TRUST + 'Units without a lemma and lemmas like "aB" are not judged.'),
 dict(id='C09', title='Bilingual lookup gives exactly the dictionary translations of each unit',
  statement='''For every lexical unit, lt-proc -b (and -o, -O, with -g, -d, -n) prints the source reading followed by exactly
   the translations the bilingual dictionary has for it, ordered by weight and without repetition: the longest prefix of its symbols that the
   dictionary has is translated (the wildcard <ANY_CHAR> stands for any one character, which it copies), the tags after it are carried over to every translation, the capitalisation of the source is carried over,
   and units the dictionary does not have, or that are already marked unknown, are marked and copied.  Blanks and word blanks
   between units are copied unchanged.''',
  over=['inputs', 'configurations'],
  for_all='all streams of lexical units (several readings, marks, unknown tags, escapes, any Unicode letters), dictionaries and modes',
  why='Tests look up a few fixed units; queue tags, case transfer, marks and escapes combine in ways they do not contain.',
  files=['lttoolbox/fst_processor.cc', 'lttoolbox/stream_reader.cc', 'lttoolbox/state.cc'],
  mechanism=[('bilingual lookup loop', 'lttoolbox/fst_processor.cc: FSTProcessor::bilingual'),
             ('tag queue', 'lttoolbox/fst_processor.cc: FSTProcessor::compose')],
  observe=['stdout of lt-proc'],
  note=TRUST + 'Readings that start with = are not judged.'),
 dict(id='C10', title='Transliteration and postgeneration rewrite exactly the longest rule matches',
  statement='''lt-proc -t, -p and -x rewrite a text from left to right, at every point where a rule may start taking
   the longest match of the dictionary that ends at a word boundary, and print the dictionary's output for it with the capitalisation
   carried over; everything else (unmatched text, tags, escapes, blanks, white space) is copied unchanged and in order.  The identifiers of
   word blanks are never lost: words joined by a rewrite carry the identifiers of all words it consumed.''',
  over=['inputs', 'configurations'],
  for_all='all rule dictionaries, texts with any Unicode letters, escapes, tags, blanks and word blanks, and modes',
  why='Tests run some dozens of fixed texts; overlapping matches, rewrites of other length, ends of input and word blanks interact.',
  files=['lttoolbox/fst_processor.cc', 'lttoolbox/state.cc', 'lttoolbox/input_file.cc'],
  mechanism=[('rewriting over a queue of words', 'lttoolbox/fst_processor.cc: FSTProcessor::transliteration, transliteration_drop_tilde'),
             ('reading words and blanks', 'lttoolbox/fst_processor.cc: readTransliterationWord'),
             ('combining word blanks', 'lttoolbox/fst_processor.cc: combineWordblanks')],
  observe=['stdout of lt-proc'],
  note=TRUST + 'Rules with several outputs of equal weight are judged as a set.'),
 dict(id='C11', title='With null flush every segment is processed as if alone, and answered at once',
  statement='''With -z, an lt-proc process of any history answers each NUL-terminated segment with exactly what a new process
   prints for that segment, followed by one NUL, and does so as soon as it has read the NUL, without waiting for further input; a
   malformed segment (unclosed blank, tag or lexical unit, trailing backslash) that does not end the process does not affect the segments
   after it.  For well-formed segments the answer is also what a run without -z prints.''',
  over=['histories', 'inputs', 'configurations'],
  for_all='all histories of segments, well-formed or truncated anywhere, in analysis, generation, bilingual, transliteration and '
          'postgeneration modes',
  why='Tests send a few segments; state that survives a segment (blank queues, buffers, look-ahead) shows only after particular '
      'histories.',
  files=['lttoolbox/fst_processor.cc', 'lttoolbox/input_file.cc', 'lttoolbox/stream_reader.cc'],
  mechanism=[('null-flush wrappers', 'lttoolbox/fst_processor.cc: analysis_wrapper_null_flush, generation_wrapper_null_flush'),
             ('end of segment in blocks', 'lttoolbox/input_file.cc: readBlock, finishWBlank, readBlank')],
  observe=['stdout of lt-proc, per segment and in time'],
  note=TRUST + 'The analyser prints one more empty segment at the end of its input, which is accepted.'),
 dict(id='C05', title='ATT text and compiled transducers describe the same relation, both ways',
  statement='''For every ATT transducer lt-comp accepts, in either direction, with or without splitting into sections (-S) and HFST
   symbols (-H), the compiled file relates exactly the strings the text describes, with the smallest path weight: no path lost or
   added, whichever section it goes to, and words go to main@standard, paths that start with punctuation to final@inconditional.  lt-print of any compiled
   file describes the same relation per section, and compiling what it printed gives it again.''',
  over=['inputs', 'configurations'],
  for_all='all weighted transducers (cyclic or not, several per file, any state numbering, tags, multi-character labels, blanks, '
          'non-BMP letters) and options',
  why='The tests compile a few ATT files; the loss of a path needs particular sharing between the two sections or state '
      'numberings, initial epsilons, or symbols.',
  files=['lttoolbox/att_compiler.cc', 'lttoolbox/lt_print.cc', 'lttoolbox/transducer.cc', 'lttoolbox/lt_comp.cc'],
  mechanism=[('classification and extraction of the two sections', 'lttoolbox/att_compiler.cc: classify_forwards, classify_backwards, extract_transducer'),
             ('printing', 'lttoolbox/transducer.cc: Transducer::show')],
  observe=['the .bin file, read by an independent reader', 'stdout of lt-print'],
  note=TRUST + 'Acyclic relations are compared completely, cyclic ones up to a length; transducers that may be accepted without '
       'reading a letter may be refused when splitting.'),
 dict(id='C12', title='Trimming keeps exactly the analyses the bilingual dictionary covers',
  statement='''lt-trim keeps every analysis of the monolingual dictionary whose parts (split at joins, the invariable part moved
   behind the head, compound tags ignored) each start with an entry of the bilingual dictionary followed only by tags, and drops every analysis
   that is not covered in this way.  What is kept keeps its surface form, its tags, its section and its weight, and the alphabet stays the same; no pair is
   added.  With -s, a section is trimmed with the section of the same name only.''',
  over=['inputs', 'configurations'],
  for_all='all pairs of monolingual and bilingual dictionaries, with joins, invariable parts, weights, epsilons anywhere, and sections',
  why='The tests trim a few fixed pairs and look at single entries; leaks need coincidences of prefixes, joins and groups.',
  files=['lttoolbox/transducer.cc', 'lttoolbox/lt_trim.cc'],
  mechanism=[('intersection with the bilingual prefix language', 'lttoolbox/transducer.cc: Transducer::trim, appendDotStar, moveLemqsLast')],
  observe=['the trimmed .bin file, read by an independent reader'],
  note=TRUST + 'Between the first and the last part of a joined analysis, parts that are a proper prefix of an entry may or may not be kept.'),
 dict(id='C13', title='lt-compose relates exactly the composed strings, with added weights',
  statement='''For every pair of compiled transducers, lt-compose (with or without -i, -a) writes per section of the first a transducer that relates
   x to z exactly when the first relates x to some y and the second turns y into z (y as a whole; with -a any
   number of parts of y, none included, the rest of it copied), with the smallest sum of the two weights; no pair is lost or added, epsilons and loops on either side
   included.''',
  over=['inputs', 'configurations'],
  for_all='all pairs of weighted transducers (epsilons anywhere, loops, tags known to one side only, several sections) and options',
  why='The tests compose a few fixed files; loss needs particular alignments of epsilons, shared states and tags.',
  files=['lttoolbox/transducer.cc', 'lttoolbox/lt_compose.cc'],
  mechanism=[('composition by a search over state triples', 'lttoolbox/transducer.cc: Transducer::compose'),
             ('inversion around it', 'lttoolbox/transducer.cc: Transducer::invert')],
  observe=['the composed .bin file, read by an independent reader'],
  note=TRUST + 'Acyclic relations are compared completely, cyclic ones up to a length.'),
 dict(id='C14', title='lt-append, lt-invert and lt-restrict change only what they say',
  statement='''lt-append writes the sections of both files, taking a section both have from the second (from the first with -k), and
   the alphabetic characters of both; lt-invert swaps the two sides of every pair of every section; lt-restrict applied to a dictionary compiled
   with `lt-comp u` writes what compiling the dictionary for that direction and alt/variant selection gives.  Weights, section names and types, and the set of
   alphabetic characters stay.''',
  over=['inputs', 'configurations'],
  for_all='all compiled transducers (any symbols, section names, weights, loops), dictionaries and selections',
  why='The tests append, invert and restrict a few fixed dictionaries.',
  files=['lttoolbox/lt_append.cc', 'lttoolbox/lt_invert.cc', 'lttoolbox/lt_restrict.cc', 'lttoolbox/transducer.cc', 'lttoolbox/file_utils.cc'],
  mechanism=[('renumbering symbols', 'lttoolbox/transducer.cc: Transducer::updateAlphabet'),
             ('applying restriction tags', 'lttoolbox/lt_restrict.cc')],
  observe=['the written .bin file, read by an independent reader'],
  note=TRUST + 'Cyclic relations are compared up to a length.'),
 dict(id='C15', title='Equivalent characters are accepted exactly where the original is',
  statement='''Compiling with, or applying, a table of equivalent characters (ACX) accepts in addition exactly the strings made by
   replacing characters of an accepted input by one of their equivalents, with the same outputs and weights: no entry is lost, no words are mixed, and the
   other side stays as it was.''',
  over=['inputs', 'configurations'],
  for_all='all transducers or dictionaries and all tables of single characters, inside or outside the BMP',
  why='The tests apply one table to one dictionary.',
  files=['lttoolbox/acx.cc', 'lttoolbox/lt_apply_acx.cc', 'lttoolbox/transducer.cc', 'lttoolbox/compiler.cc'],
  mechanism=[('adding parallel arcs', 'lttoolbox/transducer.cc: Transducer::applyACX'),
             ('reading the table', 'lttoolbox/acx.cc: readACX')],
  observe=['the .bin file, read by an independent reader'],
  note=TRUST + 'Cyclic relations are compared up to a length.'),
 dict(id='C16', title='lt-paradigm lists exactly the pairs whose lexical side matches',
  statement='''For every pattern of literals, `*`, `<*>`, `<*-x>`, `<*|x|y>` and `<|x|y>`, lt-paradigm lists every pair of the transducer
   (if it has loops, at least the pairs of paths that pass no state twice) whose lexical side matches the pattern as a whole (the right side of an analyser with -a), no other pair, sorted and
   without repetition with -s, and answers patterns one by one, each answer ended by an empty line or, with -z, a NUL.
   Tags given with -e do not match wildcards.''',
  over=['inputs', 'configurations', 'histories'],
  for_all='all transducers and sequences of patterns',
  why='The tests ask a few patterns of one dictionary.',
  files=['lttoolbox/lt_paradigm.cc', 'lttoolbox/transducer.cc'],
  mechanism=[('compiling a pattern to a transducer', 'lttoolbox/lt_paradigm.cc'),
             ('intersection by composition and printing paths', 'lttoolbox/transducer.cc: Transducer::compose, Transducer::trim')],
  observe=['stdout of lt-paradigm'],
  note=TRUST + 'Tags named in the pattern and with -e at the same time are not judged.'),
 dict(id='C17', title='lt-merge joins exactly the marked spans; unmerging restores their text',
  statement='''lt-merge replaces each span from a unit with MERGE_BEG to the next with MERGE_END by one unit whose surface form is
   the text of the span, escaped, and copies everything else unchanged; lt-merge -u turns each merged unit back into
   that text, exactly.  No text is lost when a span is unfinished or the input ends anywhere between units.''',
  over=['inputs', 'histories'],
  for_all='all streams of lexical units with blanks, word blanks, escapes and NUL-separated segments',
  why='The tests merge a few fixed streams; escapes in blanks, marks and ends of input interact.',
  files=['lttoolbox/lt_merge.cc', 'lttoolbox/fst_processor.cc', 'lttoolbox/stream_reader.cc'],
  mechanism=[('merging', 'lttoolbox/fst_processor.cc: FSTProcessor::quoteMerge'),
             ('unmerging', 'lttoolbox/fst_processor.cc: FSTProcessor::quoteUnmerge')],
  observe=['stdout of lt-merge'],
  note=TRUST + 'Spans whose text starts like a mark (*, #, %, =) are not sent through the round trip.'),
 dict(id='C18', title='-N and -L keep the best readings and weight classes; -W shows true weights',
  statement='''With -N n, at most the n readings of smallest weight are printed for each word; with -L n, exactly the readings
   of the n smallest weight classes; together, both hold.  A reading counts once, the order is by weight, and no reading within
   the limits is left out.  With -W, the weight shown for every reading is the total weight of its best derivation.''',
  over=['inputs', 'configurations'],
  for_all='all weighted dictionaries, words and limits, in analysis, generation and bilingual lookup',
  why='The tests use two or three weighted dictionaries.',
  files=['lttoolbox/state.cc', 'lttoolbox/fst_processor.cc', 'lttoolbox/node.cc'],
  mechanism=[('n best and weight classes', 'lttoolbox/state.cc: State::NFinals, filterFinals'),
             ('weights along paths', 'lttoolbox/state.cc: State::apply, epsilonClosure')],
  observe=['stdout of lt-proc'],
  note=TRUST + 'Weights are small multiples of 1/4, where sums are exact.'),
 dict(id='C20', title='Parallel compilation and composition is race-free and changes no result',
  statement='''lt-comp -j, lt-compose -j (and LT_JOBS), with any number of sections and LT_MAX_SECTION_ENTRIES, run without data
   races or deadlock under every schedule and write transducers with exactly the relation the sequential run would have.''',
  over=['schedules', 'inputs', 'configurations'],
  for_all='all dictionaries and transducers with several sections, and all interleavings of the section threads',
  why='A data race on the shared alphabet or section map shows in one run of many thousands; the tests compare single outputs.',
  files=['lttoolbox/compiler.cc', 'lttoolbox/lt_compose.cc', 'lttoolbox/transducer.cc', 'lttoolbox/alphabet.cc'],
  mechanism=[('one thread per section', 'lttoolbox/compiler.cc: Compiler::parse; lttoolbox/lt_compose.cc'),
             ('the shared alphabet', 'lttoolbox/alphabet.cc: Alphabet::operator()')],
  observe=['ThreadSanitizer reports', 'the written .bin file, read by an independent reader'],
  note=TRUST + 'ThreadSanitizer decides by happens-before, so a race is reported whenever both accesses run, whatever the timing.'),
 dict(id='C03', title='The automaton operations preserve and combine weighted relations exactly',
  statement='''Minimisation, determinisation, writing, serialising, copying and joining finals leave the weighted relation of a
   transducer unchanged (each path keeps its weight, the best weight wins where paths coincide); reversal reverses it; union,
   concatenation, optional, one-or-more, zero-or-more and inserting a path give exactly the union, product, closure or extension
   of the operands.  Minimised transducers have no useless or mergeable states.''',
  over=['inputs', 'histories'],
  for_all='all weighted transducers (with epsilon arcs, cycles, several finals, unreachable states) and sequences of operations',
  why='Every compiled dictionary goes through these operations; the unit tests apply them to two or three small automata.',
  files=['lttoolbox/transducer.cc', 'lttoolbox/transducer.h', 'lttoolbox/alphabet.cc', 'lttoolbox/serialiser.h', 'lttoolbox/deserialiser.h'],
  mechanism=[('minimisation', 'lttoolbox/transducer.cc: Transducer::minimize, determinize, reverse'),
             ('combination', 'lttoolbox/transducer.cc: unionWith, insertTransducer, optional, oneOrMore, zeroOrMore, joinFinals'),
             ('insertion of symbols', 'lttoolbox/transducer.cc: insertSingleTransduction, insertNewSingleTransduction, linkStates')],
  observe=['the transducer after each script of operations, written with Transducer::write and read by an independent reader'],
  note=TRUST + 'The library is driven by a small program (harness/fstops.cc) compiled with the repository sources.'),
 dict(id='C04', title='What is written in the binary formats is read back the same',
  statement='''Numbers, weights and strings written by the library are read back equal, by every pairing of its writers and readers;
   a transducer file (current format with weights, without weights, and the old format without header) read and written again by any tool keeps its
   letters, alphabet, sections and relations, whatever the number of states, symbols, arcs and sections and wherever these fall
   around the 1, 2, 3 and 4 byte encodings.''',
  over=['inputs'],
  for_all='all values in the documented ranges and all transducers, including over 64, 16384 and more states and symbols',
  why='The encodings change at 0x40, 0x4000 and 0x400000; the tests have tiny transducers only.',
  files=['lttoolbox/compression.cc', 'lttoolbox/compression.h', 'lttoolbox/transducer.cc', 'lttoolbox/trans_exe.cc', 'lttoolbox/alphabet.cc',
         'lttoolbox/file_utils.cc', 'lttoolbox/serialiser.h', 'lttoolbox/deserialiser.h', 'lttoolbox/endian_util.h'],
  mechanism=[('number and string codecs', 'lttoolbox/compression.cc'),
             ('transducer records', 'lttoolbox/transducer.cc: Transducer::write, read; lttoolbox/trans_exe.cc: TransExe::read'),
             ('file layout', 'lttoolbox/file_utils.cc: writeTransducerSet, readTransducerSet')],
  observe=['values returned by the readers', 'files written by the tools, decoded by an independent reader', 'stdout of lt-print and lt-proc'],
  note=TRUST + 'Weights are compared with the precision the format keeps (a 30-bit mantissa).'),
 dict(id='C19', title='Memory safety and termination on any input',
  statement='''Whatever the stream, dictionary, ATT file, pattern or XML configuration given to the tools, they never access memory they
   do not own, never run into undefined behaviour and never loop forever: they process the input or refuse it with an error.''',
  over=['inputs', 'configurations'],
  for_all='all byte streams and files, for all tools and modes',
  why='Crashes hide behind particular combinations of escapes, blanks, tags and ends of input.',
  files=['lttoolbox/fst_processor.cc', 'lttoolbox/input_file.cc', 'lttoolbox/state.cc', 'lttoolbox/compiler.cc', 'lttoolbox/att_compiler.cc',
         'lttoolbox/expander.cc', 'lttoolbox/regexp_compiler.cc', 'lttoolbox/stream_reader.cc', 'lttoolbox/tmx_compiler.cc', 'lttoolbox/buffer.h'],
  mechanism=[('reading the stream', 'lttoolbox/input_file.cc; lttoolbox/fst_processor.cc: readAnalysis, readGeneration, readBilingual, readSAO'),
             ('rewinding', 'lttoolbox/buffer.h'),
             ('reading dictionaries', 'lttoolbox/compiler.cc; lttoolbox/att_compiler.cc; lttoolbox/expander.cc')],
  observe=['AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertion reports', 'exit status and running time of every program run'],
  note=TRUST + 'Corrupt .bin files are not fed to the tools (they are the tools own output); dictionaries with loops of empty input '
       'have infinitely many outputs and are excluded; throwing std::runtime_error or an utf8 exception out of main is a refusal.'),
 dict(id='C21', title='Single lookups through the library agree with the dictionary',
  statement='''For every dictionary and lexical unit, FSTProcessor::biltrans, biltransWithQueue and biltransWithoutQueue (with or without
   delimiters) and FSTProcessor::lookup give exactly the dictionary's answers, without repetition and ordered by weight, with the
   capitalisation carried over: the bilingual ones translate the longest prefix the dictionary has and carry the rest over (with its
   length; without a queue the whole unit has to match), keep = marks, return *-marked units as they are and mark what is not found
   with @; lookup translates the whole string or nothing.''',
  over=['inputs', 'configurations'],
  for_all='all dictionaries, units (any characters, escapes, unknown tags), modes and case settings',
  why='No test calls these functions; they are what transfer modules use word by word.',
  files=['lttoolbox/fst_processor.cc', 'lttoolbox/fst_processor.h', 'lttoolbox/symbol_iter.cc'],
  mechanism=[('one step per symbol from the initial state', 'lttoolbox/fst_processor.cc: step_biltrans, biltransWithQueue, lookup'),
             ('splitting a unit into symbols', 'lttoolbox/symbol_iter.cc')],
  observe=['the return values of the functions'],
  note=TRUST + 'biltransfull is not covered: what it should return is not documented.'),
 dict(id='C23', title='Decompounding finds exactly the shortest decompositions of unknown words',
  statement='''With lt-proc -e, a word (a run of alphabetic characters) that has an analysis of its own gets its analyses, where analyses
   marked as compound-only left parts never stand alone.  A word that has none gets exactly the joins (with +) of analyses of consecutive
   parts that cover it, where every part but the last has the left-part tag and the last has the right-part tag, with as few joins as possible and
   at most as many as -M allows (default 4); the weights are added, the result is ordered by weight without repetition, the
   capitalisation is carried over and the control tags are not shown.  Words without a decomposition are unknown words, and all other
   text comes out as without -e.''',
  over=['inputs', 'configurations'],
  for_all='all texts and dictionaries with compound tags, for all case settings and limits',
  why='The tests have a handful of compounds; prunings go wrong for particular overlaps of the parts, weights and characters.',
  files=['lttoolbox/fst_processor.cc', 'lttoolbox/state.cc', 'lttoolbox/state.h'],
  mechanism=[('splitting', 'lttoolbox/fst_processor.cc: compoundAnalysis; lttoolbox/state.cc: restartFinals, pruneCompounds, pruneStatesWithForbiddenSymbol'),
             ('control tags', 'lttoolbox/fst_processor.cc: initDecomposition, calc_initial_state')],
  observe=['stdout of lt-proc -e, compared unit by unit with the enumeration of all decompositions'],
  note=TRUST + 'Words which only have a reading after they are put in lower case as a whole are skipped (undocumented fallback).'),
dict(id='C24', title='Ignored characters leave no trace; restored characters match exactly as listed',
  statement='''When analysing, lt-proc treats a text as if the ignored characters (the soft hyphen, unless -I or -r is given, and all characters of
   the -i files) were not in it, unless they are escaped or inside a superblank.  With -r, a character of the text listed in a restore file matches itself
   and each of its replacements in the dictionary (an upper case character, unless -c is given, also its lower case and the replacements
   of that), and the word gets exactly the analyses of all dictionary words it matches in this way; characters that are not listed match as without -r.
   The text itself is not changed by restoring.  All files given are read, any character may be listed in them, and malformed ones are refused.''',
  over=['inputs', 'configurations'],
  for_all='all texts, dictionaries, ignore and restore files, several at once, with case options',
  why='The tests have one small file of each kind; combinations with case, several files, characters outside the BMP and the default set are '
      'not in them.',
  files=['lttoolbox/fst_processor.cc', 'lttoolbox/lt_proc.cc', 'lttoolbox/state.cc', 'lttoolbox/xml_parse_util.cc'],
  mechanism=[('reading the files', 'lttoolbox/fst_processor.cc: parseICX, procNodeICX, parseRCX, procNodeRCX'),
             ('dropping ignored characters', 'lttoolbox/fst_processor.cc: readAnalysis'),
             ('stepping with alternatives', 'lttoolbox/fst_processor.cc: analysis; lttoolbox/state.cc: State::apply')],
  observe=['stdout of lt-proc'],
  note=TRUST + 'Words which only have a reading after they are put in lower case as a whole are skipped (undocumented fallback).'),
dict(id='C25', title='Incomplete input or output is never reported as success; channels do not matter',
  statement='''No tool exits with success when one of its files is missing, when a compiled transducer, dictionary, or ACX, ICX, RCX
   or TMX file it reads is cut short anywhere, or when its output cannot be opened or written completely (full device, size limit at any byte, to a
   file or to standard output); it never crashes or hangs on these either.  Otherwise its result is the same bytes whether compiled files and text are given as files, by
   redirection, pipe or FIFO, and whether the result goes to a named file or to standard output.''',
  over=['fault_sequences', 'inputs', 'configurations'],
  for_all='all tools and options, all points at which an input ends or writing fails, and all channels',
  why='The tests only read complete files and write to working ones; a truncated dictionary or a full disk that passes for success breaks '
      'everything built from the result.',
  files=['lttoolbox/file_utils.cc', 'lttoolbox/compression.h', 'lttoolbox/compression.cc', 'lttoolbox/transducer.cc', 'lttoolbox/trans_exe.cc', 'lttoolbox/alphabet.cc',
         'lttoolbox/compiler.cc', 'lttoolbox/expander.cc', 'lttoolbox/xml_walk_util.cc', 'lttoolbox/fst_processor.cc', 'lttoolbox/tmx_compiler.cc'],
  mechanism=[('opening and closing', 'lttoolbox/file_utils.cc: openOutBinFile, openOutTextFile, closeOutFile'),
             ('end of file while reading', 'lttoolbox/compression.h: check_truncated, read_header; lttoolbox/transducer.cc, trans_exe.cc, alphabet.cc: read'),
             ('XML errors', 'lttoolbox/compiler.cc: Compiler::parse; lttoolbox/expander.cc: Expander::expand; lttoolbox/xml_walk_util.cc: load_xml')],
  observe=['exit status', 'the bytes written to files and standard output'],
  note='Fault injection with random positions over all tools; ATT files, where every prefix of lines is a transducer, and text streams are not cut; a missing final newline '
       'of an XML file is no truncation; trusts the kernel to fail writes (RLIMIT_FSIZE, /dev/full).'),
 dict(id='C22', title='Pattern matching finds the lowest-numbered pattern that matches',
  statement='''For every set of patterns built with PatternList (lemmas and tags with wildcards, sequences, labels that stand for
   other patterns) and every sequence of symbols fed to MatchState, classifyFinals gives after every step the smallest id of the
   patterns that match all symbols so far (of patterns that are the same only the smallest id counts; ids given as banned are
   left out), -1 if none does, and the state is empty exactly when no pattern can match any more. A `*` (or a missing lemma or
   tags) matches one or more characters or tags, and the last word of a pattern and of each label may be followed by a queue (`_`, a space or # and any characters). The
   answers do not depend on the other patterns, on how many ways there are to match, on earlier matches, or on whether the list,
   the MatchExe or the MatchState was copied, written and read, or serialised and deserialised.''',
  over=['inputs', 'histories', 'configurations'],
  for_all='all pattern sets, symbol sequences and sequences of operations',
  why='No test exercises the pattern matcher; it is used by the tagger and the transfer of Apertium.',
  files=['lttoolbox/pattern_list.cc', 'lttoolbox/match_exe.cc', 'lttoolbox/match_state.cc', 'lttoolbox/match_node.cc', 'lttoolbox/sorted_vector.cc'],
  mechanism=[('building the automaton', 'lttoolbox/pattern_list.cc: PatternList::buildTransducer'),
             ('stepping', 'lttoolbox/match_state.cc: MatchState::step'),
             ('deciding', 'lttoolbox/match_state.cc: MatchState::classifyFinals')],
  observe=['what MatchState::size and MatchState::classifyFinals return after each step'],
  note=TRUST + 'Wildcards directly after each other are not generated; they count as one.'),
dict(id='C26', title='Text, container and reader helpers answer every request as documented',
  statement='''For every text and every history of calls: StringUtils trims exactly the white space at both ends; splits (plainly
   or at unescaped delimiters) into the non-empty parts and joins them back; replaces all occurrences; upper-, lower- and title-cases
   as Unicode says, names the case of a word and copies it to another; writes integers and weights so that they read back and
   refuses texts that start with no number; tests prefixes and suffixes; merges word blanks keeping all their parts.
   symbol_iter and tokenize cut a string into exactly its characters, escaped characters and <tags>.  A Buffer with its positions
   returns the last values written, as far back as its size; a sorted_vector is a sorted set; InputFile gives every character
   with peek, unget, readBlock and wblank; StreamReader returns every lexical unit of a stream with its blanks, word blank and readings, and
   loses no text; the XML walkers visit the child elements in document order and give their attributes.
   None of them reads or writes outside its arguments.''',
  over=['inputs', 'histories'],
  for_all='all strings (also without characters, with supplementary and special-casing characters), all histories of calls on '
          'containers and readers, and all streams and documents',
  why='Every tool and other Apertium packages build on these helpers; the tests sample a few ASCII strings.',
  files=['lttoolbox/string_utils.cc', 'lttoolbox/symbol_iter.cc', 'lttoolbox/buffer.h', 'lttoolbox/sorted_vector.cc', 'lttoolbox/sorted_vector.hpp',
         'lttoolbox/input_file.cc', 'lttoolbox/stream_reader.cc', 'lttoolbox/xml_walk_util.cc', 'lttoolbox/ustring.cc'],
  mechanism=[('strings', 'lttoolbox/string_utils.cc: StringUtils; lttoolbox/ustring.cc'),
             ('symbols', 'lttoolbox/symbol_iter.cc: symbol_iter; lttoolbox/alphabet.cc: Alphabet::tokenize'),
             ('containers', 'lttoolbox/buffer.h: Buffer; lttoolbox/sorted_vector.cc: sorted_vector'),
             ('readers', 'lttoolbox/input_file.cc: InputFile; lttoolbox/stream_reader.cc: StreamReader; lttoolbox/xml_walk_util.cc')],
  observe=['the values these public functions return'],
  note='Strings up to 80 characters, histories up to some hundred calls; special casing of title case (digraphs) and numbers beyond '
       'the range of their type are not claimed; the model is Python text operations with its own Unicode tables.'),
dict(id='C27', title='A command line means the same however written; wrong ones are refused',
  statement='''For every program and every choice of its options and files: short and long names, bundled flags, attached and
   separate values, options before, among or after the files, a `--` before the files and repeated flags are ways of writing the
   same command line, and the program prints, writes and exits with the same for all of them.  An option it does not have, a missing or
   superfluous option value, too many files or too few make it fail without writing its output and without touching
   memory that is not its own.''',
  over=['inputs'],
  for_all='all programs, all sets of options, all their spellings and all wrong command lines',
  why='Build files and pipelines call the programs in all of these ways, and a misread option silently compiles or processes '
      'something else; the tests use one spelling of each.',
  files=['lttoolbox/cli.cc', 'lttoolbox/lt_proc.cc', 'lttoolbox/lt_comp.cc', 'lttoolbox/lt_expand.cc', 'lttoolbox/lt_print.cc',
         'lttoolbox/lt_trim.cc', 'lttoolbox/lt_append.cc', 'lttoolbox/lt_paradigm.cc', 'lttoolbox/lt_merge.cc', 'lttoolbox/lt_tmxproc.cc'],
  mechanism=[('command lines', 'lttoolbox/cli.cc: CLI::parse_args'), ('programs', 'lttoolbox/lt_*.cc: main')],
  observe=['standard output, output files and exit status'],
  note='Up to five options; lt-tmxcomp, whose -o and -m are accepted and do nothing, is left out, and lt-compose -j, whose '
       'symbol numbers depend on the schedule, is compared as a relation by C20.'),
dict(id='C28', title='Translation memories: segments are looked up exactly, other text stays',
  statement='''For every translation memory compiled by lt-tmxcomp and every text: lt-tmxproc looks for a segment of the memory at the
   beginning of the text and again where each segment or unsuccessful attempt ends, and takes the longest one that ends before punctuation (with -s, also
   before a space or blank), matching upper case text with lower case sources, any number with a number, and a blank with a placeholder or space; an attempt that finds
   none passes over what it read, to the end of that word.  In place of a segment it prints each translation of it, in brackets, with the
   numbers and blanks of this text in their places.  All other text, with its escapes, blanks and NULs, is printed unchanged and
   in order, to the end of the input.''',
  over=['inputs'],
  for_all='all memories with segments of words, numbers and placeholders, and all texts made of text, numbers and blanks',
  why='A translation memory runs over whole documents; the tests translate two sentences with one memory.',
  files=['lttoolbox/tmx_compiler.cc', 'lttoolbox/fst_processor.cc', 'lttoolbox/state.cc', 'lttoolbox/lt_tmxproc.cc', 'lttoolbox/lt_tmxcomp.cc'],
  mechanism=[('compiler', 'lttoolbox/tmx_compiler.cc: TMXCompiler::procTU, insertTU, align'),
             ('lookup', 'lttoolbox/fst_processor.cc: FSTProcessor::tm_analysis, readTMAnalysis'),
             ('results', 'lttoolbox/state.cc: State::filterFinalsTM')],
  observe=['standard output of lt-tmxproc'],
  note='Units shorter than five symbols are dropped by the compiler and by the model. Numbers with a decimal point or comma '
       'and text that looks like the number symbol are not claimed: the compiler and the processor divide them differently.'),
dict(id='C29', title='The Python binding writes what lt-proc writes, whatever was called before',
  statement='''For every history of calls on objects of the Python binding (creating and deleting processors, several of one or of different
   dictionaries, calling them with any of the options it knows), each call writes the file that lt-proc writes for the same
   dictionary, options and input when it is run alone, and raises an exception, without ending the interpreter or touching memory that is not
   its own, where lt-proc fails because of a dictionary or a file.''',
  over=['inputs', 'histories'],
  for_all='all sequences of calls, options, dictionaries and inputs',
  why='A server that keeps a processor calls it with changing options for ever; the tests make one call per process.',
  files=['python/lttoolbox.i.in', 'lttoolbox/fst_processor.cc', 'lttoolbox/fst_processor.h'],
  mechanism=[('binding', 'python/lttoolbox.i.in: FST::lt_proc'), ('state of a processor', 'lttoolbox/fst_processor.cc: FSTProcessor::init*')],
  observe=['the files written', 'exceptions in Python'],
  note='Up to ten calls on several objects. What a processor does after a call that failed, truncated dictionaries and a trailing backslash '
       '(where the library itself ends the process), options the binding does not have and combinations of modes that lt-proc refuses or orders (such as -d with -n) are not claimed.'),
dict(id='C30', title='Copied library objects answer like the original and independently of it',
  statement='''For every history of creating, copying, assigning, changing, reading and destroying objects of the library (alphabets, transducers, the
   executable transducers TransExe and MatchExe, their states State and MatchState, pattern lists, regular expression compilers, dictionary
   tokens and buffers): each object answers exactly as one that received the same operations and was never copied or assigned.  Changing or destroying
   an object changes nothing in its copies, reading into an object replaces what it held, and no memory is
   used after it was released.''',
  over=['histories'],
  for_all='all histories over a few variables of one kind, with all the operations that change such an object',
  why='Processors and compilers copy states, transducers and alphabets at every step; the tests never look at the original after its copy changed, nor at '
      'the copy after the original is gone.',
  files=['lttoolbox/state.cc', 'lttoolbox/alphabet.cc', 'lttoolbox/transducer.cc', 'lttoolbox/trans_exe.cc', 'lttoolbox/node.h', 'lttoolbox/match_exe.cc',
         'lttoolbox/match_state.cc', 'lttoolbox/pattern_list.cc', 'lttoolbox/regexp_compiler.cc', 'lttoolbox/entry_token.cc', 'lttoolbox/buffer.h'],
  mechanism=[('copying', 'lttoolbox/*.cc: the copy and destroy members and operator='),
             ('addresses', 'lttoolbox/trans_exe.cc, match_exe.cc: nodes that refer to each other')],
  observe=['what the objects answer: files they write, lookups, classes, numbers of symbols'],
  note='FSTProcessor and the compilers of whole files are not copied; states are used only while their transducer lives.'),
]
