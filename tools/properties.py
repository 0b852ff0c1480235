"""The property list: one entry per property; `na` marks the ones static analysis cannot decide here."""


def P(id, title, statement, over, text, why, files, mech, **kw):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, **kw)


ALL = ["src/lib.rs", "src/parser.rs", "src/translator.rs", "src/translator/pipeline.rs", "src/translator/table/primary.rs",
       "src/translator/table/multipass.rs"]
PROPS = [
    P("C02", "Same table and same input always give the same result",
      "Compiling a table and translating a text, and printing a trace of it or a list of matching tables, gives the same output in every run of the program. "
      "Nothing the library or the tracing and query commands produce depends on the random seed of a hash container, on time, on addresses or on threads.",
      ["inputs", "histories"], "all tables, all texts, all process runs (each run draws new hash seeds)",
      "A test compares one run with an expected string; a result that depends on the hash seed agrees with it most of the time and no test reruns with other seeds.",
      ["src/translator/trie.rs", "src/translator/table/primary.rs", "src/translator/indication/lettersign.rs", "src/parser/match_rule.rs",
       "src/parser/multipass/test.rs", "src/metadata.rs"],
      [("ordered transitions of the trie", "src/translator/trie.rs TrieNode"), ("sorted printing of sets", "src/parser/match_rule.rs Display for Pattern"),
       ("sorting of candidate lists", "src/translator/indication/lettersign.rs precompute")],
      technique="type-based order-taint over MIR: every hash iterator is traced to an order-insensitive consumer",
      note="decides that no hash-iteration order, clock, address or thread identity reaches a result; all consumer sites of both crates are classified"),
    P("C03", "A compiled translator never changes and can be shared",
      "Once a translator is built, no translation changes it or any other state the library keeps, so the result of a translation depends only on the table, the input and the options and never on earlier calls. "
      "Several threads may therefore translate with one translator at the same time.",
      ["histories", "schedules"], "all sequences and interleavings of translate calls on one translator",
      "Tests translate once per translator on one thread; a cache or counter behind the interface would still pass them.",
      ["src/lib.rs", "src/translator.rs", "src/translator/pipeline.rs", "src/translator/effect.rs"],
      [("translator owns plain data", "src/lib.rs Translator"), ("translation takes a shared reference", "src/lib.rs Translator::translate_with_options"),
       ("variables live in a per-call environment", "src/translator/effect.rs Environment")],
      technique="type-level encoding: reachable-type audit for interior mutability, statics and receivers", level="proof",
      note="proof by type: no interior mutability, no statics, shared receivers, no unsafe code (C04)"),
    P("C04", "No input can corrupt memory",
      "The library and the command line tool contain no unsafe code of their own: no table, text or option can make them read or write memory they do not own.",
      ["inputs", "programs"], "all tables, inputs and options, and all callers of the library",
      "Tests observe outputs; an out-of-bounds read that happens to hit mapped memory passes them.",
      ALL, [("only safe Rust", "all of src")],
      technique="effect lint over expanded HIR and MIR of both crates",
      note="decides absence of unsafe constructs in every item after macro expansion; dependencies are trusted"),
    P("C05", "Translating has no side effects, in-memory tables touch no files",
      "Translating a text and compiling a table given as a string read and write no files, environment variables, clocks, standard streams, processes or network connections. "
      "Compiling tables from files only reads; it never writes, deletes or runs anything.",
      ["inputs", "configurations"], "all tables, texts, options and environments",
      "Tests run in one environment with all files in place and do not notice a stray read, write or environment lookup.",
      ALL + ["src/hyphenation.rs"],
      [("in-memory tables reject includes", "src/parser.rs table_expanded / from source"), ("file access only while expanding includes and loading hyphenation patterns", "src/parser.rs, src/hyphenation.rs")],
      technique="whole-program call-graph effect analysis with enum-variant liveness",
      note="decides that no effectful call is reachable from the translating and in-memory entry points"),

    P("C06", "nofor, noback and nocross restrict a rule exactly as written",
      "A rule with nofor never takes part in a forward translation and one with noback never in a backward translation, while a rule without them takes part in both; "
      "a rule with nocross is marked so and is only used where no break of a hyphenated word would be crossed. A prefix the opcode does not allow is an error, and no prefix that is accepted is lost between the table line and the compiled table.",
      ["inputs", "configurations"], "all opcodes, all combinations of prefixes, both directions, all compiled tables",
      "Tests use a handful of opcodes with a prefix; there are over a hundred opcodes that each have to carry it from the line to the compiled table.",
      ["src/parser.rs", "src/translator/table/primary.rs", "src/translator/table/multipass.rs", "src/translator/pipeline.rs"],
      [("prefixes are parsed and validated", "src/parser.rs RuleParser::constraints, fail_if_invalid_constraints"), ("directions of a rule", "src/parser.rs HasDirection"),
       ("tables compiled from filtered rules", "src/translator/table.rs TableContext, src/translator/pipeline.rs")],
      technique="path-splitting provenance dataflow and constant propagation over constraint sets",
      note="decides, for each opcode, the constraint set from token to rule to direction query to filter"),
    P("C07", "Each opcode builds its own rule from its own operands",
      "Each opcode keyword that is documented is accepted, builds the rule of that name, reads exactly its documented operands in the documented order, each into the field of that name, and a rule printed in a trace or error shows its own keyword and operands in that order. "
      "Escape sequences in operands stand for the characters that are documented.",
      ["inputs"], "all opcodes, all operands and all escape sequences",
      "About half of the opcodes appear in no test; two swapped operands of the same type compile and only show with a table that uses the opcode.",
      ["src/parser.rs", "src/parser/attribute.rs", "src/parser/multipass.rs"],
      [("keyword lookup", "src/parser.rs Opcode FromStr"), ("operands of each opcode", "src/parser.rs RuleParser::rule"), ("printed form", "src/parser.rs Display for Rule"),
       ("escape sequences", "src/parser.rs unescape")],
      technique="path-splitting provenance dataflow against the documented operand table",
      note="decides keyword, rule kind, field origins, token order and printed template of every opcode, and the escape table"),
    P("C08", "Dots and braille cells correspond one to one",
      "A dot name stands for its dot, a set of dots for the Unicode braille cell with exactly those dots (or the private-use cell where virtual dots are involved), distinct dot sets for distinct cells, and the reverse conversion returns the same dots. "
      "A hexadecimal digit of an undefined character falls back to its own, distinct cell.",
      ["inputs"], "all dot sets including virtual dots, all characters",
      "Tests convert a few cells; there are 65536 dot sets and each of the 16 dots has its own line in several tables of the code.",
      ["src/parser/braille.rs", "src/translator/table.rs"],
      [("dot names", "src/parser/braille.rs BrailleDot TryFrom<char>"), ("dots to cells", "src/parser/braille.rs dot_to_hex, dots_to_unicode"), ("fallback cells", "src/parser/braille.rs fallback")],
      technique="constant propagation over every branch of the conversion tables",
      note="decides each entry of the conversion tables against the Unicode encoding"),

    P("C12", "Every rule takes effect in the compiled table as its opcode says",
      "For every opcode, compiling a rule puts its characters, dots and indicators into the table with exactly the word-boundary conditions, character classes and direction that its documentation gives, including the classes named in before and after constraints, and nothing else. "
      "A rule found by the search is one whose characters (regardless of case) and conditions all hold at that place.",
      ["inputs", "configurations"], "all opcodes, operands and constraints, both directions, all compiled tables",
      "More than half of the opcodes appear in no test; a condition on the wrong side or a class missed for one of them shows only in a text that has the character next to a match.",
      ["src/translator/table/primary.rs", "src/translator/table.rs", "src/translator/trie.rs", "src/parser/character_class.rs"],
      [("effect of each rule on the main table", "src/translator/table/primary.rs PrimaryTableBuilder::insert_rule / build"), ("definitions and classes", "src/translator/table.rs TableContext"),
       ("boundary conditions and search", "src/translator/trie.rs Trie::insert, find_translations"), ("class names", "src/parser/character_class.rs")],
      technique="path-splitting provenance dataflow over the table compiler, compared with the documented effect of each opcode",
      note="decides, for each opcode and direction, the calls that put the rule into the table and their operands, and the conditions the search tests"),

    P("C13", "The result does not depend on how many bytes characters take",
      "Positions of matches, spans of emphasis, indications, hyphenation points, word boundaries and lengths in a translation count characters; offsets used to cut strings count bytes, and the two are never added, "
      "compared or exchanged for each other. So a text with accented letters, braille patterns or emoji is translated by the same rules at the same places as one in ASCII.",
      ["inputs"], "all texts and tables, whatever the lengths of their characters in UTF-8",
      "In ASCII both counts are the same, and tests with longer characters sample a few positions of a few rules.",
      ["src/translator/trie.rs", "src/translator/regexp.rs", "src/translator/table/primary.rs", "src/translator/position_constraints.rs", "src/emphasis.rs", "src/hyphenation.rs", "src/yaml.rs", "src/main.rs"],
      [("matches count characters", "src/translator/trie.rs, src/translator/regexp.rs"), ("indications count characters", "src/translator/indication"),
       ("spans count characters", "src/emphasis.rs EmphasisSpan, src/yaml.rs emphasis_spans_value"), ("points count characters", "src/hyphenation.rs break_points")],
      technique="unit inference over MIR: every integer is bytes, characters or instructions, joined along assignments, calls and fields",
      note="decides that no place counts bytes where another counts characters; it does not decide off-by-one errors within one unit"),
    P("C14", "Patterns and actions of context, passN and match rules mean what they say",
      "A context, correct, passN or match rule applies exactly where its test or pattern says: strings, classes, attributes, repetition counts, negation of a single test, alternatives, anchors and variable comparisons mean what their documentation says, and the bracketed part is what is replaced. "
      "Its action produces the strings, swapped characters and copies it names in that order, and sets, increments and decrements variables as written.",
      ["inputs", "histories"], "all patterns, tests and actions, all texts, all values of the variables",
      "The pattern language composes without bound; tests use a few small patterns, and an instruction emitted in the wrong order or a bound off by one shows only for particular combinations of pattern and text.",
      ["src/translator/regexp.rs", "src/translator/context_pattern.rs", "src/translator/match_pattern.rs", "src/translator/effect.rs", "src/translator/swap.rs", "src/translator/translation.rs",
       "src/parser/multipass/test.rs", "src/parser/multipass/action.rs", "src/parser/match_rule.rs"],
      [("tests and patterns to regular expressions", "src/translator/context_pattern.rs from_instruction, src/translator/match_pattern.rs from_pattern"), ("matcher instructions", "src/translator/regexp.rs emit, add_thread, find_anchored"),
       ("actions", "src/translator/context_pattern.rs TranslationTarget, Effects; src/translator/effect.rs")],
      technique="path-splitting provenance dataflow; symbolic comparison of emitted matcher programs with their patterns",
      note="decides the compilation of every kind of test, pattern and action and the step of every matcher instruction; which of several matches wins is not decided"),

    P("C11", "Translation runs its stages in order, each on the output of the one before",
      "A text goes through the correct rules, then the main rules, then the pass2, pass3 and pass4 rules, in the reverse order for backward translation, each stage working on the joined output of the one before. "
      "Every rule meant for the direction takes part in the stage of its opcode and in no other, from all the tables given and in their order; a stage is left out only when it has no rules. "
      "Translating, translating with options and tracing go through the same stages, with the options given. A display table maps each character for which it has a rule in that direction and keeps all others.",
      ["inputs", "configurations"], "all rule sets (every combination of stages), both directions, all texts and options",
      "32 combinations of stages and directions, each with its own copy of the code that selects rules; tests run four of them forward only.",
      ["src/translator/pipeline.rs", "src/lib.rs", "src/translator.rs"],
      [("building the stages", "src/translator/pipeline.rs TranslationPipeline::compile"), ("running the stages", "src/translator/pipeline.rs translate, trace_with_options; tables' translate"),
       ("library entry points", "src/lib.rs Translator::new, translate, translate_with_options"), ("display tables", "src/translator.rs DisplayTable")],
      technique="path enumeration with provenance terms; predicates evaluated for every opcode",
      note="decides the list of stages, their rules, order and feeding on every path of the code; display table precedence is C19's subject"),

    P("C15", "Each stage reads its text once, left to right, and always ends",
      "Every translation of a finite text ends. Each stage goes through its text once from left to right: a step applies one rule, the heaviest of those that apply at that place, or passes on one character without a rule, "
      "and moves on by exactly the characters of that rule or character; a rule that matches no character is applied at most once at a place. Rules with a look-behind part are applied exactly where that part ends. "
      "Variables changed by a rule that is applied are seen by all later rules. A character to which no rule applies is put out as its definition, as the table's undefined rule, or as its code point; in the stages before and after the main one it is kept.",
      ["inputs", "histories"], "all texts and tables, any number of steps",
      "The state of the loop is six variables that must move in lockstep over any number of steps; a slip in one of its branches shows only for texts that reach a particular sequence of branches.",
      ["src/translator/table/primary.rs", "src/translator/table/multipass.rs", "src/translator/translation.rs"],
      [("main loop", "src/translator/table/primary.rs PrimaryTable::trace"), ("multipass loop", "src/translator/table/multipass.rs MultipassTable::trace"), ("pieces", "src/translator/translation.rs ResolvedTranslation")],
      technique="symbolic one-step unfolding of the translation loops; lockstep comparison of the state terms",
      note="decides every path of one step of both loops; that the rules found by the searches are the right ones is C12's and C14's subject"),

    P("C09", "No line of a table is lost without an error that says where",
      "Every line of a table that is neither blank nor a comment becomes exactly one rule or one reported error, in the order of the file; a table with an error yields no rules, and all its errors are reported, each with file and line. "
      "No failure to read, parse, expand or compile is dropped: a call that fails makes its caller fail, except in the few places where the failure is itself an answer, and the command line prints the errors it receives, each with its own message, file and line.",
      ["inputs", "fault_sequences"], "all table files (any number of faulty lines), all combinations of failing files",
      "Tests feed single faulty lines; an error swallowed in a combinator, a second error lost behind the first or a line number off by one shows only for files with a particular mix of faults.",
      ["src/parser.rs", "src/lib.rs", "src/main.rs", "src/parser/error.rs"],
      [("lines to rules and errors", "src/parser.rs table, table_file"), ("propagation", "every call in both crates whose result can be an error"), ("messages", "src/parser/error.rs TableError; src/main.rs print_errors")],
      technique="path enumeration with provenance of results; crate-wide error-propagation analysis",
      note="decides where the result of every fallible call goes, on every path; that the parser accepts the right lines is C07's subject"),

    P("C10", "Includes are expanded in place, and a bad include is an error, not a hang",
      "The rules of an included table stand exactly at the place of the include, in their order, whatever the depth. A table that includes itself over any number of steps, is nested deeper than the limit, or names a file that cannot be found gives an error and no rules; "
      "expansion ends for every set of files. A hyphenation dictionary is handed on with the path it was found at and the place of the rule, and a translator built from strings refuses tables with includes.",
      ["inputs", "configurations"], "all graphs of files that include each other, all search paths",
      "Tests have a self-include and a flat include; cycles over several files, symbolic links and nested includes have no test.",
      ["src/parser.rs", "src/lib.rs"],
      [("expansion", "src/parser.rs expand_includes, expand_include, table_expanded_with"), ("entry points", "src/parser.rs table_expanded, table_query; src/lib.rs Translator::from_strings")],
      technique="path enumeration with provenance of the expanded list and of the chain of open files",
      note="decides what every path returns for an include, the chain the recursion carries and the tests before it; SearchPath itself is a library"),

    P("C16", "The test runner runs every test as written and counts it once",
      "When YAML test files are checked, each test is run with every table that was given for it and in each direction of its mode, with its own input, expected output, modes and emphasis: backwards the display table is applied before, forwards after translating, "
      "and for both directions the test is reversed. Consecutive tables are collected, a later display table, table or mode replaces the former, an inline table is compiled from its text. A test counts as success, failure, expected failure or unexpected success "
      "just as its output agrees and a failure was expected for that direction, every outcome is counted in its own column and in the total, and every outcome other than success is printed.",
      ["inputs", "histories"], "all test files: all sequences of keys, all combinations of options, tables, modes and expected failures",
      "The unit tests do not run a single YAML file; a runner that drops tests or excuses failures makes all other tests look better.",
      ["src/test.rs", "src/yaml.rs", "src/main.rs"],
      [("verdict", "src/test.rs Test::check, ExpectedFailure::is_failure"), ("every table and direction", "src/test.rs TestMatrix::check"), ("reading the file", "src/yaml.rs YAMLParser"),
       ("counting", "src/main.rs check_yaml, YAMLTestResult")],
      technique="path enumeration of reader, runner and summary, interpreted over all short sequences of keys, masks and outcomes",
      note="modes display, hyphenate and hyphenateBraille are documented as not implemented and left out; sequences are interpreted up to four keys, two options per test and masks of six characters"),
    P("C18", "Numbers are marked, kept uncontracted and read back by one definition",
      "A number starts at a digit and goes on over digits, numericmodechars, and (when the table has no numericmodechars) midnum characters that stand before a digit. numsign is put before its first digit and nowhere else, nonumsign exactly before a numericnocontchars character "
      "that ends it; at every character of a number no rule for more than one character is applied, nocross rules included. Backwards a numsign that follows no letter cell starts a number, nonumsign or the first cell that is no digit ends it, and at its cells, and only there, "
      "the digit replaces whatever else the single cell could mean. What numsign, nonumsign, midnum, numericnocontchars and numericmodechars of a table were given is what is used.",
      ["inputs", "configurations"], "all texts, all sets of digits, midnum, numericmodechars and numericnocontchars, all combinations of signs",
      "Tests try a handful of numbers with one table; midnum at the end of a text, mode characters between digits, a sign in the middle of a word and their combinations have none.",
      ["src/translator/indication/numeric.rs", "src/translator/position_constraints.rs", "src/translator/table/primary.rs"],
      [("signs", "src/translator/indication/numeric.rs Indicator::precompute"), ("contractions", "src/translator/position_constraints.rs NumericConstrainer::compute"),
       ("backward", "src/translator/position_constraints.rs BackwardNumericConstrainer::compute"), ("effect", "src/translator/table/primary.rs PrimaryTable::trace")],
      technique="decision trees over facts about unnamed characters, compared with the specified definition; abstract rules sent through the filters of the main loop",
      note="texts of up to three characters (thorough: four), each character known only by the sets it belongs to; the order in which indicators of one position are put out is C25's subject"),
    P("C19", "The first of two equal definitions counts, unless precedence says otherwise",
      "Where a table defines the same character, display entry or rule string with the same conditions more than once, the first one in the order of the expanded table counts (in builds without backwards_compatibility the last one). "
      "Only a rule of higher precedence replaces an earlier one: word-type rules, number rules and always stand above indicators, and indicators above character definitions, whatever their order and number.",
      ["inputs", "configurations"], "all pairs and sequences of rules for one character or string, both directions, both feature sets",
      "Which rule wins depends on order and kind of all rules for a string, often from different included files; tests check one or two pairs in the default build.",
      ["src/translator/trie.rs", "src/translator.rs", "src/translator/table/primary.rs", "src/parser.rs"],
      [("equal strings", "src/translator/trie.rs Trie::insert"), ("equal characters", "src/translator.rs CharacterDefinition::insert, src/translator/table/primary.rs CharacterTranslation::insert"),
       ("display", "src/translator.rs DisplayTable::compile"), ("levels", "src/parser.rs Rule::precedence")],
      technique="path enumeration: for each path of the storing functions, entry kept or replaced, under which comparison",
      note="decides the storing functions, the order in which rules reach them and the level of each opcode; competition between matches of different length is by weight and not part of this"),
    P("C20", "Capitals are marked by the tier the table defines and read back",
      "In a text, each single capital, run of capitals inside a word, word of capitals and sequence of such words gets the capital signs of exactly one tier: the phrase signs where the table has begcapsphrase (or begcaps) and at least lencapsphrase words "
      "stand in capitals, else begcapsword (with endcapsword where the word goes on in small letters), else begcaps and endcaps, else capsletter before each capital; capsletter alone where there is one capital. capsmodechars keep a word together. "
      "Backwards, what the position after capsletter puts out begins with a capital, and what the letter cells after begcapsword put out up to endcapsword or the first other cell is in capitals. What each opcode of the table was given is what is used.",
      ["inputs", "configurations"], "all texts, all sets of letters, capitals and capsmodechars, all combinations of the eight signs, phrase lengths of one to three words",
      "Eight optional signs, three levels and two directions give hundreds of combinations; tests have one table each for a dozen of them.",
      ["src/translator/indication/uppercase.rs", "src/translator/position_constraints.rs", "src/translator/table/primary.rs"],
      [("signs", "src/translator/indication/uppercase.rs Indicator::precompute"), ("backward", "src/translator/position_constraints.rs BackwardCapsConstrainer::compute"),
       ("effect", "src/translator/table/primary.rs PrimaryTable::trace")],
      technique="decision trees over facts about unnamed characters and optional opcodes, compared with the specified definition",
      note="texts of up to five characters (thorough: six) forward and three (four) backward, each character known only by the sets it belongs to"),
    P("C21", "Computer braille is marked, translated by comp6 and ended in order",
      "A character of the text is translated by the comp6 rules, and by no others, exactly if it lies in a computer braille span the caller gave or in a word (between white space) that contains one of the strings of the compbrl rules. "
      "Where the table has begcomp, it stands before the first character of each such span that is not empty, and endcomp, where there is one, after its last, at the latest at the end of the text; where one span ends and another begins, the end comes first, whatever the order of the spans. "
      "Looking for the words comes to an end for every text and every compbrl string. The opcodes keep the dots they were given.",
      ["inputs", "configurations"], "all texts, all lists of computer braille and other spans, all compbrl strings, with and without begcomp and endcomp",
      "Spans are the caller's, in any order, overlapping or beyond the text, and compbrl strings may contain or begin with white space; the tests give one span in order.",
      ["src/translator/indication/computer_braille.rs", "src/translator/position_constraints.rs", "src/translator/table/primary.rs"],
      [("signs", "src/translator/indication/computer_braille.rs Indicator::precompute"), ("marks", "src/translator/position_constraints.rs ComputerBrailleConstrainer::compute"),
       ("words", "src/translator/table/primary.rs enrich")],
      technique="decision trees over facts about unnamed characters, spans and trigger strings, compared with the specified definition",
      note="texts of up to four characters, up to two spans, up to two trigger strings; the main loop's choice of rules on all its paths"),
    P("C22", "Emphasis is marked by letter, word or phrase, and classes nest",
      "For each emphasis class, every stretch of the caller's spans (without noemphchars, clipped to the text) gets begemph and endemph around its first and last character that is no space (or emphmodechars) where the class has begemph; otherwise, where it begins and "
      "ends at word boundaries, begemphphrase and its end where there are at least lenemphphrase words, else emphletter or begemphword for each word; otherwise emphletter for one character, or begemphword with endemphword inside a word. "
      "Where signs of several classes meet at one position, what ends there ends before anything begins; begemph and endemph nest (the innermost ends first, the longer begins first), and all other ties go by the order in which the classes are defined. What each opcode was given for a class is what is used for it.",
      ["inputs", "configurations"], "all texts, all spans of one or two classes, all combinations of the seven signs and two character sets",
      "The caller's spans are arbitrary; which tier applies depends on spans, spaces, mode characters and seven optional signs, and the nesting on every pair of classes.",
      ["src/translator/indication/emphasis.rs", "src/emphasis.rs"],
      [("signs", "src/translator/indication/emphasis.rs Indicator::precompute"), ("opcodes", "src/translator/indication/emphasis.rs IndicatorBuilder")],
      technique="decision trees over facts about unnamed characters, spans and optional opcodes, compared with the specified definition",
      note="texts of up to four characters with one class (thorough: five), up to three with two classes that have only begemph and endemph, up to two with two classes of all signs"),
    P("C24", "prepunc and postpunc apply only before and after words",
      "Forwards, a prepunc rule is used at a position only if no letter stands immediately before it and, of the letters, digits and spaces that follow, the first is a letter or digit; a postpunc rule only if no letter stands immediately after "
      "and, of those that precede, the last is a letter or digit. All other rules are indifferent to this, and so is a table without prepunc and postpunc. Letters, digits and spaces are those of the table.",
      ["inputs", "configurations"], "all texts, all sets of letters, digits and spaces, all tables",
      "The condition looks any distance ahead and behind, past any punctuation, and depends on three sets the table defines.",
      ["src/translator/position_constraints.rs", "src/translator/table/primary.rs"],
      [("scan", "src/translator/position_constraints.rs PunctuationConstrainer::compute"), ("sets", "src/translator/table/primary.rs PrimaryTable::compile"), ("gate", "src/translator/table/primary.rs PrimaryTable::trace")],
      technique="decision trees over facts about unnamed characters, compared with the specified definition; flow of the table's classes into the constrainer",
      note="texts of up to four characters (thorough: five)"),
    P("C25", "Signs and constraints of several sources combine without loss",
      "At each position of the text, and at its end, exactly the signs that the indicators found for it are put out, once, when the position is first reached and before what is translated there: computer braille, emphasis, number, letter, capital and no-contract signs, in this order, "
      "and those of one indicator in its own. No match spans a position inside it where capitals, emphasis or computer braille begin or end, so no sign is lost. A position has exactly the constraints that some constrainer set there, each asked for by its own question, and none outside the text. "
      "Every indicator and constrainer works on the whole text and the spans, is there if and only if its opcodes are, and is given the table's own letters, digits and cells.",
      ["inputs", "configurations"], "all texts and spans, all combinations of indicators and constrainers, matches of any length",
      "Six indicators and six constrainers can meet at any position of any text, in front of matches of any length, none included; the tests combine two.",
      ["src/translator/indication.rs", "src/translator/position_constraints.rs", "src/translator/table/primary.rs"],
      [("collected", "src/translator/indication.rs Indicators::precompute"), ("union", "src/translator/position_constraints.rs Constrainers::precompute"), ("emitted", "src/translator/table/primary.rs PrimaryTable::trace")],
      technique="decision trees over unnamed results of the parts, path enumeration of two steps of the main loop, compared with the specified union and order",
      note="texts of up to three characters, one or two indicators and constrainers at a time; two steps of the main loop with matches of up to two characters"),
    P("C26", "Letter signs and no-contract signs stand exactly where they are called for",
      "A table's letter sign is put out before each letter that stands alone, that is, that neither a letter follows nor a letter or white space precedes, unless noletsignafter has what precedes or noletsignbefore what follows, and before each word that is also a contraction of the table, "
      "bounded by white space, punctuation or the ends of the text; never before a character of noletsign. The no-contract sign is put out before each such contraction. Neither is put out anywhere else, or when the table does not have the sign.",
      ["inputs", "configurations"], "all texts and all tables with letsign, noletsign, noletsignbefore, noletsignafter, contraction and nocontractsign",
      "The sign depends on both neighbours and on three sets at once, at every position of any text; the tests have a few words.",
      ["src/translator/indication/lettersign.rs", "src/translator/indication/nocontract.rs", "src/translator/table/primary.rs"],
      [("signs", "src/translator/indication/lettersign.rs Indicator::precompute"), ("built", "src/translator/indication/nocontract.rs IndicatorBuilder")],
      technique="decision trees over facts about unnamed characters and look-ups, compared with the specified definition; flow of the table's signs and letters into the indicators",
      note="texts of up to three characters (thorough: four), each character known only by the sets it belongs to"),
    P("C27", "A rule is found exactly where its characters stand and its conditions hold",
      "Looking up a position of the text gives each rule kept whose characters, without regard to case, stand there and whose conditions hold, and no other: what precedes has to be in the classes and boundary the rule asks for before, what follows the match in those after, "
      "and an end of the text counts as white space. A rule's weight is its number of characters and conditions, and it is kept as the translation of the side that the direction reads to the other.",
      ["inputs", "configurations"], "all tables, all texts and positions, both directions",
      "Rules share paths of the trie in combinations that only some tables have; a condition laid on the wrong side, in the wrong order or tested on the wrong character shows only for particular pairs of rules and neighbours.",
      ["src/translator/trie.rs"],
      [("chain", "src/translator/trie.rs Trie::insert"), ("step", "src/translator/trie.rs Trie::find_translations_from_node"), ("classes", "src/translator/trie.rs ResolvedClasses"), ("fold", "src/translator/trie.rs fold_case")],
      technique="path enumeration of the insertion, decision tree of one step of the look-up, compared with the specified path and step (induction over the path of a rule)",
      note="up to two characters and two conditions on each side when inserting, up to two conditions at a node when looking up"),
    P("C17", "nocross rules never span a break the hyphenation dictionary allows",
      "A gap between two letters of a word is a break exactly if the greatest value that any pattern of the dictionary found in the word, with a full stop before and after it, gives that gap is odd and the gap has at least LEFTHYPHENMIN characters of the word before and RIGHTHYPHENMIN after it (1 by default). "
      "Every line of a dictionary that is not empty, a comment or the encoding is a pattern or a minimum, or an error that names the line. A nocross rule applies only where no gap between the characters it matches is such a break of the run of letters it stands in.",
      ["inputs", "configurations"], "all dictionaries, words and texts, all nocross rules",
      "Any number of patterns can overlap at a gap, at either end of a word or in the middle, and words stand anywhere in a text; the tests have one dictionary and a few words.",
      ["src/hyphenation.rs", "src/translator/position_constraints.rs", "src/translator/table/primary.rs"],
      [("breaks", "src/hyphenation.rs HyphenationTable::break_points"), ("file", "src/hyphenation.rs HyphenationTable::parse"), ("words", "src/translator/position_constraints.rs HyphenationConstrainer::compute"),
       ("nocross", "src/translator/table/primary.rs PrimaryTable::nocross_candidates")],
      technique="decision trees over unnamed lines, characters and patterns, compared with the specified definition of breaks and candidates",
      note="two lines, patterns of four characters, words of three characters with one pattern and of two with two patterns (thorough: one more)"),
    P("C01", "No table, text or argument makes the library panic",
      "Compiling any table and translating any text with it, in either direction and with any options, ends in a result or an error value and never in a panic: no index outside a text, list or character boundary, no missing value taken for granted, no length below zero, no unfinished or unreachable place that is reached. "
      "Exhaustion of memory or stack, as by very deeply nested expressions, is left out.",
      ["inputs", "configurations"], "all tables, dictionaries, texts, emphasis spans, options and directions",
      "Panics hide in places that need an odd position, an empty text, an undefined character or a last element; the tests give texts and tables that translate.",
      ALL + ["src/hyphenation.rs"],
      [("explicit panics", "all of src"), ("indices, lengths and missing values", "all of src"), ("scanning of texts", "src/translator/indication, src/hyphenation.rs, src/translator/position_constraints.rs")],
      technique="guard dataflow at every place that can panic over all paths of MIR, with decision trees of the scanning functions over unnamed texts",
      note="guards are matched by what they speak of; scanning functions are decided for short texts; places whose safety lies elsewhere are listed with a reason"),
    P("C23", "The command line tool shows what the library computes",
      "For every command line, translate prints the translation of the input by the table in the direction asked for, trace prints the same and a row for every rule applied, in order and numbered from one, with its own input, output, rule and stage; parse prints every rule of the expanded table; "
      "a session does the same for each of its lines; an error of a table is printed. A query prints the tables that have every pair key=value of it: those with a line '#+key:value', in any directory of the search path.",
      ["inputs", "configurations"], "all commands, tables, inputs, directions, queries and table directories",
      "The tests call the library; none starts the tool, and which table a query finds depends on the files of every directory of the search path together.",
      ["src/main.rs", "src/metadata.rs"],
      [("commands", "src/main.rs main, translate, trace, parse, repl, parse_line, print_trace"), ("metadata", "src/metadata.rs index, find")],
      technique="path-by-path reading of the printed values by what they are computed from; decision trees over unnamed directories, files, lines, pairs and steps, compared with the specified result",
      note="search paths of two directories, files of two lines, queries of three pairs (thorough: four), traces of three steps"),
    P("C28", "Translations agree with those of liblouis for every table it ships",
      "For every table of liblouis that this library accepts, translating any text in either direction gives what liblouis (the C library) gives for it.",
      ["inputs", "configurations"], "all liblouis tables and texts",
      "The YAML tests compare single words of some tables.",
      ["src/translator.rs"], [("whole pipeline", "src/translator/pipeline.rs")],
      na="needs the results of another implementation that is not part of this repository; no argument over this source can decide it"),
    P("C29", "Text translated to braille and back gives the text again, for reversible tables",
      "For a table whose rules can all be undone, back-translating the translation of a text gives the text.",
      ["inputs", "configurations"], "all tables whose rules are one to one, all texts",
      "The tests translate chosen words in one direction each.",
      ["src/translator/pipeline.rs"], [("both directions", "src/translator/pipeline.rs compile")],
      na="whether a table is reversible, and which rules match where, are facts of table and text that are known only at run time; what each direction does with a rule is decided by C06, C12, C15 and C27"),
    P("C30", "The time and memory a translation takes grow no faster than its text",
      "For a given table, the time and memory that translating a text takes grow at most in proportion to the length of the text.",
      ["inputs"], "all texts",
      "Tests have short texts.",
      ["src/translator/regexp.rs", "src/translator/table/primary.rs"], [("matching", "src/translator/regexp.rs")],
      na="a bound on cost: how often patterns are tried again at a position depends on table and text at run time; that every scan moves on and ends is decided by C15"),
    P("C31", "No nesting of a table's expressions exhausts the stack",
      "Reading and compiling an expression nested to any depth ends in a result or an error and not in an overflow of the stack.",
      ["inputs"], "all tables",
      "Tests nest two or three levels.",
      ["src/parser/multipass/test.rs", "src/translator/regexp.rs"], [("recursion of the expression parsers", "src/parser")],
      na="the parsers of expressions recurse as deep as the table nests them; the depth that fits is a fact of the run-time stack that no static argument over this source bounds"),
]
