# One entry per property: what properties.jsonl and MANIFEST.json say about it.
def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a, "technique": technique, "note": note, "na": na}


PROPS = [
P("C01", "Indexed containers give exactly the requested element or throw",
  "For every index of any integral type, every enum value (also ones cast from a bad number), every iterator position and every "
  "offset: EnumList / EnumListWithNone / EnumMap element access, iterator movement (+=, -=, +, -, ++, --), dereferencing, [] and comparison, "
  "BlockRange[] , and Args construction and [] either reach exactly the element, position or answer asked for, or throw when the request is "
  "out of range (or mixes different maps or uses an unset iterator). They never read outside their storage, never let a value that doesn't fit wrap "
  "around to a valid index, and never throw for a valid request.",
  ["inputs"], "all values of all index, offset and enum types",
  "tests try a few values around the ends; wrap-around and narrowing need particular values of wider types",
  ["libs/utils/include/kt_utils/EnumContainer.h", "libs/utils/include/kt_utils/EnumMap.h", "libs/utils/include/kt_utils/EnumList.h",
   "libs/utils/include/kt_utils/BlockRange.h", "libs/utils/include/kt_utils/Args.h"],
  [("checkIndex", "EnumContainer<T, N>::checkIndex"), ("iterator range checks", "EnumContainer<T, N>::Iterator"), ("range check", "BaseBlockRange::checkIndex, Args::operator[], Args::checkInt")],
  "path-partitioned abstract interpretation (intervals with symbolic offsets) of every public operation over the full ranges of its arguments",
  "Sound for the instantiated enums and the eleven integral index types; the representative uses in inst/containers.cpp are compiled and interpreted abstractly, never run."),

P("C02", "Walking a UTF-8 string never goes past its terminator",
  "For every zero-terminated byte string, however malformed or truncated: no function that walks it byte by byte through a pointer (Utf8Char::size, next, peek, getFirst, "
  "isVariationSelector and isCombiningMark, fromUtf8, fromUtf8ToWstring, getCode, displaySize, validateMBUtf8, validateUtf8 and the like) reads a byte after the terminator, "
  "and Utf8Char::next never leaves the object's position after the terminator, so that further calls don't either.",
  ["inputs"], "all byte strings, in particular those ending inside a multi-byte character, before a variation selector or before a combining mark",
  "reading one byte too far is invisible in tests (the byte after a literal is readable), and the malformed tails for which it happens are countless",
  ["libs/kana/src/Utf8Char.cpp", "libs/kana/include/kt_kana/Utf8Char.h", "libs/utils/src/Utf8.cpp", "libs/utils/include/kt_utils/Utf8.h", "libs/kana/src/DisplaySize.cpp"],
  [("positions", "Utf8Char::doNext, Utf8Char::next, Utf8Char::peek"), ("static walkers", "Utf8Char::size, isVariationSelector, isCombiningMark"),
   ("decoding", "convertFromUtf8, getCode"), ("validation", "validateMBUtf8")],
  "path-partitioned abstract interpretation: bytes partitioned lazily, each read must be preceded by tests that exclude a terminator on the way, positions tracked relative to the string",
  "Sound on the paths it follows exactly; reads reached only through inexactly tracked paths are counted as undecided (none on the current tree)."),

P("C03", "UTF-8 is decoded, encoded and validated exactly as the standard prescribes",
  "For every byte string (also malformed or truncated ones) and every code point or integer: fromUtf8 and fromUtf8ToWstring return exactly the code points of the "
  "well-formed characters, in order, with U+FFFD for each malformed sequence (overlong, surrogate, above U+10FFFF, stray or missing continuation bytes, too long lead byte), "
  "where a malformed sequence may swallow only continuation bytes, never a byte that starts another character; they stop exactly at the end of the string or after maxSize "
  "characters. getCode returns the code point of the first character (U+FFFD if malformed, 0 for an empty string). toUtf8 returns exactly the shortest UTF-8 form of its "
  "argument, with U+FFFD's form for surrogates and values that aren't code points. validateMBUtf8, validateUtf8, isValidMBUtf8 and isValidUtf8 accept exactly the well-formed "
  "characters (and with sizeOne only when nothing follows), and report the right kind of error otherwise. No byte after the terminator is read.",
  ["inputs"], "all byte strings, code points and integers",
  "there are 2^32 possible four-byte sequences and 2^32 integers; tests try a few dozen",
  ["libs/utils/src/Utf8.cpp", "libs/utils/include/kt_utils/Utf8.h"],
  [("decoder", "convertFromUtf8, convertOneUtf8, getNextByte"), ("encoder", "convertToUtf8"), ("validation", "validateMBUtf8"), ("limits", "Values::operator() error and limit tables")],
  "path-partitioned abstract interpretation with a bit-level domain (bytes grouped into UTF-8's classes, loops as states relative to the position), compared with the definition of UTF-8",
  "Sound for all inputs on the paths it decides; paths it can't follow precisely are counted as undecided (none on the current tree)."),

P("C04", "Statistics workers are isolated from each other and from the main thread",
  "While statistics for a file or directory are gathered by parallel workers, no worker writes anything another worker or "
  "the main thread can access, under any thread schedule. The main thread looks at a worker's results only after waiting for "
  "that worker to finish, and everything a worker uses stays alive until it is done.",
  ["schedules", "inputs"], "every schedule of the worker threads, for every input file or directory",
  "a data race shows up only under particular schedules; the tests run a handful of small inputs under whatever schedule happens",
  ["libs/stats/src/Stats.cpp", "libs/stats/include/kt_stats/Stats.h", "libs/stats/src/Utf8Count.cpp"],
  [("one task object per worker", "Stats::countKanji"), ("all state of a worker in its own object", "Stats::Pred::run"),
   ("wait before reading totals", "Stats::countKanji")],
  "interprocedural write-effect analysis of the thread tasks plus CFG dominance of the join",
  "Sound for the effects the analysis models (all own code, std calls by signature); trusts the standard library's "
  "thread-safety guarantees and the effect tables in sa/effects.py."),

P("C05", "Attributes come from the data column of the same name",
  "For every kanji, whatever its type, every Unicode entry (Ucd), radical and group, and all contents of the data files: each attribute is taken from the column that documents it and never, on any path, from another one. "
  "Ucd: block, version, radical, pinyin, Morohashi and Nelson ids, JSource, link type, meaning, on and kun readings each from the column of that name, names of links from LinkNames, strokes from Strokes and VStrokes, sources from Sources, Joyo and Jinmei. "
  "Jouyou, Jinmei and Extra kanji: number, radical, reading, year, grade, reason and old names from the columns of these names, and of Jouyou and Extra kanji also strokes (Strokes only); the strokes of all others from Ucd's Strokes and VStrokes, meanings from Meaning; "
  "Frequency kanji have the reading of the readings file or Ucd's On and Kun, Kentei and Ucd kanji have On and Kun, linked kanji have reading and meaning of the kanji they link to; names of linked forms of non-official kanji come from LinkNames; pinyin, Morohashi and Nelson ids always from Ucd's columns. "
  "Radical: number, name and other forms (Name), long name, reading; group: number and name.",
  ["inputs"], "all contents of data files and all kinds of kanji",
  "tests compare a few kanji of small data files; a column used in place of another one only for some rows (empty cells, variants) isn't seen",
  ["libs/kanji/src/UcdData.cpp", "libs/kanji/src/Ucd.cpp", "libs/kanji/src/OfficialKanji.cpp", "libs/kanji/src/Kanji.cpp", "libs/kanji/src/KanjiData.cpp",
   "libs/kanji/src/TextKanjiData.cpp", "libs/kanji/src/RadicalData.cpp", "libs/quiz/src/GroupData.cpp"],
  [("entries", "UcdData::load, loadLinks, Ucd::Ucd"), ("official kanji", "NumberedKanji, OfficialKanji, JinmeiKanji, JouyouKanji, ExtraKanji constructors"),
   ("other kanji", "LoadedKanji, OtherKanji, Kanji constructors, UcdData::getReadingsAsKana, KanjiData::getNelsonIds"), ("radicals", "RadicalData::load"), ("groups", "GroupData::loadGroup")],
  "interprocedural provenance (explicit flow labels of columns from ColumnFile::get* to public accessors), context-sensitive for constructors and calls, with reaching definitions for locals",
  "Sound over-approximation of the explicit flow of columns for code made of calls, constructions, containers and local variables; parts of unknown aggregates are undecided. What's done to the text of a cell isn't judged."),

P("C06", "The programs only ever read files",
  "Nothing the libraries or programs do, on any input, creates, truncates, writes, renames, removes or changes the permissions of a file or "
  "directory, or starts another process: data files, list files and the text files being counted or formatted are opened for reading "
  "only (so read-only files work), and all results go to the output streams.",
  ["inputs"], "every input, option and file system state",
  "a stray write or a truncating open mode shows up only for the files and options a test happens to use",
  ["libs/utils/src/ColumnFile.cpp", "libs/kanji/src/ListFile.cpp", "libs/stats/src/Utf8Count.cpp", "libs/quiz/src/GroupData.cpp", "libs/quiz/src/JukugoData.cpp", "apps/formatMain.cpp"],
  [("std::ifstream members and locals", "ColumnFile, ListFile, Utf8Count, UcdData, GroupData, JukugoData, formatMain")],
  "who-may-call / effect query over the type-resolved program (stream types, open-mode expressions, std::filesystem and POSIX modifiers)",
  "Exact for the listed interfaces; trusts that unlisted library functions don't change files."),

P("C07", "Failures reach main as exceptions; it prints them and returns an error status",
  "Everything thrown is derived from std::exception. No handler outside a program's main swallows an exception: it always throws again "
  "(adding the file name and so on). Library code never ends the process itself. Every program's main (and a thread's entry function) lets no exception "
  "out: for each one it writes the exception's what() to std::cerr and returns a non-zero status; when nothing was caught it returns 0.",
  ["inputs", "fault_sequences"], "every input, option and failure",
  "tests trigger only a few failures, and none runs a program's main; a path that loses an error looks like success",
  ["apps", "libs/utils/include/kt_utils/Exception.h", "libs/utils/src/ColumnFile.cpp", "libs/stats/src/Stats.cpp", "libs/quiz/src/GroupData.cpp"],
  [("try/catch in each main", "apps/*Main.cpp"), ("future.get rethrows", "Stats::countKanji"), ("catch and error()", "ColumnFile::processU64, GroupData::loadGroup, JukugoData::loadFile, UcdData::load")],
  "interprocedural exception-escape analysis plus path exploration of main and of every handler on the control-flow graph",
  "Sound relative to the table of throwing library functions in sa/exc.py; allocation failure is not considered."),

P("C08", "No exception can leave a noexcept function or a destructor",
  "For every function that is noexcept (declared, defaulted or implied, including destructors and the constexpr helpers) and for every input, no exception can reach its boundary - "
  "which would end the process without the error message the programs promise.",
  ["inputs"], "every input to every noexcept function",
  "the process ends only for the particular input for which the inner call throws, e.g. a position past the end of a string",
  ["libs/kana", "libs/kanji", "libs/utils", "libs/stats", "libs/quiz"],
  [("noexcept on most members", "libs/*/include")],
  "interprocedural exception-escape analysis; positions given to substr etc. proved in range by abstract interpretation",
  "Sound relative to the table of throwing library functions in sa/exc.py; allocation failure is not considered."),

P("C09", "Reading ends when the input ends",
  "Once a read of a stream or of standard input has failed (because the input has ended or can't be read), no loop or recursion repeats that read: Choice::get returns the quit option or the default or "
  "throws, quizzes and reviews (also in the middle of an answer, an edit or a prompt) stop, interactive conversion returns, and the loops that load data files or count text end, whatever was read before "
  "and however many functions are between the loop and the read.",
  ["inputs", "histories"], "every point at which input can end or fail, in every prompt and file",
  "the tests supply all the input that's asked for; where input ends earlier a loop that ignores the failure never ends",
  ["libs/kana/src/Choice.cpp", "libs/kana/src/KanaConvert.cpp", "libs/quiz/src", "libs/kanji/src", "libs/stats/src/Utf8Count.cpp", "libs/utils/src/ColumnFile.cpp"],
  [("failed read -> quit, default or exception", "Choice::get, Choice::endOfInput"), ("quit ends the quiz", "GroupQuiz::start, GroupQuiz::getAnswers, ListQuiz::start"), ("loops over lines", "ListFile::load, Utf8Count::processFile, ColumnFile::nextRow")],
  "interprocedural abstract interpretation with failing reads (typestate of streams), quit and default values followed through calls",
  "Functions whose paths are too many are listed as undecided in the evidence (loops over files inside Stats and NumberedKanji::fromFile, whose inner loops are decided on their own)."),

P("C10", "The terminal is always left the way it was found",
  "Whenever the code changes terminal settings to read a single key, the settings that were in force before are in force again when the function is left, on every "
  "path: a key was read, end of input, an error, or an exception.",
  ["inputs", "fault_sequences"], "every path through the code that reads keys, including failures of the read",
  "tests never run on a terminal, so no test executes this code",
  ["libs/kana/src/Choice.cpp"], [("tcgetattr / tcsetattr pair", "Choice::getOneChar")],
  "typestate analysis by path-partitioned abstract interpretation (termios objects tracked through copies, helpers, RAII and exceptions)",
  "Sound for tcsetattr/tcgetattr use; signals that kill the process are not considered."),

P("C11", "kanjiFormat keeps all text of a file",
  "For every input file, the output of kanjiFormat contains all text of the input in the same order, except for the line breaks and furigana brackets that it's documented to change; in particular the last line is kept.",
  ["inputs"], "all files",
  "tests format a few lines",
  ["apps/formatMain.cpp"],
  [("formatting", "formatMain.cpp")],
  na="equality of the characters read and written, over files of any length, with regular expressions of the library in between: there's no sound static abstraction in reach that relates the contents of the two streams (the accumulated line at the end of input, lost before fix 029de74, was found by reading)"),

P("C12", "Directory walks never follow symbolic links found inside a directory",
  "When a directory is given to the stats or count code, an entry that is a symbolic link is never opened, counted or descended into, "
  "whatever the shape of the tree (links to files, to directories, to a parent: no cycles, nothing counted twice).",
  ["inputs"], "every directory tree",
  "tests use a couple of fixed trees; a followed link shows up only with the right link in the right place",
  ["libs/stats/src/Utf8Count.cpp", "libs/stats/src/Stats.cpp"], [("is_symlink filter", "Utf8Count::addDirectory")],
  "path-partitioned abstract interpretation tracking each directory entry's identity and whether it was tested not to be a link",
  "Sound for std::filesystem iterators; the file system is assumed not to change during the walk."),

P("C13", "Characters are classified by the official Unicode blocks",
  "The tables of Unicode blocks are the official blocks of their kind (hiragana, katakana, common and rare kanji, punctuation, symbols, letters, variation selectors; East Asian wide and full-width characters for the table of wide "
  "characters), each table is in ascending order without overlap and a code point belongs to at most one kind; inRange answers true for exactly the code points of a table, first and last one of each block included, and isNonSpacing "
  "for exactly the combining (semi-)voiced marks and the variation selectors; the ranges for regular expressions span exactly their blocks; and each classification function (isKana, isHiragana, isKatakana, isKanji, isCommonKanji, "
  "isRareKanji, isMBSymbol, isMBLetter, isMBPunctuation, isRecognizedUtf8 and their isAll forms) looks at the tables of its own kind, all of them and no others.",
  ["inputs"], "all 1,114,112 code points",
  "tests sample a few characters of each block; a table that's wrong at the end of a block misclassifies characters that no test uses",
  ["libs/utils/include/kt_utils/UnicodeBlock.h", "libs/utils/include/kt_utils/Utf8.h", "libs/utils/src/UnicodeBlock.cpp"],
  [("binary search in a table of blocks", "inRange"), ("tables", "HiraganaBlocks ... WideBlocks"), ("classification functions", "isKana ... isRecognizedUtf8")],
  "compile-time witness: static_asserts over the tables at every point where the answer can change, checked by the front end, and a query over the tables each function uses",
  "How the string functions decode and loop over characters is property C02's; unassigned code points of the table of wide characters aren't judged."),

P("C14", "Kanji are loaded in order of precedence, once, and put in all their indexes",
  "Whatever the data files hold: the Unicode data and the radicals are loaded before any kanji is created, and the frequency readings before kanji are created from the frequency list. Categories are filled in the order of precedence - Jouyou; the official linked kanji, then the other old forms of Jouyou kanji; Jinmei; Extra; the JLPT lists and the frequency list; the Kentei lists; at last the rest of the Unicode data - and none of them is left out, so a kanji always gets the first category it belongs to: LinkedOld, Frequency, Kentei and Ucd kanji are created only after a look-up by name (findByName) has found none. Every kanji that's read from a file or created is inserted (checkInsert) exactly once. Each entry of a level, kyu or frequency list is added exactly once to the list of that kind (levels, kyus, frequencies), whether the kanji was there or is created for it; what's created is a Kentei kanji for a kyu list and a Frequency kanji otherwise, and one created from the frequency list has its position in the list (from 1) as frequency. checkInsert puts a kanji in each index for which it has a key (name; grade; compatibility name of a variant; Morohashi ID; each Nelson ID) and in the given list if and only if its name was new, which it returns.",
  ["inputs"], "all contents of the data files, all paths and iterations of the loading code",
  "The tests build small data objects of their own and never run TextKanjiData's loading sequence (ucd.txt isn't part of the repository), and a wrong order only shows for the few kanji that are in several lists.",
  ["libs/kanji/src/TextKanjiData.cpp", "libs/kanji/src/KanjiData.cpp"],
  [("TextKanjiData::TextKanjiData", "libs/kanji/src/TextKanjiData.cpp"), ("TextKanjiData::processList", "libs/kanji/src/TextKanjiData.cpp"), ("KanjiData::checkInsert", "libs/kanji/src/KanjiData.cpp"), ("KanjiData::processUcd", "libs/kanji/src/KanjiData.cpp")],
  "event-order analysis over the interprocedural control flow of the constructor (which creation may follow which), and abstract interpretation of each loop iteration and of checkInsert as a typestate of look-up, creation, insertion and addition",
  "Sound for the followed loops and calls; loops over other containers than those of the current code (for instance a vector of pointers to lists of several kinds) are undecided, which is counted in the evidence."),

P("C15", "The kana tables agree in hiragana, katakana and rōmaji",
  "In each entry of the tables the conversions use (plain letters, digraphs, their voiced and semi-voiced forms, iteration marks and special letters) hiragana and katakana are the same letters in the two scripts, every rōmaji spelling "
  "(also variants) stands for these letters, Hepburn and Kunrei forms are those of the systems, voiced and semi-voiced entries are their base letters with the mark, no hiragana, katakana or rōmaji belongs to two entries, and every "
  "hiragana letter of the modern syllabary and every standard digraph has an entry.",
  ["inputs"], "every entry of the tables, so every kana and spelling that can be converted",
  "tests count entries and convert samples; a wrong letter in one rare digraph is seen only by whoever converts it",
  ["libs/kana/src/Kana.cpp", "libs/kana/include/kt_kana/Kana.h"],
  [("tables of kana", "Kana::populate and the arrays it reads"), ("entries", "Kana, DakutenKana, HanDakutenKana constructors")],
  "query over the typed syntax tree: literal arguments of every Kana construction against the Unicode names and decompositions of the letters and standard romanisation",
  "The code that fills the maps from the tables isn't covered."),

P("C16", "Enumerations, names, bit masks and kanji categories are consistent",
  "For every enumeration with names (JlptLevels, KanjiGrades, KanjiTypes, KenteiKyus, JinmeiReasons, UcdLinkTypes, …) the string of each enumerator is exactly its own name and the name leads back to that enumerator. Enumerators of bit masks are different bits "
  "(or unions of others) and the mask operators are those of sets. Each class of kanji reports the KanjiTypes value of its name, each kanji that's made is put in the list of its own type, and there's one data file for each JLPT level and each kyu.",
  ["inputs"], "every enumerator, every pair of mask values and every kanji that's loaded",
  "tests look at some enumerators and load small data; a name that's swapped, or a kanji in the list of another type, is seen only for the values concerned",
  ["libs/kanji/include/kt_kanji/KanjiEnums.h", "libs/kanji/src/KanjiData.cpp", "libs/kanji/include/kt_kanji/Kanji.h", "libs/utils/include/kt_utils/Bitmask.h"],
  [("enumerations and names", "KanjiEnums.h, MorohashiId.h, BaseEnumMap::create"), ("categories of kanji", "KanjiData::loadFrom…, processList, processUcd"), ("bit masks", "Bitmask.h")],
  "conditional constant propagation over the control flow graphs, comparison of constants, and a compile-time witness (static_asserts) for the operators",
  "Which kanji the data files name isn't covered."),

P("C17", "Quiz options lead to what they name",
  "Each quiz type and list option (on the command line or chosen at a prompt) leads to a quiz on the list that it names: frequency bucket, grade (s: secondary), kyu (a: 10, b: pre-1, c: pre-2), JLPT level, kind of group members (1 Jouyou, 2 JLPT, 3 with a frequency, 4 all); "
  "the field that's the same for the whole list isn't shown; question order, quiz style and number of choices are those chosen; -r and -t start review and test with the documented order (n or +n: from question n; -n: from the end; 0: random; no number: prompt) and other suffixes are rejected; "
  "exactly the documented list options are accepted; and a kanji with a frequency rank is put in, and found in, the list of its rank (FrequencyEntries, 250, for each; the last takes the rest).",
  ["inputs"], "every quiz type, list option, mode option and frequency rank",
  "tests play a few quizzes; a mapping that's off for one grade, kyu or bucket boundary is seen only with that option",
  ["libs/quiz/src/QuizLauncher.cpp", "libs/quiz/src/GroupQuiz.cpp", "libs/kanji/src/KanjiData.cpp"],
  [("options and choices", "QuizLauncher::start, processArg, getFreq, getGrade, getKyu, getLevel, getPatternType"), ("group members", "GroupQuiz::includeMember"), ("frequency lists", "KanjiData::addToFrequencies, findByFrequency, frequencyList")],
  "abstract interpretation (conditional constant propagation from the options to the constructions of quizzes; intervals for frequency ranks)",
  ""),

P("C18", "Sorting orders are strict weak orders over the documented keys",
  "Every comparison used for sorting or for ordered containers (operator<, comparison functions and lambdas) is irreflexive, asymmetric, transitive and has transitive incomparability, for all objects; it compares the documented keys in the documented sequence and direction "
  "(kanji by strokes: strokes, frequency or default, compatibility name; by qualified name: rank of the qualifier, strokes, frequency, compatibility name; counts in stats: descending count, frequency, type, name; radicals: number) and elements of sorted sets that differ by name aren't taken for "
  "equal; operator== is an equivalence over its documented key; what's searched by bisection has been sorted before.",
  ["inputs"], "all pairs and triples of objects",
  "tests sort a few samples; an order that isn't strict or drops a tie-breaker is undefined behaviour, or loses entries, only for objects that tie",
  ["libs/kanji/src/Kanji.cpp", "libs/stats/src/Stats.cpp", "libs/kanji/include/kt_kanji/Radical.h", "libs/kanji/src/KanjiData.cpp"],
  [("orders", "Kanji::orderByStrokes, orderByQualifiedName, Stats::Count::operator<, Radical::operator<, lambdas given to sort"), ("equality", "operator== of Kanji, Radical, Kana, Table::Column")],
  "abstract evaluation of comparison functions over the relations of the keys, and decision of the axioms for all combinations; dominance of sort over binary_search",
  ""),

P("C19", "Statistics count each character of a text exactly once",
  "For every text, the totals of kanaStats and kanjiStats per category are the numbers of characters of that category in the text (without furigana and variation selectors), independent of the order of files and lines and of the number of threads.",
  ["inputs", "schedules"], "all texts and directories",
  "tests count a few short texts",
  ["libs/stats/src/Stats.cpp", "libs/kana/src/Utf8Count.cpp"],
  [("counting", "Stats::processCount, Utf8Count::add")],
  na="a functional property of values (sums over the characters of texts of any length, after replacement by regular expressions at run time); the parts that static analysis can decide are claimed separately: decoding (C02, C03), categories of characters (C13), races (C04) and orders of results (C18)"),

P("C20", "Quiz answers mean what's shown next to them and are scored once",
  "In a group quiz (up to Group::MaxGroupSize entries) the code shown for each entry is a different printable character that isn't an option, giving it as an answer compares the reading (and the meaning if meanings are shown) of that very entry, and an answer that's been given isn't offered again until it's edited. "
  "In a list quiz the choices are numbered by position, an answer is correct exactly if it's the number of the choice with the question's kanji, any other number is a mistake and options (skip, previous, meanings, quit) aren't counted; no two choices have the same reading and the correct one isn't overwritten. "
  "A group counts as correct exactly if all its answers match. Every answer (or group) is counted at most once, options are different characters, and going back isn't offered at the first question.",
  ["inputs", "histories"], "every group size, code, answer and correct choice, every sequence of draws",
  "tests play a few quizzes with small groups; a code that's decoded to another entry, or a choice that's counted wrongly, is seen only with large groups or particular answers",
  ["libs/quiz/src/GroupQuiz.cpp", "libs/quiz/src/ListQuiz.cpp", "libs/quiz/src/Quiz.cpp"],
  [("codes and scores of groups", "GroupQuiz::showGroup, getAnswer, editAnswer, checkAnswers"), ("choices and scores of lists", "ListQuiz::populateAnswers, printChoices, getAnswer"), ("options", "Quiz::getDefaultChoices")],
  "abstract interpretation (constants for codes, answers and positions; events for what's counted, offered and drawn) of the functions that show, read and score answers",
  "Which random choices are drawn isn't covered."),

P("C21", "Quizzes ask every question once, in random order, and report right totals",
  "In every session each question of the chosen list is asked at most once (except after going back), random orders and choices depend on the random generator only, and the reported numbers of right and skipped answers are those of the session.",
  ["histories", "inputs"], "all sessions",
  "tests play a few sessions",
  ["libs/quiz/src/Quiz.cpp", "libs/quiz/src/ListQuiz.cpp", "libs/quiz/src/GroupQuiz.cpp", "libs/quiz/src/Question.cpp"],
  [("session", "Quiz::checkAnswer, Question::next, prev")],
  na="quantifies over histories of a session with run-time counters and random numbers: relating sums of counters to the sequence of answers needs inductive invariants over values, which the abstract domains used here (intervals, relations between symbols) can't express; what's decidable per question (an answer is counted once, as what it is) is part of C20"),

P("C22", "Global objects don't depend on the order of initialising translation units",
  "Whatever the order in which the program's object files are linked, no initialiser of an object with static storage duration (namespace scope or static member) uses, directly or through the functions "
  "it calls, another dynamically initialised global object that isn't guaranteed by the language to be constructed already (Converter's tokens, for instance, must be built on first use because they "
  "read Kana's maps, which live in another source file), and no destructor of such an object uses one that's already destroyed.",
  ["schedules"], "every link order of the object files, every program that includes any part of the libraries",
  "each test program is linked in one order, in which a wrong dependency may happen to work",
  ["libs/kana/src/Kana.cpp", "libs/kana/src/Converter.cpp", "libs/kana/include/kt_kana/Converter.h", "libs/utils/include/kt_utils/ColumnFile.h", "libs/kanji/include/kt_kanji/OfficialKanji.h"],
  [("built on first use", "Converter::tokens"), ("maps", "Kana::RomajiMap, Kana::HiraganaMap, Kana::KatakanaMap"), ("columns numbered as they're constructed", "ColumnFile::Column, ColumnFile::_allColumns")],
  "initialisation-order analysis: whole-program call graph from every dynamic initialiser to the globals mentioned, checked against C++'s ordering rules",
  "Flow-insensitive: a mention counts as a use."),

P("C23", "Conversions between kana and rōmaji are those of the chosen system",
  "For every text, conversion between hiragana, katakana and rōmaji gives the spelling of the chosen system (Hepburn, Kunrei), including long vowels, small tsu, n and iteration marks, and converting back gives an equivalent text.",
  ["inputs"], "all texts",
  "tests convert some hundred words",
  ["libs/kana/src/KanaConverter.cpp", "libs/kana/src/KanaUtils.cpp", "libs/kana/include/kt_kana/KanaMap.h"],
  [("conversion", "KanaConverter::convert and its helpers")],
  na="an input/output relation over strings of any length, decided by greedy matching, lookahead and tables built at run time: a static argument would need a model of the whole transducer to compare with, that is a second implementation; the tables that it uses are claimed (C15), as are the ends of what it reads (C02)"),

P("C24", "Columns of data files are read exactly or rejected",
  "For every data file read by ColumnFile: nextRow accepts a row exactly if it has as many fields as there are columns (an empty last field counts, so does an additional empty one) and throws otherwise; "
  "each field is kept at its own position, and get returns the field at the position of the header with the column's name; unknown headers are rejected. For every cell, getU8, getU16, getU64 and their Opt versions return exactly the number "
  "written in it, and throw if it has anything but decimal digits, doesn't fit the result type or is above the maximum (a maximum of 0 means none); only the Opt versions accept an empty cell. getChar32 accepts exactly 4 or 5 upper case hex digits. "
  "getBool takes Y and T for true, N, F and an empty cell for false, and throws for anything else. Nothing valid is rejected.",
  ["inputs"], "all rows, cells, maximums and result types",
  "tests try a handful of cells; signs, spaces, trailing text, numbers just above a maximum, and rows with empty fields at the end are countless and mostly accepted silently",
  ["libs/utils/src/ColumnFile.cpp", "libs/utils/include/kt_utils/ColumnFile.h"],
  [("numbers", "ColumnFile::processU64, getU64, getOptU64, getUInt, getOptUInt"), ("codes", "ColumnFile::getChar32"), ("booleans", "ColumnFile::getBool"), ("rows", "ColumnFile::nextRow"), ("headers", "ColumnFile::processHeaderRow, get")],
  "abstract interpretation with sets of characters and intervals (cells), and of abstract fields for each number of fields around the number of columns (rows)",
  "Sound for all cells on the paths it decides; rows are decided for one to three columns and up to two fields more."),

P("C25", "Library code uses only the streams it was given",
  "Library code never writes to std::cout and never reads std::cin or the terminal when the caller supplied a stream; output, errors and input "
  "always go through the supplied streams, also in nested objects and calls (a library function with streams at hand passes them on).",
  ["inputs"], "every sequence of operations with user supplied streams",
  "tests see only what is missing from the stream they pass; a message that goes elsewhere on a rare path goes unnoticed",
  ["libs/kana/include/kt_kana/Choice.h", "libs/kana/src/Choice.cpp", "libs/kana/src/KanaConvert.cpp", "libs/quiz/src", "libs/stats/src/Stats.cpp", "libs/kanji/src/KanjiData.cpp"],
  [("out/err/in members and parameters", "KanjiData, Quiz, Stats, KanaConvert, Choice")],
  "query over the type-resolved program plus guard analysis on the control-flow graph",
  "Exact for direct references to standard streams and descriptors."),
P("C26", "Output doesn't depend on addresses, hashes, clocks or chance",
  "What the programs and libraries write (and the order of all lists they make) depends only on arguments, data files and input: they never use the clock, the environment (variables, locale, host, process or thread ids), "
  "never order objects by address (comparison of pointers, sorts or ordered containers with the default order of pointers), never print addresses to their output, "
  "and never iterate over a container ordered by hash or address to write output or to build a list. Random numbers are only used by quizzes, never by loading, statistics, formatting or conversion.",
  ["inputs", "programs"], "all inputs, runs and machines",
  "tests run once on one machine with one allocator and small data, where addresses happen to be in the order of creation",
  ["libs/kanji/src/RadicalData.cpp", "libs/kanji/src/KanjiData.cpp", "libs/quiz/src/GroupData.cpp", "libs/quiz/src/QuizLauncher.cpp", "libs/stats/src/Stats.cpp",
   "libs/quiz/src/ListQuiz.cpp", "libs/quiz/src/GroupQuiz.cpp"],
  [("sorting", "KanjiData::OrderByStrokes, OrderByQualifiedName and their uses"), ("maps", "UcdData::Map, RadicalData::RadicalLists, GroupData maps"), ("chance", "RandomGen of ListQuiz and GroupQuiz")],
  "queries over the typed syntax tree of the whole program (sources of nondeterminism, orders of pointers, iteration over unordered containers) and call graph from random engines to their users",
  "Messages about broken invariants on cerr may contain addresses. The order of entries of a directory and of threads isn't part of it (see C04)."),

P("C27", "Queries change nothing: the same query gives the same answer",
  "Once loaded, kanji, Unicode, radical, group and jukugo data never change, and queries have no memory: const methods, static methods and free functions that run after loading change nothing that outlives the call "
  "(fields, also mutable ones, loaded objects they refer to, variables of static storage such as caches in static locals) but streams, random engines and counters of messages; "
  "objects made by loading are changed only by functions called from their constructors; static locals aren't initialised from arguments, the object or the current directory of the first call; "
  "the mutable kana converter of UcdData is told its target on each use.",
  ["histories"], "all sequences of queries, on one or more objects",
  "tests make one query per object or repeat the same one; a stale answer needs a particular earlier query",
  ["libs/kanji/include/kt_kanji/KanjiData.h", "libs/kanji/src/KanjiData.cpp", "libs/kanji/src/UcdData.cpp", "libs/kanji/src/RadicalData.cpp", "libs/quiz/src/GroupData.cpp",
   "libs/quiz/src/QuizLauncher.cpp", "libs/kana/src/Kana.cpp"],
  [("lookups", "KanjiData::find*, UcdData::find, RadicalData::find, Kana::find*"), ("converter", "UcdData::getReadingsAsKana"), ("loading", "KanjiData::checkInsert, processUcd, GroupData::loadGroup, JukugoData::loadFile")],
  "interprocedural write-effect analysis of every function to a fixpoint, with a greatest fixpoint over the call graph for functions that are only used while loading",
  "Library functions change only what they get without const. Functions reachable from no program, constructor or const method are ignored."),

P("C28", "kanaConvert's options and commands do what its usage text says",
  "From every state, -h, -k and -r set only the target (hiragana, katakana, rōmaji) and -H, -K and -R only the source they name; -f with h, k, n or r adds Hepburn, Kunrei, NoProlongMark or RemoveSpaces and keeps the other flags; "
  "-i, -m, -n and -p each set their own mode and only one of them can be given; every other short option and value of -f is rejected and changes nothing; arguments that don't start with '-' are strings to convert. "
  "At the interactive prompt the same target and source options work, 'c' clears all flags, 'f' offers exactly the four flags under their names and adds the chosen one, 'h' and empty lines change nothing, and all other lines are converted. "
  "The flags shown are those that are set. Without options the target is hiragana, there is no source and no flag; text is converted from the chosen source, from any if there is none.",
  ["inputs", "histories"], "all one-letter options and values of -f, longer forms, from several states of target, source and flags; all sequences of interactive commands by composition",
  "tests give a few options once, from the initial state, and look at one converted string; an option that also changes something else shows only in combination",
  ["libs/kana/src/KanaConvert.cpp", "libs/kana/include/kt_kana/KanaConvert.h", "libs/kana/src/Converter.cpp", "libs/kana/include/kt_kana/Converter.h"],
  [("command line", "KanaConvert::processArg, charTypeArgs, flagArgs, setFlag"), ("prompt", "KanaConvert::processLine"), ("conversion", "KanaConvert::convert"), ("flags shown", "Converter::flagString")],
  "conditional constant propagation (abstract interpretation, everything but the option and the state unknown) through the functions that parse options and commands, compared with the usage text",
  "Cases whose outcome isn't decided by constants are listed as undecided in the evidence, not reported."),

]
