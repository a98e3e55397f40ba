prop('P01', 'Array values are isolated: no operation changes another array or misuses memory',
     'Whatever arrays share storage, an operation on one array never changes the elements, position or length of any other array, and a read-only operation changes nothing. Shared or borrowed element storage is never written, freed or kept past its owner; storage is freed once, when its last user goes; and no element outside the array\'s own range is read or written.',
     ['inputs', 'histories'], 'every public Array operation, every argument value in its domain, every sharing state of its operands (no storage, empty storage, sole owner, shared with others, borrowed static storage, both operands the same storage)',
     'Tests try a few sharing patterns with small arrays; aliasing of slices, offsets and lengths is unbounded and a violation corrupts some other value silently.',
     ['include/array.h', 'include/refcount.h'],
     [('copy on write', 'ArrayR::Unshare and the mutators of ArrayR'), ('storage', 'ArrayBody'), ('reference counts', 'Ref, RefCounted')])
prop('P02', 'Every Array operation yields exactly the elements its specification says',
     'For every array slice and every argument in its domain, each operation (slicing, concatenation, insertion, removal, assignment, reversal, searching, comparison, and the functional methods) yields exactly the documented sequence, position or answer, in terms of the slice it is called on and not of the storage behind it. Within its domain it neither aborts nor leaves an array that reaches past its storage. Searches report the first match in their direction and miss none.',
     ['inputs', 'histories'], 'every public Array operation, slice position, slice length, argument value and sharing state',
     'Tests use a handful of fixed arrays and mostly whole-body slices; the results must be right for every offset, length and sharing state.',
     ['include/array.h'],
     [('slices', 'ArrayR::slice, head, tail, drop, shorter'), ('mutators', 'ArrayR::insert, remove, set, reverse, delete_if'), ('searches', 'ArrayR::find, rfind, detect, bsearch, compare')])
prop('P03', 'Reference counts are atomic and balanced; the last release, and only that, deletes',
     'Taking and giving up a reference each change the count by one in a single atomic step, ordered strongly enough for deletion; the thread whose own decrement took the count to zero deletes the object, exactly once, and no other thread touches the object after its decrement. Every operation on a counted reference (construction, copying, assignment including to itself, destruction, unsharing) leaves the count changed by exactly the references made and dropped, counting the new target before releasing the old.',
     ['schedules', 'histories'], 'every interleaving of threads taking and giving up references; every aliasing of the operands of a reference operation',
     'A lost update or a premature delete needs an interleaving that tests do not control; self-assignment and null cases are not all tried.',
     ['include/refcount.h'],
     [('count', 'RefCounted::AddRef, RefCounted::Release'), ('counted reference', 'Ref')])
prop('P04', 'Map values are isolated copy-on-write, and answer exactly as specified',
     'Whatever maps share a body, changing one (insert, put, remove, clear) never changes the contents of any other; bodies that others share are never written, each is freed exactly once when its last map goes, and no entry or iterator is used after it is gone. Every operation yields what is documented: insert keeps an existing entry, put replaces it, lookup of a missing key gives a default value, the functional methods visit each entry once in key order and give the documented answer.',
     ['inputs', 'histories'], 'every public CowMap operation, all keys, values and predicate answers (symbolically), every sharing state of the operands, maps of up to 3 entries',
     'Tests use small maps that are not shared when changed; a missing copy before a change shows only in some other value.',
     ['include/cowmap.h', 'include/refcount.h'], [('copy on write', 'CowMap::Unshare and the mutators of CowMap'), ('lookups and functional methods', 'CowMap')])
prop('P05', 'String values are isolated: no operation changes another string or misuses memory',
     'Whatever strings, substrings and references share a body, an operation on one string never changes the text of any other, nor of the operands it only reads (also when both operands are the same string or slices of one body). Text that is shared, static or a constant is never written or freed; every body and its text is freed exactly once, when the last string goes, and is not used after that; no byte outside the text is read or written; reference counts match the references held. As characters may be counted by any thread that shares a body, a count is stored into a shared body only when it is final. Copies and substrings of a string share its text, and looking at one never copies it: none of them allocates (static text excepted).',
     ['inputs', 'histories'], 'every public operation of StrVal and StrRef; strings without text, sole owners, shared, whole bodies and slices of them, static text, counted and uncounted, with and without bookmarks; every aliasing of the operands; texts of up to 9 characters of 1 to 4 bytes, illegal and raw bytes',
     'Which strings share a body is invisible to the caller; tests try few sharing patterns with mostly ASCII text.',
     ['include/strval.h', 'include/array.h', 'include/refcount.h'],
     [('copy on write', 'StrValI::Unshare, copyBody'), ('text storage', 'StrBodyI, ArrayBody'), ('mutators', 'StrValI::insert, operator+=, transform, toLower, toUpper')])
prop('P06', 'Every string operation yields exactly the characters its specification says',
     'For every string, slice and argument in its domain, each operation (construction, indexing, substrings, comparison, forward and backward searches for characters, strings, and members of sets, concatenation, repetition, insertion, case conversion, transformation) gives exactly the documented characters, position or answer, in terms of the characters of the slice, whatever the byte lengths of the characters and whatever position was visited before. The cached character count and bookmark left behind always agree with the text.',
     ['inputs', 'histories'], 'as P05; every index and count around the ends of the text (number of characters for tail is at most the length); operands both UTF-8 or both raw',
     'Errors appear only with particular byte lengths, offsets and bookmarks, which multiply far beyond what tests try.',
     ['include/strval.h', 'include/char_encoding.h'],
     [('positions', 'StrBodyI::nthChar, countChars'), ('searches', 'StrValI::find, rfind, findAny, findNot'), ('mutators', 'StrValI::insert, StrBodyI::transform')])
prop('P07', 'Reading text never passes its NUL, nor backs up past its origin',
     'For every byte sequence, valid or not: decoding a character, measuring it, or stepping a guarded pointer over it reads no byte after the first NUL, even if the NUL interrupts a multi-byte sequence; backing up reads at most six bytes, and none before the limit or origin given.',
     ['inputs'], 'every byte sequence around the current position, every distance from the NUL and from the origin, every step count analysed',
     'Tests decode valid text; the bytes that make a decoder run past the terminator are exactly the ones that do not appear in ordinary text.',
     ['include/char_encoding.h', 'include/utf8_ptr.h', 'include/char_ptr.h'],
     [('decoding', 'UTF8Get, UTF8Len, UTF8Peek'), ('backing up', 'UTF8Backup'), ('guarded pointers', 'NulGuardedUTF8Ptr, GuardedUTF8Ptr, NulGuardedCharPtr, GuardedCharPtr')])
prop('P08', 'Character encodings are exact and lossless, for every character and every byte sequence',
     'UTF8Put writes exactly the shortest 1-6 byte form of every 32-bit character, UTF8Len(character) is the number of bytes it writes, and UTF8Get gives the same character back and consumes the same bytes. For every byte sequence UTF8Get either decodes one well-formed sequence or consumes one byte and yields 0x800000yy; UTF8Len(pointer) agrees with it, and UTF8Backup undoes it. UTF-16 puts, gets and lengths agree likewise, surrogate pairs and both byte orders included.',
     ['inputs'], 'all 2^32 characters; all byte sequences; all UTF-16 units and pairs, both byte orders (lone surrogates are outside the domain of UTF16Get)',
     'A test samples a few characters of each length; boundaries, illegal sequences and the six-byte range are too many to sample.',
     ['include/char_encoding.h'], [('UTF-8', 'UTF8Get, UTF8Put, UTF8Len, UTF8Backup'), ('UTF-16', 'UTF16Get, UTF16Put, UTF16Len')])
prop('P09', 'Case conversion and digit values depend only on the character',
     'Upper, lower and title case, digit and hex digit values and the alphabetic class of every 32-bit character are those of the Unicode tables the library was built from (characters outside them are unchanged, not digits, not alphabetic), whatever calls were made before and whatever other threads do to the shared memo meanwhile. The memo is only accessed atomically and no table is read outside its bounds.',
     ['inputs', 'histories', 'schedules'], 'all 2^32 characters; every value the memo can hold, at every read of it',
     'The memo makes each answer depend on previous calls and other threads; tests call in one order on one thread and sample the characters.',
     ['src/char_encoding.cpp', 'src/case_conversions.c', 'include/char_encoding.h'],
     [('lookup', 'UCS4ToUpper, UCS4ToLower, UCS4ToTitle, UCS4Digit, UCS4HexDigit, UCS4IsAlphabetic'), ('tables', 'UnicodeToUpper, UnicodeToLower, UCS4_DigitRanges')])
prop('P10', 'Guarded text pointers move exactly as far as asked, or to the guard',
     'Each operation of a guarded pointer (increment, decrement, += -= + -, differences, copying) moves by whole characters, exactly as many as asked, except that it stops at the NUL going forward and at the origin going back; it keeps the origin, returns the value the operator promises and leaves its other operands alone. Stepping back over UTF-8 undoes stepping forward.',
     ['inputs', 'histories'], 'every byte sequence, distance from the origin and NUL; step counts up to 4 (plain), 3 (ASCII seen as UTF-8) and 1 (arbitrary UTF-8)',
     'Parsers built on these pointers rely on them at the very ends of the text and inside malformed text, which tests rarely visit.',
     ['include/char_ptr.h', 'include/utf8_ptr.h'], [('pointers', 'NulGuardedCharPtr, GuardedCharPtr, NulGuardedUTF8Ptr, GuardedUTF8Ptr')])
prop('P11', 'Every Pegexp means exactly what a possessive PEG means',
     'For every text, and whatever its operands do, each operator (sequence, group, alternation, optional, repetition, look-ahead, label, each terminal and escape) succeeds, fails and moves exactly as a possessive PEG with prefix operators defines, alone or nested in any other; a search finds the earliest match. Captures made on a path that failed are rolled back and no others; nothing is captured in a look-ahead; captures in a repetition are marked so; failures are reported for the terminals that failed, where they failed; every match ends. The pattern is never read beyond its NUL, even where it is not well formed.',
     ['inputs', 'histories'], 'every text and every behaviour of the operands (as extensions); every operator over every operand shape to nesting depth 3 in each kind of context (ASCII patterns; a hyphen in a class stands first, in a range, or before the bracket after a property)',
     'Tests try fixed patterns on fixed texts; combinations of operators, failures part way and captures to be undone multiply without bound.',
     ['include/pegexp.h', 'include/char_encoding.h'],
     [('operators', 'Pegexp::match_atom, match_sequence'), ('terminals', 'Pegexp::char_class, char_property, literal_char'), ('skipping', 'Pegexp::skip_atom'), ('search', 'Pegexp::match, match_here')])
prop('P12', 'A Peg grammar parses as its rules define, and every parse ends',
     'A rule call finds exactly the rule of that name, whatever the order of the table and however names extend one another, or fails; it matches as if the rule stood in its place, in a context of its own that is opened with the caller as parent and closed before the caller goes on. A rule called again where it already started, directly or through others, fails instead of recursing, so every parse ends. A call is captured under its label (or the rule name) exactly when it succeeded outside look-aheads and its caller wants that name, with the captures of its own context; captures on failed paths do not survive; failures are reported where they happened.',
     ['inputs', 'histories'], 'every text, every choice of what rules capture; grammars enumerated by shape (sequences, alternations, repetitions, look-aheads and labels of calls; direct, indirect and hidden left recursion; undefined and unclosed calls); tables in several orders',
     'Tests parse one grammar; recursion, rollback across rules and names that share prefixes appear only in others.',
     ['include/peg.h', 'include/pegexp.h'],
     [('lookup', 'Peg::lookup, Peg::Peg'), ('calls', 'PegPegexp::match_extended, parse_call'), ('left recursion', 'Peg::recurse')])
prop('P13', 'A Variant always holds what its type says, and never loses a value',
     'In every history of construction, copying, assignment (to itself too), coercion and destruction, a Variant contains exactly one live value of the type it reports; each value is destroyed exactly once, and none is overwritten, leaked, or read as another type. Copies and assignments give the same type and value. Coercion between integers and strings preserves the value, and aborts, rather than change it, whenever it cannot; a read through a const reference never coerces. as_json emits the documented layout for each indent, with every element once, in order.',
     ['inputs', 'histories'], 'every public Variant operation, every pair of types, all numbers; arrays and maps of up to 3 elements, indents -2 to 2',
     'A leak, a double destruction or a mistaken payload shows only for particular pairs of types; tests coerce a few small values.',
     ['include/variant.h', 'src/variant.cpp'], [('payload', 'Variant constructors, operator=, coerce_none'), ('coercion', 'Variant::coerce, must_be'), ('JSON', 'Variant::as_json')])
prop('P14', 'Error numbers keep their set and message and are never mistaken for success',
     'For every subsystem set and message number the error number returns the same set (16 bits) and message (14 bits), always has the sign and custom bits set, survives conversion to a plain integer and back, and compares as that integer; only zero is no error, and it stays zero. An Error gives the number (as ErrNum and as an integer), text and parameters that it was made with, whether or not it has a text or parameters, and so do its copies and whatever it is assigned to; the last of them to go, and only that, releases what they share.',
     ['inputs'], 'all values of set, message and 32-bit error number; errors made in each of seven ways, each copied, assigned over each, and to itself',
     'Tests use a few small numbers; the packing must not mix fields for any value.',
     ['include/error.h'], [('packing', 'ErrNum')])

prop('P15', 'Threads are registered, ended and joined exactly once, without races or deadlock',
     'At every moment at which the latch that protects them is free: the threads registered are exactly main and those that were started and not yet joined or deleted, each under its own id, and the count of ended threads is the number of those that have ended; nothing of this is read or changed without holding that latch. resume() starts the thread once and has registered it before it can run or end; if it cannot be started it remains New, without id, unregistered. A thread\'s run() is called once, and its end (also by exit(), which ends only the calling thread) is recorded and wakes all waiting joinAny. join() returns only after the thread has ended; joinAny() returns a thread that has ended, joined, and not returned before, waits if some are running and none has ended, and returns null exactly if none is left; neither misses or repeats a thread even if thread ids are used again. No operation blocks, runs user code or exits while holding a latch, and none returns still holding it. A Latch is held by at most one thread, knows its holder, and probe/enter/holding/leave do what they say; Condition::wait lets go of the latch while waiting and holds it afterwards; timed waits and yield last as long as asked, with valid times, also if interrupted; main is registered before any other thread can exist.',
     'schedules', 'every interleaving of any threads using the library, with spurious wake-ups, failures to start a thread, and reuse of thread ids',
     'the schedules that break this (an end between creation and registration, a wake-up between two waits, an id used again before join has finished) have windows of microseconds; the test starts threads and joins them all',
     ['include/thread.h', 'src/thread.cpp', 'src/condition.cpp', 'include/condition.h', 'include/lockfree.h'],
     [('registration', 'Thread::resume, Thread::ThreadProc, Thread::exit'), ('joining', 'Thread::join, Thread::joinAny, Thread::remove_ended'), ('latches', 'Latch'), ('conditions', 'Condition::wait, signal, broadcast')])

prop('P16', 'A regular expression matches exactly what it means, with captures of one way of matching',
     'For every expression, text and offset: matchAt succeeds exactly if the text at the offset has a prefix that the expression describes, and matchAfter exactly if it does so at some place at or after the offset; the match is at the earliest such place and is the longest there. The number, names and places of the captures are those of the expression: capture 0 is the match, every other one is what its group matched (the last time) in one way of matching all of it, or zero if it took no part. Counted repetitions, nested ones too, are exact; nothing depends on the length of the expression, the number of its groups, alternatives or names, or the sizes of the offsets in the compiled program. A NUL-terminated copy of a compiled program is the same program.',
     ['inputs'], 'every expression of up to 2 operators (over literals, any, classes, anchors, all repetitions, captures, alternatives, look-aheads), a fixed pseudo-random set up to 7 operators (repetitions nested at most twice), families over each size at which an encoding changes, each character as literal, escaped and in classes, each feature on, off and rejected; texts of unknown characters (length to 2 or 3), longer ones in part known. {0} and {0,0}, the NUL character, and what is empty only in places under counted repetition are outside',
     'Results go wrong for particular combinations of operators, or at sizes where an encoded offset gains a byte; the tests try some dozens of expressions with one text each.',
     ['rx/rxcompile.cpp', 'rx/rxmatch.cpp', 'rx/strregex.h'],
     [('scanning', 'RxCompiler::scanRegex'), ('compiling', 'RxCompiler::compile'), ('decoding', 'RxProgram::RxProgram, decode'), ('matching', 'RxMatch::addthread, matchAt, RxResult')])
prop('P17', 'Compiling and matching a regular expression is memory-safe, ends, leaks nothing and changes no program',
     'For every string, valid as an expression or not, and every text: compiling and matching it read and write only inside live objects, read nothing that was not written, read the program and the text only up to their NULs, never abort, and end; everything allocated is released by the matching form of delete when the result, the text, the program and the compiler are gone; a compiled program is never changed by matching (so that threads may share it). Dumping a program visits each of its instructions once and ends at its NUL.',
     ['inputs', 'histories'], 'every string of up to 3 of 25 symbols; errors of each kind in 15 surroundings; the expressions of P16 with part of the sizes; texts as P16',
     'Unusual expressions overflow fixed arrays and estimates, or leave threads and results behind, without a wrong answer that a test could see.',
     ['rx/rxcompile.cpp', 'rx/rxmatch.cpp', 'rx/rxdump.cpp', 'rx/strregex.h'],
     [('size of the program', 'RxCompiler::compile'), ('threads', 'RxMatch'), ('results', 'RxResult, RxCaptures')])
prop('P18', 'Exactly the valid regular expressions are accepted, under any set of features; errors say what and where',
     'For every string and every set of enabled and rejected features, compile succeeds exactly if the string is an expression of the enabled syntax: what belongs to a disabled feature is literal, and what uses a rejected feature is an error. If it fails there is a message, an offset within the string, and no program; if it succeeds there is no message. Compiling again with the same compiler does the same.',
     ['inputs', 'histories'], 'every string of up to 3 of 25 symbols, 4 of 15 and 5 of 8; each feature enabled, disabled, rejected, alone and with each construct; errors of each kind in 15 surroundings; limits (12 nested groups, 254 names, counts to 254). What {+1}, \\x-1 and the like mean is not specified',
     'Wrong expressions are endless, and each error path leaves its own state behind; tests try one of each kind.',
     ['rx/rxcompile.cpp', 'rx/strregex.h'],
     [('scanning', 'RxCompiler::scanRegex'), ('features', 'RxCompiler::supported, enabled'), ('errors', 'RxCompiler::compile, errorMessage, errorOffset')])
prop('P20', 'A number read from text is the number it says, or an error',
     'For every text and every radix (0, which reads the prefixes of C, or 2 to 36), asInt32 gives exactly the value of the number that the text holds (spaces around it, a sign, the prefix that the radix allows, digits of any script and letters of either case), or the error that applies: nothing but spaces, no number, something after it, too large for 32 bits (however large), or a radix that is not one. How many characters were used is within the number and the spaces after it. Nothing else is read or changed: not what follows the slice, not if no error is asked for.',
     ['inputs'], 'every radix from 2 to 36 at the limits of 32 and 64 bits, with unknown last characters; every text of one unknown character of any encoded size, and of two ASCII ones; a prefix, sign, zero or space before or after unknown characters; whole strings, slices and shared strings; texts to 200 digits. Radix 1, and zeros of other scripts as prefix, are not specified',
     'Overflow detection fails only for some radix and some digits near a limit; each combination of sign, prefix, space and end of text is a case of its own.',
     ['include/strval.h'],
     [('numbers', 'StrValI::asInt32'), ('digits', 'StrValI::Digit, HexAlpha'), ('white space', 'UCS4IsWhite')])
prop('P21', 'The JSON form of a string is JSON, and reads back as the same characters',
     'For every string, asJSON and toJSON yield text that by the rules of JSON reads back as exactly the same characters: quotes, backslashes and control characters escaped, characters beyond 16 bits as surrogate pairs or themselves, bytes that are no character (stray bytes, encodings beyond Unicode) as U+FFFD. asJSON leaves the string, and toJSON every other string that shares its text, as they are; the number of characters of the result is right.',
     ['inputs'], 'every character of every encoded size (1 to 6 bytes, stray bytes, incomplete ones) alone and beside characters of each kind, the NUL included; own, shared and partial strings; long results',
     'Escaping fails for single characters out of a million, and for what a file happens to hold that is not text.',
     ['include/strval.h'],
     [('escapes', 'StrBodyI::toJSON'), ('surrogates', 'UCS4HighSurrogate, UCS4LowSurrogate'), ('rewriting', 'StrBodyI::transform')])
prop('P22', 'Formatting and joining put exactly the right texts in the right order',
     'format yields the text of the format with each conversion replaced by its argument: the next one, or the one that its number gives (after which the next one follows that); a * for a size or precision takes an argument of its own; text between conversions, including a final %, is kept. %s of a number is its decimal digits, like %d. join yields the elements in order with the joiner between each two and nowhere else, for every slice of an array, and the empty string for no elements. Nothing is read outside the texts and nothing is left behind.',
     ['inputs'], 'every pair of 15 conversions and text pieces (three in the thorough tier), with arguments of text and numbers, unknown characters among them; arrays of up to 40 elements, empty ones too, every slice of one of 7; joiners of 0 to 5 characters of any size. What sizes over 1 and precisions do, and other conversions, is not specified',
     'The order in which * and numbered arguments are taken, and the ends of a format, are cases that tests of one format do not meet.',
     ['include/strformat.h', 'include/strval.h', 'include/variant.h'],
     [('formatting', 'StrValI::format'), ('joining', 'StringArray::join')])
prop('P19', 'Everything declared can be used, and what is const cannot be changed',
     'Every header can be included first, alone, and in several sources of one program; every function that is declared is defined, once; every template can be instantiated, with the documented and with the default parameters, and every one of its members can be called. A const string, array, map or variant, and the text of any string, offers no way to change it that compiles; references convert only the way the types allow.',
     ['inputs'], 'every function and class template of include/ and rx/ with the parameters that the library, its tests and its documentation use (16-bit and 32-bit string indexes, default Pegs); the functions declared in any header',
     'A template member that no test instantiates is not compiled at all; what must not compile cannot be in a test that builds.',
     ['include', 'rx'],
     [('default Peg', 'PegContextNoCapture'), ('references', 'Ref'), ('16-bit strings', 'StrValI'), ('regex results', 'RxResult')])
prop('P23', 'A source reads its text in order, and always knows where it is',
     'get_char gives the characters of the text (get_byte: the bytes) one after the other, each exactly once; at the end, and in a source that is nowhere, they give the value for the end and do not move, and nothing is read beyond the NUL. The byte, line and column reported, and the answers to at_eof and at_bol, are those of the place reached. A copy stays where it was; going back to it restores everything. Order, distance and the text between two places are those of the text.',
     ['inputs', 'histories'], 'all texts of up to two unknown characters (1 to 4 bytes, stray and incomplete bytes, newlines) and some of three; sequences of up to four reads, copies and returns (all of them in the thorough tier); sources over pointers, guarded pointers, bytes, and PegMemorySource. What get_char gives for what is no character is left to P08',
     'Backtracking returns to places after any history of reads; one count left behind shows only in some later error message.',
     ['include/pegexp.h', 'include/peg_ast.h'],
     [('reading', 'PegexpPointerSource'), ('memory source', 'PegMemorySource')])
prop('P24', 'A parse returns the tree of what it captured, and otherwise why it failed',
     'For every grammar and text, the tree that PegContext returns has exactly the captures of the successful path: nothing from alternates, iterations and look-aheads that failed or only looked; each under its label, or the name of the rule; the text of a labelled atom, the tree of a rule that captured something and else its text; a single value, or an array in order if captured again or in a repetition; nothing for empty text. A parse that fails returns no tree, and always the furthest place at which a literal or class failed (outside look-aheads), each one that failed there, once, and the path of rules to it. Nothing is left behind.',
     ['inputs'], 'some 250 grammars by shape (labels, repetitions, alternates, groups, look-aheads, nested and recursive rules, capture lists present, partial or absent); every text of up to three characters (four in the thorough tier) of four different ones',
     'What is captured on a path that fails later must be undone; which failure is the furthest depends on every path tried.',
     ['include/peg_ast.h', 'include/peg.h', 'include/pegexp.h'],
     [('captures and undo', 'PegContext::capture, rollback_capture'), ('failures', 'PegContext::record_failure'), ('results', 'PegContext::match_result, match_failure')])
prop('P25', 'An array of strings holds the strings it was given',
     'A StringArray made from strings, from texts, from a variant or by appending has exactly the strings given, in order, for any number of them and any room asked for; it keeps their texts alive when the originals are gone. [], elem, last, pull, delete_at, slices and appending give and leave what they do for any array; copies and slices made before are unaffected; nothing is released early, twice or never.',
     ['inputs', 'histories'], 'arrays of 0 to 6 strings (24 once) of unknown characters, own, shared and partial; every slice; sequences of up to two operations',
     'An array of references to shared texts has an element size and an ownership of its own, which arrays of numbers do not exercise.',
     ['include/strval.h', 'include/array.h', 'include/variant.h'],
     [('string arrays', 'StringArray'), ('references', 'StrRef')])
prop('P26', 'Nothing happens behind the caller\'s back: no allocation, waiting, output or shared state',
     'Matching a Pegexp, parsing with a Peg that captures nothing, sources, guarded pointers, the character functions and ErrNum never allocate heap memory (nor stack of unbounded size), and take no lock. Copies and slices of arrays, and copies of maps, share their data without allocating. No operation of the library keeps state outside of the objects it is given where another call or thread would find it: objects of static storage are constant after start-up, atomic, or held under a latch. What operations use is there before any code of the user runs, so static objects may be made with them. Nothing but dump functions does output (except before a failed assertion), nothing but threads, latches and conditions waits, and nothing ends or alters the process.',
     ['inputs', 'schedules'], 'every function of the library and every member of its templates as instantiated by the witnesses of P19; all paths through the call graph, whether or not their conditions can be met together',
     'An allocation or a static buffer on a rare path makes no test fail; a race on a hidden static shows in no single-threaded test; what goes wrong before main depends on the order of files.',
     ['include', 'src', 'rx'],
     [('Pegular expressions', 'Pegexp::match_here'), ('parsing', 'Peg::parse, lookup, recurse'), ('null strings', 'StrBodyI::nullBody'), ('character memos', 'UCS4ToUpper, UCS4ToLower, UCS4Digit')])
prop('P27', 'Arrays and strings with small indexes work up to the largest size they can count',
     'Array<T, Index> and StrValI<Index> with an index of 8 or 16 bits do, at every size up to the largest that the index can count, what they do with larger indexes: adding (push, unshift, append, insert, prepend, +, +=, *), cutting (slice, substr, remove, drop, tail, shorter, delete_at, shift, pull), setting, reversing, looking, comparing, changing case, escaping, and making strings from texts, counted texts and raw bytes; copies are unaffected and nothing is released early, twice or never. What would become larger than can be counted stops at an assertion: nothing is silently cut short, and no memory outside of what was allocated is touched.',
     ['inputs', 'histories'], 'index of 8 bits: arrays of 0 to 255 elements and strings of 0 to 254 bytes, of one-byte and of mixed characters (sizes around every power of two and all from 238 up; thorough: every size), own, shared and partial; known contents; index of 16 bits: sizes around 32768 and 65535',
     'With 32-bit indexes the limits are out of reach of a test, and the arithmetic on the way there (rounding up, growth by half, sums) is promoted differently for each type of index.',
     ['include/array.h', 'include/strval.h'],
     [('capacity', 'ArrayBody::resize, insert'), ('unsharing', 'ArrayR::Unshare, StrValI::copyBody'), ('raw bytes', 'StrBodyI::isRawBinary')])
