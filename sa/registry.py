AI = 'abstract interpretation of the LLVM IR of every public operation (linear inequalities over initial cell values, trace-partitioned by ownership case; loops analysed for a generic iteration)'
CUBE = 'bit-level abstract interpretation of the LLVM IR (each bit 0, 1, an input bit or unknown; the input space is partitioned into cubes until every branch is decided)'
STR = 'abstract interpretation of the LLVM IR of every public operation, calls followed in place, over an abstract heap of shared bodies and unknown characters of known encoded size (every comparison is a case)'
RX = 'abstract interpretation of the LLVM IR of the compiler and the matcher, calls followed in place, over expressions enumerated by syntactic shape and texts of unknown characters (bit-level; every comparison is a case)'
TX = 'abstract interpretation of the LLVM IR of the operation, calls followed in place, over texts enumerated by shape whose characters are unknown (bit-level; every comparison is a case)'
CHECKS = {
    'P01': ('p_array', 'check_isolation', AI + ': ownership, reference counting and bounds obligations at every load, store, delete and return'),
    'P02': ('p_array', 'check_results', AI + ': the returned slice is compared, element by element, with a specification of the operation'),
    'P03': ('p_refcount', 'check_refcount', 'typestate and effect analysis of the LLVM IR of the counting primitives (every read of the count may have been changed by another thread) and of every operation on counted references (event balance per alias case)'),
    'P04': ('p_cowmap', 'check_cowmap', 'abstract interpretation of the LLVM IR of every public operation over a model of std::map and of reference counts (symbolic keys and values; every comparison and predicate answer is a case): ownership at every change, reference balance, results compared with a specification'),
    'P05': ('p_strval', 'check_isolation', STR + ': ownership, sharing, reference balance and bounds obligations at every load, store, delete and return'),
    'P06': ('p_strval', 'check_results', STR + ': texts, positions and answers compared, character by character, with a specification of the operation; bookmarks and counts checked against the text'),
    'P07': ('p_codec', 'check_bounds', CUBE + ': bounds obligation at every read of the text'),
    'P08': ('p_codec', 'check_codec', CUBE + ': results compared bit for bit with a specification of the encodings'),
    'P09': ('p_case', 'check_case', CUBE + '; reads of the memo yield any value any call may have stored; results compared with the recorded Unicode data'),
    'P10': ('p_codec', 'check_ptr', CUBE + ': positions compared with a model of guarded stepping'),
    'P11': ('p_pegexp', 'check_pegexp', 'abstract interpretation of the LLVM IR of the matcher, calls followed in place: composite operators over operands, text and captures about which nothing is known (every decision is a case), terminals over bit-level abstract 32-bit characters; outcomes, captures, failure reports and counters compared with the definition of a possessive PEG'),
    'P12': ('p_peg', 'check_peg', 'abstract interpretation of the LLVM IR of the parser, calls followed in place: rule calls, contexts, captures and failures over unknown text and capture decisions, for grammars enumerated by shape; compared with the definition of a PEG whose left recursion fails; lookups for every order of the table'),
    'P13': ('p_variant', 'check_variant', 'typestate analysis of the union payload in the LLVM IR of every public operation (constructed, assigned, read and destroyed only as what the tag says), with symbolic numbers and opaque payload values; results and JSON pieces compared with a specification'),
    'P15': ('p_thread', 'check_threads', 'rely-guarantee analysis of the LLVM IR of every operation on threads, latches and conditions: the shared state is replaced by every state the invariant allows whenever the latch is gained, and must satisfy the invariant whenever it is let go; latch held at every shared access, nothing blocks while holding it; times by linear arithmetic'),
    'P14': ('p_codec', 'check_err', CUBE + ': results compared bit for bit with the documented packing'),
    'P16': ('p_rx', 'check_meaning', RX + '; matches and captures compared with the denotational meaning of the expression, computed from an independent syntax tree'),
    'P17': ('p_rx', 'check_safety', RX + '; obligations at every access (inside a live object, defined, not in the program), allocation, assertion and loop'),
    'P18': ('p_rx', 'check_syntax', RX + '; acceptance, message and offset compared with an independent grammar'),
    'P19': ('p_use', 'check_use', 'type-level witnesses and queries over the type-checked program: every template instantiated and every member called, every declaration looked up among the definitions, static assertions, and uses that must not compile (each beside its twin that must)'),
    'P23': ('p_source', 'check_source', TX.replace('operation', 'operations') + '; sequences of reads, copies and returns compared with a model of a place in a text'),
    'P24': ('p_ast', 'check_ast', 'abstract interpretation of the LLVM IR of the parser with its tree-building context, calls followed in place, over every text of up to three characters of four, for grammars enumerated by shape; the tree and the reasons for failure compared with a specification'),
    'P25': ('p_source', 'check_strings', TX.replace('operation', 'operations') + '; elements after sequences of operations compared with a model of lists; reference balance and bounds at every access'),
    'P26': ('p_effect', 'check_effect', 'effect analysis: reachability of allocation, waiting, output and shared state over the call graph of the LLVM IR (virtual and indirect calls resolved to every candidate), and interprocedural def-use of every object of static storage'),
    'P27': ('p_index', 'check_index', 'abstract interpretation of the LLVM IR of arrays and strings with 8-bit indexes, calls followed in place, at sizes up to the largest that can be counted; results compared with a model of lists; bounds, definedness, release and assertion obligations at every step'),
    'P20': ('p_text', 'check_number', TX + '; value, error and characters scanned compared with an independent reader of numbers; bounds, definedness and release obligations at every access'),
    'P21': ('p_text', 'check_json', TX + '; the text made is read back, character by character, by the rules of JSON'),
    'P22': ('p_text', 'check_format', TX + '; the text made compared, byte by byte, with an independent reading of the format, and with the items and the joiner'),
}
