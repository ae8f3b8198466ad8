HOW = {
"P01": """Oracle: the stored string equals the symbolic value bytes for all five spellings, `--optv` is not the option, a
missing value is too_few_arguments and nothing is stored. The neighbourhood (options whose ids extend or share the id, flags, positionals) is enumerated.
Tests use a few fixed words; here the value bytes (`=`, `-`, bytes >= 0x80) and the identifier characters are variables.""",
"P02": """Oracle: the reference pass of `spec.h` computes the list (short id occurrences, then long id occurrences), compared element by
element; if the option is absent the default must be untouched. Symbolic value bytes let the solver pick equal values, empty-looking values and values that look like other tokens.""",
"P03": """Oracle: count of occurrences in the reference pass decides between success, option_declared_multiple_times and
required_option_missing; untouched variables must be unchanged.""",
"P04": """Oracle: multiset of characters per cluster against the declared ids; clusters are compared with the flags one by one.
Both the bytes of the tokens and the identifiers of the flags are symbolic.""",
"P05": """Oracle: everything after the first `--` must arrive verbatim as positional; the outcome must not depend on what those tokens spell (special requests, ids).""",
"P06": """Oracle: reference pass that consumes each token exactly once; the order and number of positionals decide the outcome and the values.""",
"P07": """Differential: the same configuration and the same groups in the canonical order and in every permutation, on one symbolic path; outcomes and values must be equal.""",
"P08": """Oracle: an independent decimal reader in 128-bit arithmetic; solver decides acceptance and equality for all bytes. Long prefixes put the symbolic digits exactly at the limits of each type.""",
"P09": """Oracle: the tables {0,1,true,false}, the declared names, and identity for strings and paths, over arbitrary bytes; variables must be unchanged after a rejection.""",
"P10": """No functional oracle: any outcome but a return, `exit(0)` or a `parser_error` (also `std::terminate`, a failed assertion, libstdc++
debug assertion, a memory error under ASan/UBSan on the replayed witnesses) is a violation.""",
"P11": """Oracle: the documented alphabet and uniqueness rules on symbolic id bytes; every accepted identifier is then used on a command line and must work.""",
"P12": """Oracle: truth table of the documented rules over all combinations (p12_config), and a small state machine
{not parsed, parsed} over all call histories (p12_history).""",
"P13": """Oracle: the reference pass decides which tokens are requests; the page is recognised by its content, exit status 0, no variable touched. p13_near takes one token with up to 18 arbitrary bytes.""",
"P14": """Oracle: the same command line with `--version-check VALUE` inserted at any position must behave like the one without it (differential), invalid values are rejected, no arguments print the short help.""",
"P15": """Oracle: split at the first subcommand token by the reference pass; both parsers are compared with stand-alone parsers on the two halves; nested subcommands up to three levels.""",
"P16": """Oracle: non-empty text over [a-zA-Z0-9_-]; checked for arbitrary bytes (NUL included), and that nothing of the command line was interpreted before.""",
"P17": """Oracle: the reference pass records which identifier gave a value; compared with is_option_set for every declared id, an arbitrary character and an arbitrary text.""",
"P18": """Oracle: comparison in the mathematical integers (128 bit) or IEEE double; all values of value, min and max at full width, no sampling.""",
"P19": """Oracle: disjunction of equalities, full width for numbers, bytes for strings and paths.""",
"P20": """Oracle: hand-written matchers (one per pattern) on symbolic bytes; libstdc++'s regex engine is executed symbolically.""",
"P21": """Oracle: the validator's meaning applied to the reference value; custom validators count their calls so that a validator run on an unset option is seen.""",
"P22": """Oracle: conjunction of the state of the path in the model file system (kind, permissions) and a suffix comparison on symbolic bytes; the file system must be unchanged afterwards.""",
"P23": """Oracle: state of the model file system before and after; fault schedules let every system call fail at every position.""",
"P24": """Oracle: the visibility table; each element carries a unique marker and must appear exactly once or never.""",
"P25": """Oracle: text of the printed page with white space removed equals the rendered text; every line fits the width unless it is a single word; escape sequences only on a terminal.""",
"P26": """Oracle: a small HTML checker (`page.h`) on symbolic output bytes: tags only from the generator's repertoire, properly nested, character references for special characters; text content equals the input.""",
"P27": """Oracle: the page is compared with the page of the same parser for a harmless text: the same request lines in the same order; a line from a text never starts a request; the text is present.""",
"P28": """Oracle: the documented decision table, one run (p28_decide), several runs with arbitrary times in between (p28_history), and a failing file system (p28_faults). Both the release and debug build.""",
"P29": """Oracle: numeric comparison of three components read by an independent reader; message printed iff newer.""",
"P30": """Oracle: a word splitter for POSIX sh: the recorded command must split into exactly the expected words. HOME, TMPDIR, version and name are symbolic.""",
"P31": """Oracle: state of the model file system: the guarded entry is gone unless the OS refuses, everything else is unchanged, no escaping exception; with faults at every call.""",
"P32": """Oracle: expected text built from the symbolic value, found on the captured page; numbers are printed by a stub in the symbolic build and for real in the replay.""",
"P34": """Oracle: the (stubbed) conversion result decides acceptance; bits of the stored value are compared.""",
"P35": """Differential: original and moved-to parser with the same configuration on one symbolic command line; outcome, values, pages must be equal.""",
"P36": """Oracle: every text is a unique word with symbolic characters; it must be on the page once, behind its label and below its heading, exactly if it is set and belongs to the page; headings exactly if they are needed.""",
"P37": """Oracle: hand-written readers of the same three formats on the symbolic bytes; the types' operators run on the real std::istringstream.""",
}
