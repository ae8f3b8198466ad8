#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif: python3 tools/gen_properties.py)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = state
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

FP = "include/sharg/detail/format_parse.hpp"; PA = "include/sharg/parser.hpp"; VA = "include/sharg/validators.hpp"
FB = "include/sharg/detail/format_base.hpp"; FH = "include/sharg/detail/format_help.hpp"
HT = "include/sharg/detail/format_html.hpp"; FM = "include/sharg/detail/format_man.hpp"; VC = "include/sharg/detail/version_check.hpp"

p("P01", "Every spelling of an option delivers exactly the user's text",
  "For a declared single-value option, the spellings `-o v`, `-ov`, `-o=v`, `--opt v` and `--opt=v` all store exactly the text v (byte for byte, also when v contains '=', '-', spaces or non-ASCII bytes) and parse without error; `--optv` is not that option. An option written as the last token before the end of the options, or as `-o=` / `--opt=`, is reported as too_few_arguments and never stored.",
  ["inputs"], "all argv whose tokens have up to a few arbitrary bytes, for every spelling and short/long id",
  "Tests use a handful of literal values per spelling; the value bytes and neighbours of the '=' position are unbounded.",
  [FP], [("identify_and_retrieve_option_value splits token into id and value", FP), ("find_option_id decides which tokens denote the option", FP)], ["value variable after parser::parse", "exception type"])
p("P02", "List options collect every occurrence in order and replace the default",
  "A list option holds, after a successful parse, exactly the values given on the command line and nothing of its default: all values given by the short id in command-line order, followed by all values given by the long id in command-line order when the options use both. When the option is not on the command line the default list is untouched.",
  ["inputs"], "all command lines mixing short/long spellings of a list option with other tokens",
  "Tests pin one or two orders; number, mixture and bytes of occurrences are unbounded.",
  [FP], [("container overload of get_option_by_id", FP)], ["list variable after parser::parse"])
p("P03", "Single-value options: at most once, required ones exactly once, else the default",
  "A single-value option given more than once (any mixture of its short and long id) makes parse() throw option_declared_multiple_times; a required option that is absent makes it throw required_option_missing. An option that is not on the command line keeps its initial value bit for bit, and a required option that is present never raises the error.",
  ["inputs"], "all command lines with 0..3 occurrences of the options in all spellings and orders",
  "Tests check a few fixed duplicates; which occurrence/spelling/order combinations are detected is not sampled exhaustively.",
  [FP], [("get_option / get_option_by_id", FP)], ["exception type", "value variable"])
p("P04", "Flags are set exactly when the user gave them",
  "After a successful parse a flag is true if and only if its short id occurred in an option-like token (alone or inside a cluster such as `-abc`, in any order) or its long id occurred as a whole token, before any `--`. A cluster `-abc` is equivalent to `-a -b -c`, and a character of a cluster or a long id that is not declared, as well as a flag that is given more than once, raises unknown_option.",
  ["inputs"], "all clusters over all bytes up to the bound, all positions relative to `--` and positionals",
  "Tests try two or three clusters; clusters with foreign bytes, repeats and tokens after `--` are not covered.",
  [FP], [("flag_is_set erases seen characters from a token", FP), ("check_for_unknown_ids", FP)], ["bool variables after parse", "exception type"])
p("P05", "`--` ends the options: everything after it is positional text",
  "No token after the first free-standing `--` is ever interpreted as an option, a flag, a special request (help, version, export, version check) or an option value; each is delivered verbatim as a positional argument. The `--` itself is not delivered.",
  ["inputs"], "all argv with `--` at any position followed by arbitrary tokens",
  "Existing tests use one or two literal tokens after `--`.",
  [FP, PA], [("end_of_options_it", FP), ("determine_format_and_subcommand scans the tokens", PA)], ["positional variables after parse"])
p("P06", "Positionals bind in order and no argument is ever ignored",
  "When parse() succeeds every command-line token has been consumed exactly once: as an option id, an option value, a flag (cluster), `--`, or a positional. Positional options receive the remaining tokens in command-line order, a trailing list positional receives all remaining ones; too few tokens raise too_few_arguments, left-over tokens raise too_many_arguments and option-like left-overs raise unknown_option.",
  ["inputs"], "all argv up to the bound of tokens and bytes against parsers with 0..2 positionals or a list positional",
  "Totality over every combination of token kinds cannot be sampled by literal examples.",
  [FP], [("check_for_unknown_ids, get_positional_option, check_for_left_over_args", FP)], ["positional variables", "exception type"])
p("P07", "Results do not depend on the order of declarations or of independent options",
  "Permuting the add_option/add_flag calls, and permuting whole option/flag groups on the command line relative to each other and to positionals, changes neither success nor the stored values (as long as no option value in a token of its own looks like a declared identifier).",
  ["inputs", "programs"], "all permutations of three declarations and of the command-line groups, arbitrary value bytes",
  "Tests use one declaration order each.",
  [FP, PA], [("queued option_calls/flag_calls executed in declaration order over shared token vector", FP)], ["all variables after parse"])
p("P08", "Integer arguments are stored exactly or rejected, never wrapped or truncated",
  "For every integer option type a text is accepted if and only if the whole text is an optional '-' (signed types only) followed by decimal digits whose value is representable; the stored value then equals the mathematical value. Every other text (empty, leading '+', spaces, trailing characters, overflow) raises user_input_error, also for the elements of a list, and numeric overflow is reported as out of range.",
  ["inputs"], "all texts up to the bound for int8..int64, uint8..uint64",
  "Boundaries of eight types times all texts; tests check one overflow per type.",
  [FP], [("parse_option_value for arithmetic types via from_chars", FP)], ["value after parse", "exception"])
p("P09", "Bool, string, path and enumeration values convert exactly",
  "bool accepts exactly 0, 1, true and false; an enumeration accepts exactly its declared names and stores the mapped enumerator; strings and paths are stored verbatim. For a bool or an enumeration every other text raises user_input_error and leaves the variable unchanged.",
  ["inputs"], "all texts up to the bound", "Tests use single literals per type.",
  [FP, "include/sharg/enumeration_names.hpp"], [("parse_option_value overloads", FP), ("enumeration_names", "include/sharg/enumeration_names.hpp")], ["value after parse", "exception"])
p("P10", "Any command line ends in success or a parser_error, never in a crash",
  "For every argv, parse() either returns, exits with status 0 for a special request, or throws an exception derived from sharg::parser_error; it never throws anything else, trips an assertion, or commits undefined behaviour (out-of-bounds access, use of dangling memory).",
  ["inputs"], "all argv up to the bound against parsers with options, flags, lists, enums, positionals, subcommands",
  "Arbitrary bytes in argv form an unbounded space.",
  [PA, FP], [("determine_format_and_subcommand, format_parse", PA)], ["exit code / exception / sanitizer"])
p("P11", "Identifiers are unique, well formed and never shadow the reserved ones",
  "add_option/add_flag throw design_error for a configuration whose ids are both empty, contain characters outside [a-zA-Z0-9_@-] (short: no '-'), have a one-character long id, begin with '-', or were already used by another option, flag, or a reserved id (h, hh, help, advanced-help, export-help, version, version-check, copyright); every other pair of ids is accepted. A parser accepted by these rules can set each of its options independently.",
  ["inputs", "programs"], "all id bytes and lengths up to the bound and all pairs of declarations",
  "Tests list a few bad ids.",
  [PA], [("verify_identifiers", PA), ("used_ids", PA)], ["design_error"])
p("P12", "Configuration and life-cycle misuse is always reported as design_error",
  "required together with a default message, a default message on a flag or positional, a flag initialised to true, a positional with ids/advanced/hidden, any positional after a list positional, or positionals together with subcommands (whichever is added first) throw design_error, and every combination outside these rules is accepted. After parse() has been called (whatever its outcome) parse() and every add_* call throw design_error; get_sub_parser() without a chosen subcommand and is_option_set() before parse() do too.",
  ["histories", "programs"], "all combinations of the configuration fields and all call sequences up to the bound",
  "Tests check single violations, not combinations or sequences.",
  [PA], [("verify_*_config, check_parse_not_called", PA)], ["design_error"])
p("P13", "Special requests are recognised exactly and take precedence over parsing",
  "If a token before the end of options that is not an option's value is exactly -h/--help, -hh/--advanced-help, --version, --copyright or --export-help with html/man (next token or after '='), parse() prints the requested page and exits with status 0 without touching any variable or raising a parse error; with several requests the page of one of them is printed. A malformed --export-help or --version-check (value missing or unknown) is always rejected, and tokens that only resemble a request, or that are the value of a preceding declared option, never trigger anything.",
  ["inputs"], "all argv up to the bound with arbitrary bytes near the special identifiers",
  "Tests use exact spellings alone on the command line.",
  [PA], [("determine_format_and_subcommand", PA)], ["exit status, printed page, variables"])
p("P14", "A run without arguments prints the short help; version check request is consumed",
  "With no arguments at all (or only a valid --version-check VALUE) parse() prints the short help and exits 0, otherwise it parses; a valid --version-check VALUE (0/1/true/false) is removed from the command line and influences nothing else, at any position before the end of options. An invalid or missing VALUE is always rejected.",
  ["inputs"], "all positions and values of --version-check in command lines up to the bound",
  "Tests use one position.",
  [PA], [("determine_format_and_subcommand", PA)], ["variables, exception"])
p("P15", "Subcommands split the command line at the first subcommand token",
  "With subcommands declared, the first token that is not an option's value and equals a subcommand selects it: the tokens before it are parsed by the top-level parser and exactly the tokens after it by the sub parser, whose application name is `<app>-<sub>`. A token not starting with '-' in that position that is no subcommand raises user_input_error, and without any subcommand get_sub_parser() throws design_error.",
  ["inputs"], "all argv up to the bound around two subcommands (one a prefix of the other) and a top-level option and flag",
  "Tests use a few literal lines.",
  [PA], [("found_subcommand", PA)], ["variables of both parsers, app name"])
p("P16", "Application and subcommand names are validated exactly",
  "parse() throws design_error if and only if the application name or some subcommand name is not a non-empty string over [a-zA-Z0-9_-]; this is checked before anything of the command line is interpreted.",
  ["inputs", "programs"], "all names up to the bound, all bytes",
  "Tests use a few bad names.",
  [PA], [("verify_app_and_subcommand_names", PA)], ["design_error"])
p("P17", "is_option_set tells the truth",
  "After parse(), is_option_set(id) is true if and only if that identifier of an option (short or long, as asked) was used on the command line before `--` to give the option a value. Asking for an identifier that was never declared, or with a one-character string, throws design_error.",
  ["inputs"], "all argv up to the bound; all queried ids",
  "Tests query two literals.",
  [PA], [("is_option_set via find_option_id", PA)], ["return value of is_option_set"])
p("P18", "Arithmetic range validation is exactly min <= value <= max",
  "arithmetic_range_validator{min,max} accepts a value if and only if min <= value and value <= max (never NaN), for signed, unsigned and floating types without wrap-around, also when the value's type differs from the validator's, and on a list if and only if every element is accepted; otherwise it throws validation_error.",
  ["inputs"], "all values of the type at full width and all min/max",
  "2^64 values times bounds.",
  [VA], [("arithmetic_range_validator::operator()", VA)], ["validation_error"])
p("P19", "Value-list validation is exactly set membership",
  "value_list_validator accepts a value if and only if it equals one of the declared values (a list: iff all elements do), for numbers (also of another arithmetic type than the list's), strings and enumerations; otherwise it throws validation_error.",
  ["inputs"], "all values at full width / strings up to the bound against lists up to 3 entries",
  "Tests use one list.",
  [VA], [("value_list_validator::operator()", VA)], ["validation_error"])
p("P20", "Regex validation requires a full match of every element",
  "regex_validator accepts a string if and only if the whole string matches the pattern (a list: iff every element does), never just a part of it; otherwise it throws validation_error.",
  ["inputs"], "all strings up to the bound for representative patterns",
  "Tests use one pattern and few strings.",
  [VA], [("regex_validator::operator()", VA)], ["validation_error"])
p("P21", "Validators guard every user-supplied value; chains mean logical AND",
  "parse() never returns successfully with a user-supplied option or positional value that the declared validator rejects: rejection always surfaces as validation_error. A chain `a | b` accepts exactly when both accept, and a validator is never run on an option the user did not set.",
  ["inputs"], "all values, chains of up to three validators, options/positionals/lists, set or unset",
  "Tests use fixed chains.",
  [VA, FP], [("validator_chain_adaptor", VA), ("get_option, get_positional_option call the validator", FP)], ["validation_error"])
p("P22", "Input validators accept only existing, readable paths of the right kind",
  "input_file_validator accepts a path if and only if it names an existing readable regular file whose name ends in one of the allowed extensions (case-insensitively, compared as whole dot-separated suffixes; any if none given); input_directory_validator accepts only an existing, readable directory. Everything else throws validation_error, and the file system is left unchanged.",
  ["inputs", "fault_sequences"], "all file names up to the bound against all allowed-extension sets, all file states",
  "Tests try a handful of names.",
  [VA], [("file_validator_base::validate_filename / validate_readability", VA)], ["validation_error"])
p("P23", "Output validators enforce their mode and leave no trace of probing",
  "output_file_validator with create_new rejects every existing path and never alters it; with open_or_create it accepts existing files; both reject disallowed extensions and unwritable locations, and a path that did not exist before validation does not exist after it. output_directory_validator accepts an existing writable directory or one that can be created, and a directory that did not exist before does not exist afterwards while a pre-existing one survives with its content.",
  ["inputs", "fault_sequences"], "all initial file-system states and operation outcomes of the modelled environment",
  "Tests run on one healthy file system.",
  [VA, "include/sharg/detail/safe_filesystem_entry.hpp"], [("output_file_validator, output_directory_validator, safe_filesystem_entry", VA)], ["validation_error, file-system state"])
p("P24", "Help shows exactly what the visibility rules say",
  "-h shows every option, flag, section, subsection, line and list item that is neither hidden nor advanced; -hh and the exported pages (html, man) additionally show the advanced ones; hidden ones never appear on any page, while hidden and advanced options are still parsed. Every shown option appears with its short and long id and its description, once.",
  ["configurations", "inputs"], "all combinations of hidden/advanced over the entries and all help page kinds",
  "Tests check a few combinations on fixed pages.",
  [FB, FH, HT, FM], [("format_help_base operations; advanced/hidden checks", FB)], ["printed page"])
p("P25", "Help text layout loses no text",
  "Rendering a description on the help page keeps every non-white-space character in order (only mark-up escapes disappear), breaks lines only at blanks, and keeps a line within the layout width unless a single word is longer; mark-up never counts as width and is switched on only on a terminal. This holds for every description text.",
  ["inputs"], "all description texts up to the bound with arbitrary bytes including mark-up escapes, all indentations",
  "Tests check a few fixed descriptions.",
  [FH], [("print_text, to_text, text_width", FH)], ["printed page"])
p("P26", "The HTML page is well formed and escapes user text",
  "On the exported HTML page the characters <, >, &, double and single quote coming from developer or user text appear only as character references, mark-up escapes become properly nested and closed elements, and all list/section/paragraph elements opened are closed in order; this holds for every description text and every sequence of sections, lines and list items.",
  ["inputs", "histories"], "all texts up to the bound; all sequences of page elements up to the bound",
  "Tests compare two fixed pages.",
  [HT, FB], [("to_html, escape_special_xml_chars, maybe_close_list/paragraph", HT)], ["printed page"])
p("P27", "The man page keeps text out of the control channel",
  "On the exported man page every line that starts a roff request (a leading '.' or apostrophe) was emitted by the generator, never by a text of the developer or a default value, whatever line breaks the text contains, and all of the text is present unchanged.",
  ["inputs"], "all texts up to the bound", "Tests compare one fixed page.",
  [FM], [("format_man::print_*", FM)], ["printed page"])
p("P28", "The version check runs only when allowed, at most once per day",
  "Whether the update check runs is decided in this order: never if the developer disabled it, if SHARG_NO_VERSION_CHECK is set, or if no directory for the stored decision is writable; then an explicit --version-check of the user decides, and nothing is stored; then never if the stored time stamp is less than a day old or the stored decision is NEVER, always if it is ALWAYS. Otherwise the current time is stored, and the user is asked if standard input and standard error are terminals: y and a run the check, a and n are stored as ALWAYS and NEVER, everything else (and no terminal) skips it. So an undecided user is asked, and the check runs, at most once a day, and the next run respects what was stored. No call to get there raises an error, whatever the file system or the content of the stored file.",
  ["configurations", "histories", "fault_sequences"], "all combinations of developer/user/environment/cookie/time-stamp contents/terminal/answers",
  "Tests cover single combinations with the real clock and file system.",
  [VC], [("version_checker::decide_if_check_is_performed", VC)], ["return value, cookie files"])
p("P29", "Version strings are compared numerically and garbage never causes a message",
  "The update message is shown if and only if the application version from the server is well formed (digits.digits.digits) and numerically greater than the running version (likewise for the library and for the developer's messages in debug builds); malformed or missing server answers are ignored without failure.",
  ["inputs"], "all server answers up to the bound", "Tests use a few fixed server files.",
  [VC], [("version_checker::operator(), get_numbers_from_version_string", VC)], ["message printed"])
p("P30", "Nothing from the user reaches the shell command of the version check",
  "The command lines handed to the system shell by the version check consist only of the fixed program invocation, the quoted path of the version file, the fixed address, the validated application name and the version as digits.digits.digits: the shell splits them into exactly these words, whatever the home or temporary directory is called, and a version string that does not start with digits.digits.digits contributes no character.",
  ["inputs"], "all version strings and names up to the bound", "Tests never inspect the command.",
  [VC], [("version_checker constructor: version_regex", VC), ("call_server", VC)], ["argument of system()"])
p("P31", "Guarded file-system entries are always removed and nothing else is",
  "safe_filesystem_entry removes the guarded entry at scope exit on every path (also on exceptions) and nothing else; remove_no_throw/remove_all report whether removal succeeded.",
  ["histories", "fault_sequences"], "all outcomes of the removal operations", "Tests run two happy paths.",
  ["include/sharg/detail/safe_filesystem_entry.hpp"], [("safe_filesystem_entry destructor", "include/sharg/detail/safe_filesystem_entry.hpp")], ["file-system state"])
p("P32", "Defaults and value lists are printed faithfully",
  "The help page shows the default of every non-required option: strings and string-like values in double quotes, lists in brackets in order, a given default message instead of the value; required options and flags show none. The values of a value list (of strings, numbers or enumerators) are all listed, in order; integers are printed as numbers whatever their width. White space is kept up to its amount.",
  ["inputs", "configurations"], "all default strings up to the bound, list sizes 0..2, required/default message combinations",
  "Tests compare a few fixed pages.",
  [FB, "include/sharg/detail/to_string.hpp"], [("format_help_base::add_option, to_string", FB)], ["printed page"])
p("P33", "Tool description export (CTD/CWL) is faithful",
  "The CTD and CWL documents written by --export-help ctd|cwl list every non-hidden option, flag and positional with its id, type, default and restrictions.",
  ["configurations"], "all configurations", "Tests compare one page.",
  ["include/sharg/detail/format_tdl.hpp"], [("format_tdl", "include/sharg/detail/format_tdl.hpp")], ["printed document"])
p("P34", "Floating point arguments convert as a whole or are rejected",
  "A floating point option, positional or list element accepts a text if and only if the conversion of the standard library (std::from_chars) consumes the whole text without an error; the stored value is that number bit for bit, of the type of the variable. Every other text (empty, trailing characters, no number) raises user_input_error, and a number that is out of range is reported as such.",
  ["inputs"], "all texts up to the bound and all results of the conversion", "Tests sample a few numbers; which part of a text the conversion consumes varies with the text.",
  [FP, "include/sharg/std/charconv"], [("parse_option_value (arithmetic)", FP)], ["outcome and value after parse"])
p("P35", "A parser can be moved before it parses",
  "Moving a parser (into a function, a container element or another variable) after options, flags, positionals and subcommands were added keeps its whole configuration: parsing with the moved-to parser has the same outcome, stores the same values and prints the same page as parsing with the original would have had.",
  ["inputs", "histories"], "all positions of one move or of a move assignment between the add_* calls and parse(), all command lines up to the bound",
  "One unit test moves a parser without options; which of the internal references dangle depends on what was added before.",
  [PA], [("queued operations (operations, parse)", PA)], ["outcome and variables after parse"])
p("P36", "The pages show the meta data of the application",
  "Every text the developer sets in parser::info (version, date, url, author, e-mail, citation, copyright, short description, synopsis, description, examples, title and section of the man page) appears unchanged and in order below the heading of its kind on every page it belongs to (help, advanced help, HTML and man page; version page: version, date and url; copyright page: the long copyright, else the short one; short help: short description and synopsis), and nothing announces a text that is not set: a heading is on the page if and only if there is something below it.",
  ["configurations", "inputs"], "all subsets of the texts (see the bounds), all pages",
  "Tests compare pages with all or none of the texts set.",
  [FB, FH, HT, FM], [("print_version, print_legal, parse of the help formats", FB), ("format_copyright, format_version, format_short_help", FH)], ["printed page"])
p("P37", "User-defined types are read by their own stream operator, as a whole",
  "A value of a user-defined type (single, or an element of any container with push_back) is converted by the stream operator of that type applied to exactly the user's text. It is accepted if and only if the operator does not fail and has consumed the whole text; every other text raises user_input_error. Containers receive one element per occurrence, in order, and lose their default.",
  ["inputs"], "all texts up to the bound, three operators, four kinds of variables, all spellings",
  "Tests use built-in types and one custom type with one value.",
  [FP, "include/sharg/concept.hpp", "include/sharg/detail/concept.hpp"], [("parse_option_value (istreamable, containers)", FP)], ["outcome and value after parse"])
open("properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
