#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so statements stay reviewable)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

A, G, U, V = "src/args.cpp", "src/argument.cpp", "src/usage.cpp", "src/valid.cpp"
AH, GH, UH, VH, UT, EH, XH = ("include/blet/args/args.h", "include/blet/args/argument.h", "include/blet/args/usage.h",
    "include/blet/args/valid.h", "include/blet/args/utils.h", "include/blet/args/exception.h", "include/blet/args/vector.h")
SI = "single_include/blet/args.h"
NOPARSE = "test/parseArguments.cpp needs the missing mockf submodule, so no parse test runs here; "

prop("P01", "Option values are stored verbatim in every spelling",
 "For a registered option that takes one value, every documented spelling (value as the next token, 'flag=value' on a short or long flag, a value without '=' attached to a short flag, and the same after leading boolean flags of a bundle) stores exactly the bytes the user typed, splitting only at the first '='. "
 "When the option is repeated the last value wins, and count() equals the number of times the option occurs, whatever spellings are mixed. "
 "No other argument's value, presence or count changes.",
 ["inputs"], "all argument vectors of the stated number of tokens, all value bytes (including '=', '-', empty values and flag look-alikes), all spellings and orders of occurrence",
 NOPARSE + "and even those tests use one literal value per spelling; values containing '=', leading '-', empty values, and repeated or mixed spellings are never tried.",
 [A, UT], [("takeArg splits at first '='", UT), ("parseShortArgument_ / parseLongArgument_ / parseArgument_", A)],
 ["Argument::getString", "Argument::count", "Argument::isExists"])

prop("P02", "Every token is accounted for exactly once, in order",
 "In every successful parse each command-line token after the program name is used exactly once: as an option token, as a value of exactly one option or positional argument, as the first '--', or as an additional argument; nothing is dropped, duplicated, altered or reordered. "
 "Additional arguments are exactly the tokens left over, in command-line order.",
 ["inputs", "configurations"], "all argument vectors within the token bounds, over mixed sets of options and positionals of every kind, strict and non-strict",
 NOPARSE + "conservation is a relation between the whole input and the whole result, over all interleavings of options, values and positionals; examples check a few fields of a few command lines.",
 [A], [("parseArguments main loop and index advance", A), ("parsePositionnalArgument_ leftover handling", A)],
 ["Args::getAdditionalArguments", "Argument accessors"])

prop("P03", "A bundle of short flags equals the flags given separately",
 "For any string of registered boolean short flags, the bundle '-abc' produces exactly the same presence, count and boolean value for every argument as '-a -b -c', and the last letter of a bundle may be any option, which then behaves as if it had been given alone. "
 "A bundle in which an option that needs a value (and cannot take the rest of the token as its value) is not last, or a help or version flag is not last, or which contains an unregistered letter where a flag is expected, is rejected with a ParseArgumentException naming that letter.",
 ["inputs", "configurations"], "all bundles up to the stated length over all letters, against all kinds of registered options",
 NOPARSE + "the bundle grammar multiplies letters, option kinds and positions; only a handful of two-letter bundles appear in any test.",
 [A], [("parseShortArgument_ prefix loop", A)], ["Argument::isExists", "Argument::count", "ParseArgumentException::argument"])

prop("P04", "'--' ends option processing for good",
 "Every token after the first '--' is treated as a positional or additional argument with its text unchanged, even if it is itself '--' or looks like (or is) a registered flag, and such tokens never set, unset or feed an option. "
 "No option or positional argument that starts before the first '--' takes a value from '--' or beyond it; one that would need to is rejected with a ParseArgumentException.",
 ["inputs", "configurations"], "all argument vectors within the token bounds with '--' at any place (or several), all option kinds before it and all positional kinds after it",
 NOPARSE + "the only '--' in the tests is followed by two plain words.",
 [A, UT], [("endOptionIndex / maxIndex", UT), ("hasEndOption branch of parseArguments", A)],
 ["Argument accessors", "Args::getAdditionalArguments"])

prop("P05", "Fixed-arity arguments take exactly N tokens or fail",
 "An option declared with nargs(N), N>1 and other than 43 (the code of '+'), (single or APPEND/EXTEND groups) and a positional argument declared with nargs(N) take exactly N consecutive tokens per group, verbatim and in order, and parsing continues with the token right after the group. "
 "If fewer than N tokens remain, or a single value is supplied through '=' or attached form, parsing fails with a ParseArgumentException naming the argument; a partial group is never stored by a successful parse.",
 ["inputs", "configurations"], "all argument vectors within the token bounds, N in the stated range, the option at any place in the line",
 NOPARSE + "off-by-one and boundary behaviour at the end of the line depends on N, position and line length together.",
 [A], [("NUMBER_OPTION / MULTI_NUMBER_OPTION / MULTI_NUMBER_INFINITE_OPTION cases", A), ("NUMBER_POSITIONAL / INFINITE_NUMBER_POSITIONAL cases", A)],
 ["Argument::operator[]", "std::vector conversions", "ParseArgumentException::argument"])

prop("P06", "List options collect the right run of values",
 "An open-ended option (nargs('+')/INFINITE, EXTEND) takes the maximal run of following tokens that ends right before the next token that is a registered option (in any accepted spelling), before the first '--', or at the end of the line; unregistered dash-words inside the run are values (a bundle only partly made of registered boolean letters is not specified). "
 "APPEND and EXTEND accumulate the values of all occurrences in command-line order, while INFINITE keeps only those of its last occurrence.",
 ["inputs", "configurations"], "all argument vectors within the token bounds with any dash-words inside the run, alternative mode on and off, repeated occurrences",
 NOPARSE + "where a run stops depends on arbitrary token text compared with the registered flags; tests use five literal tokens.",
 [A], [("endOfInfiniteArgument_", A), ("INFINITE / MULTI_INFINITE / MULTI cases of parseArgument_", A)],
 ["std::vector conversions", "Argument::operator[]"])

prop("P07", "Positional arguments fill in order; leftovers follow strictness",
 "Tokens that are neither options nor option values fill the positional arguments, required ones first and then optional ones, each group in declaration order, each taking the number of tokens its kind demands. "
 "Once all positionals are filled, a further token is appended to the additional arguments, or in strict mode the parse fails with a ParseArgumentException naming that token; a parse that leaves nothing over gives the same result in both modes.",
 ["inputs", "configurations"], "all declaration orders and required/optional mixes of up to four positionals of every kind, all token vectors within bounds, strict or not",
 NOPARSE + "order depends on the combination of declarations and required() calls made at any time, which the tests do not vary.",
 [A, G], [("parsePositionnalArgument_", A), ("compareOption_ keeps required positionals first", G)],
 ["Argument accessors", "Args::getAdditionalArguments", "ParseArgumentException"])

prop("P08", "Defaults appear exactly when the argument is absent",
 "After a successful parse an argument that does not occur on the command line yields exactly its declared default values through every accessor (string, vector, index, conversion), and an argument that occurs yields only what the command line supplied: default values are never mixed with, or left behind among, supplied ones. "
 "The default text reported by getDefault and in the usage message always describes the declared defaults, whatever the order of builder calls, and a default list whose size does not fit the declared nargs is rejected with an ArgumentException.",
 ["inputs", "configurations"], "all option and positional kinds with default lists up to the stated length, every spelling of the occurrence, all supplied values",
 NOPARSE + "no test combines defaults with every kind, spelling and number of supplied values.",
 [G, A], [("defaultsConstructor_", G), ("clear of defaults on first occurrence in parseArgument_", A), ("clear_", G)],
 ["Argument::getString", "vector conversions", "Argument::getDefault", "Usage::getUsage"])

prop("P09", "A parse succeeds only if every required argument was given",
 "If the parse returns normally, every argument marked required was supplied on the command line. "
 "If all tokens are acceptable but a required argument is missing (and neither help nor version was requested), the parse throws ParseArgumentRequiredException whose argument() is the first name or flag of a missing required argument; a default value does not satisfy the requirement, and optional arguments never trigger it.",
 ["inputs", "configurations"], "all subsets of required arguments among options and positionals of every kind, all token vectors within bounds",
 NOPARSE + "the guarantee quantifies over all command lines and all required sets.",
 [A], [("required check in parseArguments", A)], ["ParseArgumentRequiredException", "Argument::isExists"])

prop("P10", "Help and version requests win and report the right text",
 "Whenever every token parses and a help (or version) option occurs anywhere before '--', the parse ends by reporting exactly getUsage() (or getVersion()), through HelpException/VersionException when enabled and otherwise by printing it to standard output and exiting with status 0; required-argument, validation and destination processing never run first, and help wins over version. "
 "When no help option is declared, each of '-h' and '--help' that is still free becomes one, the command line is always parsed, and neither exception is thrown if neither option occurs.",
 ["inputs", "configurations"], "all token vectors within bounds, all subsets of user-declared '-h'/'--help'/'-v' flags, both reporting modes",
 NOPARSE + "the interplay of help, version, missing required arguments, invalid values and user-taken flags is combinatorial.",
 [A, G], [("help and version checks of parseArguments", A), ("typeConstructor_ help/version registration", G)],
 ["HelpException::what", "VersionException::what", "exit status and stdout"])

prop("P11", "Unknown or malformed option tokens are rejected by name",
 "A token that starts with '-' (other than '-' and '--'), occurs before '--', and is not consumed as an option's value is never silently ignored or stored as an additional argument: it either is a registered option in an accepted spelling or the parse fails with a ParseArgumentException whose argument() is the offending flag without its dashes (not specified for '-=x' and '--=x'). "
 "Flags match by exact, complete, case-sensitive comparison only: no prefix, abbreviation or partial match is accepted. A value given through '=' to an option that takes none is rejected.",
 ["inputs", "configurations"], "all tokens up to the stated length with arbitrary bytes, against several registered flag sets, alternative mode on and off",
 NOPARSE + "near-miss tokens (prefixes, case changes, extra characters, embedded '=') form a space no example list covers.",
 [A, UT], [("argumentFromName_ exact lookup", A), ("isShortOption/isLongOption/isEndOption", UT)],
 ["ParseArgumentException::argument", "ParseArgumentException::what"])

prop("P12", "Parsing again starts from a clean slate",
 "Calling parseArguments again on the same object, whether the earlier call succeeded or threw, gives exactly the outcome (values, presence, counts, additional arguments, exception) that a fresh object with the same declarations would give for the second command line, apart from the program name, which the first parse sets. "
 "Nothing of the earlier command line remains visible through any accessor.",
 ["histories", "inputs"], "all pairs of command lines within the token bounds over all argument kinds, with and without defaults, first parse succeeding or failing at any token",
 "no test parses twice with one object.",
 [A, G], [("clear_ per argument at the start of parseArguments", A), ("clear_", G)],
 ["Argument accessors", "Args::getAdditionalArguments"])

prop("P13", "Names always resolve to the argument that owns them",
 "After any sequence of addArgument, flag, dest, updateArgument, removeArguments and clear calls, a name is known exactly if it was registered and not removed since, and looking it up yields the one argument whose name list contains it; two different arguments never share a name. "
 "Looking up or updating an unknown name throws AccessDeniedException and changes nothing; removing one flag of an argument leaves the argument reachable under its other flags, and removing the last one removes the argument.",
 ["histories"], "all histories up to the stated length over a pool of names, with failing calls included",
 "tests make one or two calls; consistency of the registry is an invariant over all call histories.",
 [A, G, AH], [("argumentFromName_ / arguments_ / this_ bookkeeping", A), ("flag, ArgumentType constructors rewriting *this_", GH)],
 ["Args::argumentExists", "Args::getArgument", "Args::updateArgument", "Argument::getNameOrFlags"])

prop("P14", "Bad registrations are refused and leave no trace",
 "A declaration is accepted exactly if every flag has the form '-c' (one character other than '-') or '--name' (at least one character after the dashes), or it is a single non-empty name not starting with '-', and no name in it is already registered (a flag repeated within one call counts once); otherwise an ArgumentException is thrown and the set of registered arguments is unchanged. "
 "removeArguments with any unknown name throws ArgumentException and removes nothing.",
 ["inputs", "histories"], "all lists of up to the stated number of strings of arbitrary bytes, in any registry state within the bound",
 "addArgument tests try seven literal bad flags and check only the exception of a single-flag call.",
 [A, G], [("validFormatFlag_", G), ("duplicate check in addArgument and flag", A)],
 ["ArgumentException", "Args::argumentExists"])

prop("P15", "No history or command line corrupts memory",
 "For every sequence of declaration calls, command lines of arbitrary bytes, exceptions and destruction order, the library never reads or writes outside live memory, never frees twice, and after the Args object is destroyed or cleared has released everything it allocated. "
 "A validator handed over as deletable is destroyed exactly once, when it is replaced or its argument goes away, and one handed over as non-deletable is never destroyed by the library.",
 ["inputs", "histories"], "all histories and token bytes within the stated bounds, including calls that throw",
 "the tests run without sanitizers on a few fixed histories.",
 [A, G, GH], [("new/delete of Argument, dest replacement, validDeletable_", GH), ("removeArguments, clear, ~Args", A)],
 ["memory-access checks of the executor", "destructor counters of validators"])

prop("P16", "Validators gate every supplied value",
 "Whenever a parse returns normally, the validator of every supplied argument has been given all of that argument's values in order and accepted them, and values the validator rewrote are the ones later visible through the accessors and destinations, element for element. "
 "If a validator refuses, the parse throws ParseArgumentValidException carrying the validator's message and the argument's first name or flag; validators of arguments that were not supplied are not consulted.",
 ["inputs", "configurations"], "all value-taking kinds, value lists within bounds, validators that accept, refuse, throw or rewrite any element",
 NOPARSE + "acceptance must hold for all values and all argument kinds, and rewriting is never tested.",
 [A], [("validation loop of parseArguments", A)], ["IValid::isValid", "ParseArgumentValidException", "Argument accessors"])

prop("P17", "Numeric validators accept exactly the numbers they should",
 "ValidNumber accepts a list exactly if every element, in full, is a number as the C library's strtod reads it (an empty string is not a number). "
 "ValidMinMax(a,b) accepts exactly if every element starts with a number lying between the smaller and the larger of a and b, both included, whichever order they were given in; every refusal is a ParseArgumentValidException quoting the offending element (for ValidMinMax, incomplete exponents and numbers beyond double range are not specified).",
 ["inputs"], "all strings up to the stated length and bounds a, b within the stated ranges",
 NOPARSE + "the accepted language and the boundary values are infinite sets; tests use three literals.",
 [V, VH], [("ValidNumber::isValid, ValidMinMax::isValid", V)], ["IValid::isValid", "ParseArgumentValidException::what"])

prop("P18", "Choice and path validators are exact",
 "ValidChoise accepts a list exactly if every element equals, byte for byte, one of the choices, and a refusal quotes the first bad element and lists all choices. "
 "ValidPath accepts exactly if the operating system reports each element to exist and, in directory or file mode, to be a directory or a regular file; nothing is accepted on a failed lookup.",
 ["inputs", "fault_sequences"], "all strings and choice lists within bounds; all results (success or failure, all file-type bits) of the file status call per element",
 NOPARSE + "tests mock three stat results and two choices.",
 [V, VH], [("ValidChoise::isValid, ValidPath::isValid", V)], ["IValid::isValid", "ParseArgumentValidException::what"])

prop("P19", "Destinations receive exactly the parsed values",
 "After a successful parse every bound destination holds the conversion of its argument's final values: text unchanged, numbers as strtod reads them converted to the destination type, booleans for flag options, the joined string form where a list goes to a text destination, one element per value in vectors and one inner vector per group in nested vectors, nothing more and nothing less. "
 "A char array destination is never written past its end and always ends up as the longest prefix that fits plus a terminator; a custom conversion function is called exactly once with the presence flag and exactly those values.",
 ["inputs", "configurations"], "all values within bounds, all destination types and argument kinds, array sizes 1 to 8, present, absent and defaulted arguments",
 NOPARSE + "truncation boundaries, element counts and type conversions depend on arbitrary values.",
 [GH, A], [("strTo / boolTo", GH), ("ArgumentType/ArgumentVectorType/ArgumentVectorVectorType::toDest_", GH)],
 ["destination variables"])

prop("P20", "All views of an argument agree",
 "For every parsed argument the string form is the values joined by ', ' (groups in parentheses), and equals what streaming prints; indexing, vector and nested-vector conversions expose the same values in the same order; a conversion that does not fit the kind throws Exception. "
 "The boolean view is presence (its negation for STORE_FALSE), flag options print as true/false accordingly, and isNumber/getNumber report the leading number of each single value (getNumber throwing when there is none).",
 ["inputs", "configurations"], "all argument kinds, values and group counts within bounds",
 NOPARSE + "agreement of views is a relation over all contents.",
 [G, GH], [("getString, conversion operators, toNumber_", G)], ["Argument accessors", "operator<<"])

prop("P21", "Alternative mode makes '-name' mean '--name' and changes nothing else",
 "In alternative mode replacing '--name' by '-name' (with or without '=value') for a registered long flag gives an identical result, also as the token that ends a value run. "
 "A single-dash token that names no registered long flag, and every token when the mode is off, is read as short flags exactly as without the mode.",
 ["inputs", "configurations"], "all token vectors within bounds with each long flag in either spelling, colliding short and long names included",
 NOPARSE + "equivalence of two spellings over all contexts cannot be sampled.",
 [A], [("isAlternative_ branches of parseShortArgument_ and endOfInfiniteArgument_", A)], ["Argument accessors"])

prop("P22", "The usage message lists every argument completely",
 "Unless a custom usage text is set, getUsage shows every declared argument exactly once in its section (positional or optional), with all its names or flags, for a value-taking option its metavar (or the upper-cased flag name repeated for its nargs), its help text, and '(required)' or its '(default: ...)', and shows description and epilog; the usage line shows each argument once, in brackets exactly if it is optional. "
 "Left column and help column start at the configured widths, and names too long for their column push the help text to the next line.",
 ["inputs", "configurations"], "argument sets within bounds with symbolic names, help, metavar, defaults and column widths",
 "getUsage tests compare three fixed messages.",
 [U, G], [("Usage::getUsage", U), ("metavarDefault_", G)], ["Usage::getUsage"])

prop("P23", "Wrapping never loses text and respects the width",
 "Help, description and epilog text is broken only at spaces and newlines: removing the inserted line breaks and the run of spaces at each break gives back the original text, no other character (but a final newline) is lost, added or reordered, and the process always terminates. "
 "A line longer than the configured width occurs only where the text has no space at which to break within that width.",
 ["inputs", "configurations"], "all texts up to the stated length (any mix of letters, spaces, newlines) and all widths including 0",
 "tests wrap one sentence at two widths.",
 [U], [("s_multilineWrap", U)], ["Usage::getUsage"])

prop("P24", "Listing order is canonical",
 "Options are always listed with required ones first, then by short flag before long-only flag, then alphabetically by first flag, and each argument lists its short flags before its long ones, each alphabetically; positionals come after options, required ones first, otherwise in declaration order. "
 "The order depends only on the final declarations, not on the order in which options were added, changed or had flags added and removed.",
 ["histories", "inputs"], "all declaration orders and required() toggles of the stated number of options with symbolic flag characters",
 "a comparator must be a consistent ordering over all pairs and triples; one test checks one list.",
 [G, A], [("compareOption_, compareFlag, sortNameOrFlags_", G), ("arguments_.sort at every change", A)],
 ["Usage::getUsage", "Argument::getNameOrFlags"])

prop("P25", "Binding a destination changes nothing else",
 "Calling dest on an argument at any point of its declaration leaves every property of the argument (names, help, metavar, action, nargs, required, defaults, validator, its role as help or version option) and every later outcome of parsing, usage and lookup as it would be without the call. "
 "Declaration calls made after dest take effect exactly as if made before it.",
 ["histories", "configurations"], "all placements of dest in declaration chains of every argument kind, then all command lines within bounds",
 "the tests call dest in one chain position for one kind.",
 [GH, G], [("Argument copy constructor", G), ("ArgumentType constructors", GH)], ["Argument accessors", "Args::getUsage", "parse outcome"])

prop("P26", "clear() restores a brand-new object",
 "After clear() the object behaves like a newly constructed one: no arguments, no additional arguments, all texts empty, default widths, all modes off, and any following declarations and parse give the outcome they would give on a new object.",
 ["histories"], "all declarations, mode settings, texts, widths and parses within bounds before the call",
 "no test calls clear.",
 [A], [("Args::clear", A)], ["all Args accessors", "Usage::getUsage"])

prop("P27", "The single-header edition behaves exactly like the library",
 "For every sequence of declarations and every command line, the amalgamated single header gives exactly the same values, exceptions (type, text and argument), additional arguments and usage text as the multi-file library.",
 ["inputs", "configurations"], "all token vectors within bounds over argument sets of every kind; usage with symbolic texts and widths; validators and destinations",
 "the single-header test only checks that it compiles and links.",
 [SI, A, G, U, V], [("amalgamated copy of src and include", SI)], ["both editions side by side"])

prop("P28", "Every way of writing a list of names gives the same list",
 "A list handed to the library (names, defaults, names to remove) holds exactly the strings written, byte for byte and in order, whether it is written as an array of text pointers or strings, a single text, an initializer list, or pieces joined with '+', and keeps them when the sources are overwritten. "
 "What a declaration, a default list or a removal does depends only on those strings, not on how the list was written.",
 ["inputs"], "all lists within the bounds of arbitrary strings in every form",
 "tests use two literal lists.",
 [XH, AH], [("Vector constructors and operator+", XH)], ["Vector contents", "Argument::getNameOrFlags", "Argument::getDefaults"])

prop("P29", "Exceptions keep their message and argument for good",
 "Every exception carries exactly the message (what) and argument (argument) it was created with, through every base class it is documented to have, after copying, and after the sources of the texts, the Args object and the command line are gone. "
 "Each failure raises the documented class: ParseArgumentException for the command line (its Required and Valid subclasses for missing and refused arguments), ArgumentException for declarations, AccessDeniedException for lookups, HelpException and VersionException for requests.",
 ["inputs"], "all names and messages within bounds, all classes and constructors, all causes",
 "tests compare a few literal messages while the parser is alive.",
 [EH, "src/exception.cpp", A], [("exception classes own their texts", EH)], ["what()", "argument()"])

prop("P30", "Independent declaration calls commute",
 "The order in which help, metavar, required, valid, flag, dest and the calls that set the kind (nargs, action) are made on an argument, and the place of defaults after the kind is complete, makes no difference to any accessor, the usage message or any parse.",
 ["histories", "inputs"], "all reorderings within bounds of declarations of every kind, then all command lines within bounds",
 "tests declare in one order.",
 [G, GH], [("typeConstructor_ / defaultsConstructor_", G), ("builder methods", GH)], ["Argument accessors", "Usage::getUsage", "parse outcome"])

prop("P31", "The command line is only read, and everything is copied",
 "parseArguments never changes a byte or pointer of the command line it is given, whatever the outcome. "
 "Nothing the parser or a destination shows afterwards changes when the command line is overwritten or released.",
 ["inputs"], "all command lines within bounds over every kind of argument and every outcome",
 NOPARSE + "no test looks at argv afterwards.",
 [A, UT], [("takeArg and the parse loops", A)], ["argv", "all accessors", "destinations"])

prop("P32", "Two parsers never influence each other",
 "Everything a parser shows and every outcome of its parses is the same whether or not other Args objects are declared, parsed, shown, cleared or destroyed in the same thread before, in between or after.",
 ["histories", "inputs"], "all activities of a second parser within bounds at every point of the first one's life",
 "tests use one parser at a time.",
 [A, G, U], [("no state outside the objects", A)], ["all accessors", "parse outcome"])

prop("P33", "A refused declaration call changes nothing",
 "A nargs, action, flag, addArgument, removeArguments, updateArgument or getArgument call that throws because of what it asks for leaves the argument and the whole parser exactly as if it had not been made, for every accessor, the usage, later declarations and later parses. "
 "A refused default list only leaves the argument without defaults.",
 ["histories"], "all chains of calls within bounds with refused ones at any place, on every role of argument (positional, option, help, version)",
 "tests check that the exception is thrown, not what is left behind.",
 [G, GH, A], [("nargs, action, flag", GH), ("typeConstructor_ exceptions", G)], ["all accessors", "Usage::getUsage", "parse outcome"])

prop("P34", "Only the last setting counts",
 "A setter called again on an argument or a parser wholly replaces what an earlier call of it set: required, help, metavar, validator, destination, default list, number of values and collecting kind of an argument; alternative, strict and exception modes, version, description, epilog and usage texts and widths of a parser. "
 "Every accessor, the usage message and every later parse is the same as if only the last call had been made.",
 ["histories", "inputs"], "all pairs of setters and values within bounds, interleaved and with a parse in between, then all command lines within bounds",
 "tests call each setter once.",
 [GH, G, A], [("builder methods", GH), ("setters", A)], ["all accessors", "Usage::getUsage", "parse outcome"])

prop("P35", "A copy of an argument is an independent snapshot",
 "A copy of an Argument shows for good exactly what the argument showed when it was copied, whatever is done with the parser afterwards. "
 "Copying an argument and destroying copies never changes the parser, and a validator handed over is destroyed exactly once.",
 ["histories", "inputs"], "all command lines within bounds before the copy, all activities within bounds after it, in every order of destruction",
 "tests do not copy arguments.",
 [G, GH], [("Argument(const Argument&), ~Argument", G)], ["all Argument accessors of copy and parser", "validator destruction"])

with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
except ImportError: pass
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
print(len(P), "properties")
