h("H04", "Colours and fixed widths change the look of help, never its text",
  "A help formatter with colours, another indentation, another description offset or a fixed terminal width prints the same entries, names and descriptions in the same order, placed by its own settings; every colour it switches on is switched off again right after its entry. The text computed at compile time is the one printed at run time for the same settings.",
  ["configurations", "programs"], "every terminal width and switch setting, for every formatter setting offered",
  ["policy/default_help_formatter.hpp", "policy/colour_help_formatter.hpp"], [("formatter settings", "policy/default_help_formatter.hpp"), ("colours", "policy/colour_help_formatter.hpp")])

U_WHY = "Unicode has 1.1 million code points and its rules speak of sequences of any length; the suite samples a few dozen strings."
U_TECH = ("abstract interpretation of the compiler's intermediate representation of the current headers, with the code point, or the class of every code point of a "
          "sequence, unknown; each partition's result is compared with the Unicode 14 character database and the rules of Unicode annex 29, coded independently")


def u(pid, title, statement, over, otext, files, mech, note=""):
    prop(pid, title, statement, over, otext, U_WHY, files, mech)
    check(pid, "python3 e2/run.py", U_TECH, "other", note)


u("U01", "Every character has the width and the white space property Unicode gives it",
  "A code point that is wide or full-width in Unicode occupies two terminal columns, one that combines with its neighbour or is invisible none, any other one. A code point counts as white space exactly if Unicode says so.",
  ["inputs"], "every assigned Unicode code point", ["utility/utf8/double_width.hpp", "utility/utf8/zero_width.hpp", "utility/utf8/whitespace.hpp", "utility/utf8.hpp"],
  [("width tables", "utility/utf8/double_width.hpp"), ("width tables", "utility/utf8/zero_width.hpp"), ("white space table", "utility/utf8/whitespace.hpp")],
  "Exhaustive: every code point assigned in Unicode 14 is covered by a partition. ")
u("U02", "Every code point's UTF-8 encoding is measured and decoded exactly",
  "The encoded length of a code point, its decoded value, and the steps from one code point to the next are those of UTF-8, for every code point of every length.",
  ["inputs"], "every Unicode scalar value", ["utility/utf8.hpp", "utility/utf8/code_point.hpp"], [("decoding", "utility/utf8/code_point.hpp"), ("iteration", "utility/utf8.hpp")],
  "Exhaustive over single code points. ")
u("U03", "Text is split into the user-perceived characters Unicode defines",
  "Strings are divided into extended grapheme clusters: combining marks, joiners, Hangul syllables, flags and emoji sequences stay together, and everything else is separated, whatever precedes it. Counting, iterating and stripping characters use this division.",
  ["inputs"], "every pair of code points, and every sequence of code point classes up to a bounded length", ["utility/utf8.hpp", "utility/utf8/grapheme_cluster_break.hpp", "utility/utf8/zero_width.hpp"],
  [("cluster boundaries", "utility/utf8/grapheme_cluster_break.hpp"), ("cluster iteration", "utility/utf8.hpp")],
  "Every code point next to a representative of every class, all class sequences of three, emoji and flag sequences longer than that. ")
u("U04", "Any bytes are split into pieces in bounds that together give the input",
  "Iterating over code points, user-perceived characters or lines of a string, whatever bytes it holds, ends, never touches memory outside the string, and yields pieces that are non-empty, in order and together cover it; lines lose only the white space at which they are broken.",
  ["inputs"], "every byte string up to a bounded length, every line width", ["utility/utf8.hpp", "utility/utf8/line_break.hpp", "utility/utf8/grapheme_cluster_break.hpp"],
  [("iterators", "utility/utf8.hpp"), ("line breaking", "utility/utf8/line_break.hpp")],
  "Sound for every string of the stated lengths. ")
prop("R22", "The name suggested for an unknown one is a closest name that exists there",
     "When a name that looks mistyped is rejected, the suggestion is an enabled name of the mode in use, or where modes are expected a mode's, written as it has to be typed, and no other candidate has a smaller edit distance in user-perceived characters.",
     ["inputs", "configurations"], "every unknown token of the analysed lengths, each setting of the run-time switches",
     "The suite tries a few typing errors on one tree; the guarantee ranges over all tokens.", ["root.hpp", "mode.hpp", "parsing/unknown_argument_handling.hpp", "utility/utf8/levenshtein_distance.hpp"],
     [("candidate search", "parsing/unknown_argument_handling.hpp"), ("edit distance", "utility/utf8/levenshtein_distance.hpp")])
check("R22", "python3 e2/run.py", "abstract interpretation of the compiler's intermediate representation of the current headers, token bytes unknown; each partition's suggestion is compared with an independent edit distance over the tree's names", "other",
      "Sound for every token of the stated shapes on the analysed trees. ")
prop("M01", "The best matching language tree parses, reports and prints help, else the first",
     "A tree in several languages uses the language that was asked for, and the first one if it does not exist; a locale name is standardised by dropping its encoding and writing underscores. Parsing, error messages and help then come from that language's tree only.",
     ["inputs", "configurations"], "every locale string of the analysed lengths", "The suite tries a few locale names.",
     ["multi_lang/root.hpp", "multi_lang/root_wrapper.hpp", "multi_lang/iso_locale.hpp"],
     [("language selection", "multi_lang/root.hpp"), ("locale standardisation", "multi_lang/iso_locale.hpp")])
check("M01", "python3 e2/run.py", "abstract interpretation of the compiler's intermediate representation of the current headers, with the bytes of the locale name unknown", "other",
      "Sound for locale names of the stated shapes and the analysed sets of languages. ")
A_TECH = "abstract interpretation of the compiler's intermediate representation of the current headers (byte sets, trace partitioning, lossless joins), compared with an independent reading of the tree"
A_NOTE = "Sound for the trees and token shapes analysed; each partition of these inputs is covered, nothing is executed and no solver is involved. "


def a(pid, title, statement, over, otext, why, files, mech, note="", tech=A_TECH):
    prop(pid, title, statement, over, otext, why, files, mech)
    check(pid, "python3 e2/run.py", tech, "other", A_NOTE + note)


a("M02", "Rejections read as the documented sentence, with the tokens in their places",
  "The text of a rejection is the message configured for its kind with the tokens it concerns put in the message's places, in order, the last place taking all that are left; a kind without configured message has the documented English one. Messages do not depend on how long the tokens are or how many there are.",
  ["inputs", "configurations"], "every message form, number of tokens and token length analysed",
  "The suite formats a few fixed messages; the guarantee covers every message, token count and length.",
  ["utility/exception_formatter.hpp", "policy/exception_translator.hpp", "exception.hpp"],
  [("message formatting", "utility/exception_formatter.hpp"), ("translation", "policy/exception_translator.hpp")])
a("N01", "A value's text is converted exactly, or the command line is rejected",
  "Text is accepted as a number exactly if it is a decimal number within the range of the argument's type, and delivers that number; switches accept the documented words only; text is delivered byte for byte; an optional value takes the text its content would. Anything else is rejected, naming the text.",
  ["inputs"], "every text of the analysed shapes, of unknown bytes, around the limits of every integer type",
  "The suite converts a few values; wrapped, truncated or misread numbers appear at values nobody thought of.",
  ["parsing/global_parser.hpp", "arg.hpp"], [("conversions", "parsing/global_parser.hpp")],
  "Integers, switches, text and optionals. Floating-point conversion is done by the C library and not covered. ")
a("P01", "Every way of handing over a command line means the same",
  "Words given as an array of C strings behind a program name, as a container or iterator range of any string type, or as tokens have the same outcome; the program name is never parsed, and an empty or missing one is no error. A copied or moved parser behaves as the original.",
  ["inputs", "programs"], "every entry point, with every command line of the analysed words",
  "The suite uses one entry point for nearly everything.", ["root.hpp"], [("entry points", "root.hpp")])
a("C02", "Other argument prefixes work wherever the standard ones do",
  "With other prefixes configured, of any script and length, names are recognised, expanded, suggested and reported with these prefixes, and the standard ones have no meaning. Everything else behaves as with the standard ones.",
  ["configurations", "inputs"], "the analysed prefixes, every command line of the analysed words",
  "The suite is built with the standard prefixes only.", ["config.hpp", "parsing/token_type.hpp", "policy/short_form_expander.hpp"],
  [("prefix configuration", "config.hpp"), ("prefix recognition", "parsing/token_type.hpp")])
a("C03", "The other implementation of compile-time strings gives the same parser",
  "A parser built with the fallback implementation of compile-time strings accepts and rejects the same command lines with the same values and messages.",
  ["configurations", "inputs"], "the analysed trees and words", "The suite is built with one implementation only.",
  ["utility/compile_time_string.hpp", "config.hpp"], [("fallback strings", "utility/compile_time_string.hpp")])
a("S03", "Parsing writes nothing into the tree",
  "A parser is never modified by parsing, whether the command line is accepted or rejected, so one parser can be used by several threads at once.",
  ["schedules", "inputs"], "every command line of the analysed words, on trees with every node kind; any number of concurrent parses",
  "A test sees a race only in the schedule that happens to run; here no write exists.", ["root.hpp", "mode.hpp", "dependency/one_of.hpp"],
  [("group selection", "dependency/one_of.hpp"), ("result storage", "mode.hpp")], "The parser's object is read-only for the analysis, so any write is a violation. ")

S_TECH = "effect analysis over the call graph of complete parsers, read from the compiler's intermediate representation of the current headers: every function, variable and virtual table the entry points reach"
S_NOTE = "Covers every path of the analysed programs, which use every node kind and policy; effects of functions outside the program are known by name. "


def s(pid, title, statement, over, otext, why, files, mech):
    prop(pid, title, statement, over, otext, why, files, mech)
    check(pid, "python3 e3/run.py", S_TECH, "other", S_NOTE)


s("S01", "Parsing and printing help share no variable between calls or threads",
  "No parse, error message or help text reads or writes a variable that outlives the call and is not constant; calls at the same time, in one or several threads, cannot influence each other.",
  ["schedules", "histories"], "every schedule of concurrent or successive calls",
  "A test sees a race only in the schedule that happens to run.", ["root.hpp", "mode.hpp", "utility/utf8.hpp", "policy/exception_translator.hpp"],
  [("entry points", "root.hpp"), ("message formatting", "utility/exception_formatter.hpp")])
s("S02", "Parsing has no effect and no input besides the command line and the tree",
  "A parse without help reads no file, clock, random source or environment variable, prints nothing, starts nothing and never ends the process; asking for help text uses only the stream it was given and the size of the terminal. What else happens is up to the functions the user supplied.",
  ["inputs", "configurations"], "every command line, environment and state of the system",
  "Tests run in one environment and only notice output or exits they look for.", ["root.hpp", "help.hpp", "utility/terminal.hpp"],
  [("entry points", "root.hpp"), ("terminal size", "utility/terminal.hpp")])
s("C01", "A configured allocator serves all strings, lists and stored values",
  "With an allocator configured, strings, lists and type-erased values created while parsing, rejecting and printing help take their memory from it; only callbacks and exceptions in flight, which cannot have one, use the global heap.",
  ["configurations", "inputs"], "every command line and tree using an own allocator", "The suite is built with the standard allocator only.",
  ["config.hpp", "utility/unsafe_any.hpp", "parsing/parse_target.hpp"], [("allocator configuration", "config.hpp"), ("stored values", "utility/unsafe_any.hpp")])
