R_WHY = "The suite parses a few hundred fixed command lines against a few fixed trees; the guarantee is about every command line, and most failures need a particular order or value of tokens."
R_TECH = "abstract interpretation of the compiler's intermediate representation of the current headers (byte sets, trace partitioning, lossless joins), compared with an independent reading of the tree"
R_NOTE = ("Sound for the trees and token shapes analysed: command lines up to a bounded number of tokens drawn from each tree's shapes, several with pieces of unknown "
          "bytes; each partition of these inputs is covered, nothing is executed and no solver is involved. Other trees and longer lines are not covered. ")


def r(pid, title, statement, over, otext, files, mech, why=R_WHY, note=""):
    prop(pid, title, statement, over, otext, why, files, mech)
    check(pid, "python3 e2/run.py", R_TECH, "other", R_NOTE + note)


r("R01", "Parsing a command line never influences later parses of the same router",
  "What a router does with a command line depends only on that command line and the tree: parsing it again, or after any other command line, accepted or rejected, gives the same callback with the same values or the same rejection.",
  ["histories", "inputs"], "every pair of command lines parsed one after the other by one router, for every node kind that holds state",
  ["root.hpp", "mode.hpp", "dependency/one_of.hpp", "dependency/alias_group.hpp", "policy/default_value.hpp"],
  [("entry points", "root.hpp"), ("result storage", "mode.hpp"), ("group results", "dependency/one_of.hpp")])
r("R03", "Every value reaches its own argument once, in command line order",
  "An accepted command line delivers to each argument the values written for it and nothing else: a single value as written, a list in command line order, an absent argument its default, and two arguments of one type are never exchanged. Giving an argument again is rejected unless it accepts several occurrences, whose values are then kept in order.",
  ["inputs"], "every interleaving of the tokens of a mode's children, by long and short name, with and without separators",
  ["root.hpp", "mode.hpp", "parsing/parse_target.hpp", "multi_arg_base.hpp", "arg.hpp", "flag.hpp"],
  [("token dispatch", "root.hpp"), ("result storage and default filling", "mode.hpp")])
r("R04", "Every token is consumed by exactly one owner or the line is rejected",
  "No token of an accepted command line is ignored, used twice, or used for something else than its place implies: a name is only a name where names are expected, a value belongs to the argument it follows, and everything left over causes a rejection.",
  ["inputs"], "every sequence of names, near-names, values, separators, short-form groups and unknown tokens",
  ["root.hpp", "tree_node.hpp", "parsing/token_type.hpp", "parsing/unknown_argument_handling.hpp", "policy/value_separator.hpp"],
  [("token splitting and dispatch", "root.hpp"), ("prefix recognition", "parsing/token_type.hpp")])
r("R06", "Value limits are inclusive and reject everything outside them",
  "A value equal to the declared minimum or maximum is accepted and delivered unchanged, and every value below the minimum or above the maximum is rejected with the matching error, for signed and unsigned types, compile-time and run-time limits, and at the extremes of the type.",
  ["inputs"], "every value of the argument's type",
  ["policy/min_max_value.hpp"], [("limit check", "policy/min_max_value.hpp")],
  why="The values of a 64-bit type cannot be enumerated; the suite tries a handful.", note="The value is one symbol over its whole type, so this one is unbounded in the value. ")
r("R07", "Value counts are enforced exactly, in both directions",
  "An argument taking several values is accepted exactly if the number of values given lies within its inclusive minimum and maximum, wherever they stand on the command line; otherwise the line is rejected as too few or too many, naming what was affected.",
  ["inputs"], "every number of values up to beyond the maximum, before, between and after other arguments",
  ["policy/min_max_count.hpp", "multi_arg.hpp", "multi_arg_base.hpp", "positional_arg.hpp", "forwarding_arg.hpp"],
  [("count checks", "multi_arg_base.hpp"), ("count policy", "policy/min_max_count.hpp")])
r("R08", "A node disabled at run time behaves as if it were not in the tree",
  "With run-time enabling switched off, a node's names, separators and values are not recognised, aliases and dependencies do not reach through to it, it is not required, and its target gets the stated default; siblings and modes behave as if it did not exist. Switched on, it behaves as if it had no such policy.",
  ["inputs", "configurations"], "every setting of the switches and every command line",
  ["policy/runtime_enable.hpp", "root.hpp", "policy/alias.hpp", "policy/dependent.hpp"],
  [("run-time enabling", "policy/runtime_enable.hpp"), ("node lookup", "root.hpp")])
r("R09", "No bytes on a command line cause undefined behaviour, leaks or stray exceptions",
  "Whatever bytes the tokens hold, valid UTF-8 or not, parsing reads only initialised memory inside live objects, releases everything it allocates, ends, and leaves either normally or by the documented parse exception.",
  ["inputs"], "every byte string of up to three bytes as a token, after each prefix, and as a value",
  ["root.hpp", "utility/utf8.hpp", "parsing/token_type.hpp", "policy/value_separator.hpp"],
  [("token splitting", "root.hpp"), ("code point iteration", "utility/utf8.hpp")])
r("R11", "Required arguments must be given; others fall back to their default",
  "A mode's callback is invoked exactly if each of its required arguments got a value on the command line; if one did not, the line is rejected naming it. An argument that is not required gets its declared default, or the empty value of its type, whenever it is absent.",
  ["inputs"], "every subset and order of the arguments of a mode",
  ["policy/required.hpp", "policy/default_value.hpp", "mode.hpp"], [("missing phase", "mode.hpp"), ("required policy", "policy/required.hpp")])
r("R13", "An alias behaves as if each of its targets had been given instead",
  "Using an alias sets every argument it stands for, directly or through further aliases, with the values that follow it, and nothing else. Combined with the arguments themselves or with other aliases it gives what writing the targets out would give, including repeats and too few values.",
  ["inputs"], "every mixture of aliases, their targets and their values",
  ["policy/alias.hpp", "parsing/parse_target.hpp", "root.hpp"], [("alias expansion", "policy/alias.hpp")])
r("R14", "An argument is accepted only behind everything it depends on",
  "An argument that depends on others is accepted exactly if all of them, or any alias that sets them, stand before it on the command line. Otherwise the line is rejected, naming the missing one.",
  ["inputs"], "every subset and order of the arguments of a mode",
  ["policy/dependent.hpp", "root.hpp"], [("dependency phase", "policy/dependent.hpp")])
r("R15", "Groups of alternatives accept one alternative, groups of synonyms one value",
  "A group of alternatives delivers the chosen alternative's value with its type, rejects a second alternative, and falls back to its default, or is rejected when required, if none was chosen. A group of synonyms collects the values given under any of its names in order, within its count limits.",
  ["inputs"], "every sequence of the names and values of the groups of a mode",
  ["dependency/one_of.hpp", "dependency/alias_group.hpp", "dependency/detail.hpp"], [("alternatives", "dependency/one_of.hpp"), ("synonyms", "dependency/alias_group.hpp")])
r("R16", "A group of short flags means the same as writing the flags one by one",
  "A short prefix followed by several characters is read as that many short names, one per user character in any script, in order, if nothing in the tree claims the whole token; it is rejected if one of them is unknown. The last may take values from the following tokens.",
  ["inputs"], "every group of up to several characters, known and unknown, in every position",
  ["policy/short_form_expander.hpp", "root.hpp", "parsing/token_type.hpp", "utility/utf8.hpp"],
  [("short form expansion", "policy/short_form_expander.hpp")])
r("R17", "A value separator joins one name with one value, byte for byte",
  "An argument with a separator takes exactly the text after the first separator as its value, which may itself hold separators or any other bytes, and never a following token; a missing separator or an empty value is rejected. Arguments without a separator are not split.",
  ["inputs"], "every placement of separators, including multi-byte ones, in names and values",
  ["policy/value_separator.hpp", "root.hpp"], [("separator handling", "policy/value_separator.hpp"), ("token splitting", "root.hpp")])
r("R18", "End markers and forwarding split the command line at the stated place",
  "Everything behind a forwarding marker is delivered untouched and in order, even if it looks like a name, and nothing before it. A list with an end marker takes all tokens up to the marker, which is consumed but not delivered, and parsing goes on behind it.",
  ["inputs"], "every placement of markers, names and values",
  ["forwarding_arg.hpp", "policy/token_end_marker.hpp", "positional_arg.hpp", "multi_arg_base.hpp", "policy/min_max_count.hpp"],
  [("end marker handling", "policy/token_end_marker.hpp"), ("forwarding", "forwarding_arg.hpp")])
r("R19", "A counting flag delivers the number of times it was given",
  "The value of a counting flag is the number of its occurrences under any of its names, alone or inside groups of short flags, its default if it does not occur, and the line is rejected if the number exceeds a declared maximum or falls below a declared minimum.",
  ["inputs"], "every number and arrangement of occurrences",
  ["counting_flag.hpp", "policy/min_max_value.hpp", "mode.hpp"], [("counting", "counting_flag.hpp"), ("limits", "policy/min_max_value.hpp")])
r("R20", "A rejection carries the error that occurred and the tokens it is about",
  "A command line that cannot be accepted is rejected with the documented error kind for the first thing wrong with it, and the message names the tokens or arguments concerned as the user would type them, in order and with their prefixes.",
  ["inputs"], "every kind of mistake alone and combined with others",
  ["policy/exception_translator.hpp", "root.hpp", "parsing/unknown_argument_handling.hpp", "utility/exception_formatter.hpp"],
  [("error rendering", "policy/exception_translator.hpp"), ("unknown tokens", "parsing/unknown_argument_handling.hpp")])
r("R21", "The leading tokens choose the mode, and only its arguments apply",
  "Leading tokens select nested modes by name as deep as they match, all other tokens belong to the selected mode, exactly its callback is invoked, and names of other modes mean nothing there. Without a matching name the anonymous mode is used if there is one, and a mode that has only child modes rejects being called alone.",
  ["inputs"], "every sequence of mode names, their arguments and values",
  ["root.hpp", "mode.hpp"], [("mode lookup", "root.hpp"), ("dispatch", "mode.hpp")])
