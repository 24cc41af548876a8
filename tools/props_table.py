T_WHY = "The set of parse trees is infinite and a rejected tree cannot be part of a test program that compiles; the suite samples a handful per rule."
prop("V01", "A tree in which two nodes answer to the same token does not compile",
     "A parse tree is rejected at compile time when one command line token could select two of its nodes: a long name, a short name or a bare name used twice within one mode, its lists and its groups, or twice among the children of the root. It is equally rejected when two sibling modes have the same name. Different modes may reuse names freely, and a tree without such a clash compiles.",
     ["programs", "configurations"], "every parse tree: every pair of node kinds sharing a name, at every distance, inside groups, lists and nested modes", T_WHY,
     ["policy/validator.hpp"], [("uniqueness rules of the default validator", "policy/validator.hpp"), ("child expansion of lists", "list.hpp")])
e1("V01", W_NOTE)
prop("V02", "A name that could never be typed or matched as one token does not compile",
     "Long names, bare names and program names must have more than one character and no white space (any character Unicode calls white space, at any place); short names and value separators must be exactly one user-perceived character, a separator must not be white space, and a short name must not form the long prefix. Display names, descriptions, program texts and end markers must not be empty, and help descriptions must not contain tabs. Violations are rejected at compile time, and every other name is accepted, whatever its script.",
     ["programs", "inputs"], "every name text and every policy that takes one", T_WHY,
     ["policy/long_name.hpp", "policy/short_name.hpp", "policy/none_name.hpp", "policy/value_separator.hpp", "policy/token_end_marker.hpp", "utility/utf8.hpp"],
     [("name checks in the policies", "policy/long_name.hpp"), ("white space and character counting", "utility/utf8.hpp")])
e1("V02", W_NOTE)
prop("V03", "A policy that contradicts its node or another policy does not compile",
     "A policy that makes no sense on a node is rejected at compile time: for instance a required or value-parsing flag, a value separator or end marker where no such value exists, a router below a mode, limits on a mode, an alias on a positional argument. The same goes for a policy given twice to one node, and for policies that contradict each other: required with a default value (also on groups and their children), required with run-time enabling, a bare or display name with a long or short name. Every documented combination of node and policy compiles.",
     ["programs"], "every node kind combined with every built-in policy, once, twice, and in contradictory pairs, in both orders", T_WHY,
     ["policy/validator.hpp", "flag.hpp", "arg.hpp", "counting_flag.hpp", "multi_arg_base.hpp", "positional_arg.hpp", "forwarding_arg.hpp", "help.hpp", "mode.hpp", "root.hpp", "dependency/detail.hpp"],
     [("default validator rules", "policy/validator.hpp"), ("node requirements", "tree_node.hpp")])
e1("V03", W_NOTE)
prop("V04", "A tree whose counts or positions make a token's owner ambiguous does not compile",
     "Positional arguments must be the last children of a mode, and among all children only the last may take a variable number of tokens, unless it has an end marker. Minimum counts or values above their maximum, a fixed count of zero, a labelled list that may be empty or must hold exactly one value, several values for a type that is no container, end markers on nodes of fixed count and value separators on nodes that do not take exactly one value are rejected at compile time. Legal arrangements compile in every mode.",
     ["programs"], "every sequence of node kinds and count policies, in anonymous, named and nested modes", T_WHY,
     ["policy/validator.hpp", "policy/min_max_count.hpp", "policy/min_max_value.hpp", "multi_arg_base.hpp", "multi_arg.hpp", "policy/token_end_marker.hpp", "policy/value_separator.hpp"],
     [("position rules of the default validator", "policy/validator.hpp"), ("count policies", "policy/min_max_count.hpp")])
e1("V04", W_NOTE)
prop("V05", "An alias or dependency that cannot be honoured does not compile",
     "Every name in an alias or dependency must be the long or short name of another node in the same mode: unknown names, names from other modes, the node's own name, anything that is not a name, one node named twice, and circles of any length are rejected at compile time. The owner and the targets of an alias must all take the same fixed number of values, and the owner must not parse or validate values itself. Chains and shared targets without a circle compile.",
     ["programs"], "every alias and dependency graph over the nodes of a mode", T_WHY,
     ["policy/alias.hpp", "policy/dependent.hpp"], [("target lookup and cycle check", "policy/alias.hpp"), ("target lookup and cycle check", "policy/dependent.hpp")])
e1("V05", W_NOTE)
prop("V06", "A tree of impossible shape does not compile",
     "A root needs a validator and at least one child, and every child of it is a mode, help, or has a router; a mode needs children, and a router unless all its children are modes. Only modes, and the root's children, are routed; anonymous modes occur once, last, and only under the root, without modes in them; groups have two or more children, are required or have a default, and occur only in modes and not in each other; help and exception translators belong to the root; leaf nodes have no children and must be named. Any tree that breaks one of these is rejected at compile time, and other trees compile.",
     ["programs"], "every nesting of node kinds", T_WHY,
     ["root.hpp", "mode.hpp", "policy/validator.hpp", "dependency/detail.hpp", "tree_node.hpp", "list.hpp"],
     [("root requirements", "root.hpp"), ("mode requirements", "mode.hpp"), ("parent rules", "policy/validator.hpp")])
e1("V06", W_NOTE)
prop("V07", "A router gets exactly the values of its mode's children, in order and by type",
     "A mode's router is invoked with one value per value-producing child, in declaration order and of the declared type: groups deliver one variant or one common value, aliases, help and child modes nothing, lists what their members deliver. A router that cannot take exactly these values is rejected at compile time, as are default values, custom parsers, limits and alias groups whose types do not fit their node, and value types that nothing can parse.",
     ["programs"], "every sequence of children and every router signature", T_WHY,
     ["mode.hpp", "tree_node.hpp", "policy/router.hpp", "policy/default_value.hpp", "policy/custom_parser.hpp", "dependency/one_of.hpp", "dependency/alias_group.hpp"],
     [("value type computation and routing", "mode.hpp"), ("routing", "policy/router.hpp")])
e1("V07", W_NOTE + "The order of the values at run time is that of the types; two children of one type are told apart by R03. ")
prop("V08", "Every legal tree compiles, whatever the order of its policies",
     "A tree that obeys the documented rules compiles and can be parsed and rendered as help: the documented programs, every documented pair of node and policy, policies and strings in any order, children and routers in any order, groups whose children share one type, shared lists, deep nesting, and const or copied roots. This holds for gcc and clang and for both compile-time string implementations.",
     ["programs", "configurations"], "every legal tree", T_WHY,
     ["root.hpp", "tree_node.hpp", "mode.hpp", "policy/validator.hpp", "utility/compile_time_string.hpp"],
     [("tree construction", "tree_node.hpp"), ("validation", "policy/validator.hpp")])
e1("V08", W_NOTE)
prop("T02", "Bare strings become the documented names and descriptions, in any order",
     "The first string of several characters given to a node becomes its name, the second its description, and the first single-character string its short name, where character means user-perceived character in any script and strings may stand anywhere among the other parameters. Positional arguments and modes take name and description from the first two strings of any length. A string with no meaning left is rejected at compile time.",
     ["programs", "inputs"], "every node kind and every arrangement of strings", "The mapping is a type computation over arbitrary parameter packs; tests fix a few of them.",
     ["utility/string_to_policy.hpp"], [("string mappers", "utility/string_to_policy.hpp")])
e1("T02", W_NOTE)
prop("T03", "Compile-time help describes every node the way it is typed, exactly",
     "The help data of a node shows its prefixed long and short names, its value with separator and inclusive limits, its count interval and its description, with all numbers rendered exactly; the help data of a tree lists every child in order, nested modes only when flattened. This holds for every name, number and tree.",
     ["programs", "inputs"], "every node, every limit and count, every tree", "Labels are type computations over unbounded families of strings and integers; tests compare a few rendered outputs.",
     ["tree_node.hpp", "positional_arg.hpp", "multi_arg.hpp", "utility/compile_time_string.hpp", "math.hpp", "dependency/detail.hpp"],
     [("label computation", "tree_node.hpp"), ("integer rendering", "utility/compile_time_string.hpp")])
e1("T03", W_NOTE)
