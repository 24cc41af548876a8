H_WHY = "The suite compares a few fixed trees on fixed terminals; the guarantee is about every terminal width, every setting of the switches and every shape of tree."
H_TECH = "abstract interpretation of the compiler's intermediate representation of the current headers, with the terminal's width one unknown and the switches enumerated; the text in every partition is compared with an independent description of the layout"
H_NOTE = ("Sound for the trees analysed, for every terminal width (one symbol, partitioned by the code's own comparisons) and every switch setting; the precompiled parts of "
          "iostreams (construction, locale, widen) are replaced by stated models. Other trees are not covered. ")


def h(pid, title, statement, over, otext, files, mech, note=""):
    prop(pid, title, statement, over, otext, H_WHY, files, mech)
    check(pid, "python3 e2/run.py", H_TECH, "other", H_NOTE + note)


h("H01", "Help output shows every enabled entry once, in order, with its text",
  "The help text contains the program name, version, introduction and addendum where given, and exactly one entry for each enabled node, in tree order, indented by depth: its names, separator, value range or count, and its complete description, all descriptions starting in one column. Disabled nodes and everything below them do not appear, and named modes are expanded only if flattening was asked for.",
  ["configurations", "inputs"], "every setting of the run-time switches and every terminal, for trees with every kind of node",
  ["policy/default_help_formatter.hpp", "policy/flatten_help.hpp", "tree_node.hpp", "help.hpp", "policy/program_name.hpp", "policy/program_addendum.hpp"],
  [("formatting", "policy/default_help_formatter.hpp"), ("labels", "tree_node.hpp")])
h("H02", "Descriptions are wrapped to the terminal without losing a character",
  "On a terminal wide enough for a description column, no help line is wider than the terminal; a description continues on the next line in the same column, lines are broken between words unless one word alone is too long, no line is broken earlier than needed, and no character is lost, doubled or reordered. Without a terminal, or on one too narrow, descriptions are not broken.",
  ["configurations"], "every terminal width from 0 to 65535 columns, for narrow, wide and combining text",
  ["policy/default_help_formatter.hpp", "utility/utf8.hpp", "utility/terminal.hpp" if os.path.exists("/repo/include/arg_router/utility/terminal.hpp") else "utility/utf8/line_break.hpp"],
  [("wrapping", "policy/default_help_formatter.hpp"), ("line iteration", "utility/utf8.hpp")])
h("H03", "Help for a target shows that part of the tree only, if it is enabled",
  "Names behind the help flag lead through the tree from the root; the help text then describes the node reached, with its children, and nothing else. A name that does not exist at that place, or belongs to a disabled node, is rejected as unknown.",
  ["inputs", "configurations"], "every sequence of target names and switch settings",
  ["help.hpp", "policy/default_help_formatter.hpp"], [("target selection", "help.hpp")])
