#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.json (development tool)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("R01", "973d955", "a one_of remembered the selection of an earlier parse, so a second parse of one tree could convert to the wrong alternative"),
 ("R04", "cdf96aa", "a value separator matched any byte of a multi-byte separator character"),
 ("U02", "9755420", "code points led by 0xDF and 0xEF had a wrong length"),
 ("U04", "1fd0af8", "UTF-8 iterators ran past the end of a string with a truncated code point"),
 ("U04", "137a5c9", "the line iterator did not advance over a character wider than the terminal"),
 ("R04", "a78788f", "a token that is only the short prefix was expanded out of range"),
 ("T03", "604802f", "the colour formatter indented top-level runtime help entries"),
 ("V08", "ebb4bfc", "the multi-language roots discarded the help string"),
 ("V08", "ed32402", "a help formatter with a custom addendum formatter was not recognised as a policy"),
 ("R08", "9268974", "help for a runtime disabled mode read past the end of the tokens"),
 ("R04", "8576a0f", "an alias of an alias dropped its tokens"),
 ("R08", "8f4097f", "a runtime disabled anonymous mode was parsed nevertheless"),
 ("R08", "cd35d1d", "an alias set runtime disabled arguments"),
 ("V03", "e2c52b9", "a group's child could be required or have a default as long as one of its siblings was not"),
 ("R07", "8cb82f4", "a leading end marker was taken as a value if the maximum count is bounded"),
 ("V06", "a4bd4eb", "a mode behind an anonymous mode, which can never be reached, was accepted"),
 ("V01", "8a37b4d", "two sibling modes could have the same name"),
 ("V08", "98d97bc", "a one_of whose children have one value type did not compile"),
 ("V01", "7ae5ecf", "two identical sibling nodes were accepted"),
 ("R08", "99f1f0f", "a runtime disabled argument's value separator rejected its name with missing_value_separator"),
 ("U03", "e073ff6", "controls joined with what follows or precedes them"),
 ("U03", "2ee6d3e", "a joiner joined any two characters, not only pictographs"),
 ("U03", "840c9ee", "a long run of regional indicators or extending characters was divided wrongly"),
 ("U01", "909eac7", "wide combining marks were given a width"),
 ("N01", "3ff760d", "a negative number was accepted for an unsigned type and wrapped around"),
 ("N01", "074e807", "8-bit integers took the code of one character"),
 ("P01", "dba40f0", "a command line without program name (argc 0) was read out of bounds"),
 ("N01", "c48422b", "an optional text did not compile"),
 ("T03", "@HEAD@", "inner and trailing zeros of limits and counts were dropped in help output (100 was shown as 10)"),
]
if __name__ == "__main__":
    import subprocess
    h = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()}
    z = [v for k, v in h.items() if "inner and trailing zeros" in k][0]
    json.dump({"findings": [], "fixed": ["fixed: property=%s %s %s" % (p, c.replace("@HEAD@", z), w) for p, c, w in FIXED]},
              open(os.path.join(V, "KNOWN_FINDINGS.json"), "w"), indent=1)
