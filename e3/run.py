#!/usr/bin/env python3
"""E3 driver: run.py PROPERTY [quick|thorough] — effect analysis over the call graph of whole parsers."""
import os, re, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
import report
import graph, trees

# Functions outside the program that have no effect beyond memory, or end the program on a broken language rule.
PURE = re.compile(r"^(__isoc\d\d_)?(mem\w+|str(len|n?cmp|n?cpy|n?cat|r?chr|r?str|p?brk|c?spn|xfrm|coll)(_l)?|wcs\w+|wmem\w+|mbr?\w+|isw?(alnum|alpha|cntrl|digit|graph|lower|print|punct|space|upper|xdigit)(_l)?|tow?(upper|lower)(_l)?|"
                  r"strto(l|ul|ll|ull|d|f|ld|imax|umax)(_l)?|ato[fil]l?|l?l?abs|l?l?div|div|qsort|bsearch|f?(abs|loor|max|min|mod)[fl]?|ceil[fl]?|round[fl]?|trunc[fl]?|pow[fl]?|log(2|10)?[fl]?|exp2?[fl]?|sqrt[fl]?|"
                  r"malloc|calloc|realloc|free|aligned_alloc|posix_memalign|abort|__assert_fail|__errno_location|v?sn?printf|snprintf|__v?snprintf_chk|__memcpy_chk|__strlen_chk|"
                  r"__cxa_\w+|__gxx_personality_v0|_Unwind_\w+|__clang_call_terminate|__dynamic_cast|__stack_chk_fail|_Zn[wa]\w*|_Zd[la]\w*|pool_take|pool_give|user_\w+|llvm\..*|__ubsan_\w+)$")
# Parts of the C++ library with effects that others can see, or that depend on the environment.
EFFECT = re.compile(r"^(std::(__1::)?(cout|cerr|clog|cin|wcout|wcerr|wclog|wcin)$|std::(__1::)?(basic_)?(\w*fstream|filebuf)|std::(\w+::)*filesystem|std::chrono|std::(__1::)?(thread|mutex|condition_variable|random_device|this_thread|locale::global|"
                    r"__libcpp|get_terminate|set_terminate|exit|quick_exit|_Exit|at_?exit)|std::ios_base::sync_with_stdio|std::pmr|__gnu_cxx::stdio)|boost::filesystem|__cxa_atexit")
TERMINAL = {"ioctl"}


def short(n, dem):
    d = dem.get(n, n)
    d = re.sub(r"<.*>", "<…>", d) if len(d) > 160 else d
    return d[:160]


class Program:
    def __init__(self, name, own):
        self.name, self.own = name, own
        self.label = name + (", own allocator" if own else "")
        self.g, self.error = graph.load(trees.source(name), ["OWN_ALLOCATOR"] if own else [])
        self.helps = trees.TREES[name][1]
        self._dem = {}

    def dem(self, names):
        miss = [n for n in names if n not in self._dem]
        self._dem.update(graph.demangle(miss))
        return self._dem

    def trail(self, seen, n):
        p = graph.path(seen, n)
        d = self.dem(p)
        o = []
        for a, b in zip(p, p[1:]):
            o.append("%s\n      refers to %s at %s" % (d[a][:400], d[b][:200], graph.place(self.g, a, b)))
        return "\n    ".join(o)

    def site(self, seen, n):
        """the last place in the library's own files on the way to n"""
        p = graph.path(seen, n)
        for a, b in list(zip(p, p[1:]))[::-1]:
            w = graph.place(self.g, a, b)
            if "arg_router" in w:
                return w
        return graph.place(self.g, p[-2], p[-1]) if len(p) > 1 else "?"


def S01(p, out):
    """no state is kept between parses"""
    seen = p.g.reach([r for r in ("do_parse", "do_parse_words", "do_help", "do_help_text") if r in p.g.functions])
    glob = [n for n in seen if n in p.g.globals]
    names = p.dem(glob)
    for n in glob:
        v = p.g.globals[n]
        if v["constant"] or v["alias"]:
            continue
        d = names[n]
        if v["external"] and re.match(r"(vtable|typeinfo|VTT|typeinfo name) for |_ZT[VISCN]|(vtable|typeinfo) |std::(\w+::)*\w+(<.*>)?::id$|std::nothrow$|std::__detail::__prime_list|std::locale::\w+$", d) or n.startswith("_ZTV"):
            continue
        if v["external"] and p.helps and d == "std::cout":
            continue
        if n == "__dso_handle":
            continue
        if n.startswith("_ZGV") or graph.declared_const(p.g, n):     # a constant set up on its first use, guarded by the language
            if v["tls"] is False:
                continue
        out.append((n, "%s reaches the variable %s, which keeps its content after the call (first use: %s)" % (p.label, short(n, names), p.site(seen, n)), p.trail(seen, n)))
    return len(seen), len(glob)


def S02(p, out):
    """parsing has no effect outside the program"""
    roots = [r for r in ("do_parse", "do_parse_words") if r in p.g.functions and not p.helps] + [r for r in ("do_help", "do_help_text") if r in p.g.functions]
    if p.helps:
        roots = [r for r in roots if r.startswith("do_help")]
    seen = p.g.reach(roots)
    outer = [n for n in seen if n in p.g.declared or (n in p.g.globals and p.g.globals[n]["external"])]
    names = p.dem(outer)
    for n in outer:
        d = names[n]
        if PURE.match(n) or d.startswith(("operator ", "vtable for ", "typeinfo", "VTT for", "__cxxabiv1::")):
            continue
        if p.helps and n in TERMINAL:
            continue
        if (d.startswith(("std::", "non-virtual thunk to std::", "virtual thunk to std::", "guard variable for std::", "__gnu_cxx::", "void std::", "bool std::", "char std::", "unsigned long std::")) or n.startswith(("_ZNS", "_ZNKS", "_ZS", "_ZTV", "_ZTI"))) and not EFFECT.search(d):
            continue
        out.append((n, "%s calls %s, an effect outside the call (%s)" % (p.label, short(n, names), p.site(seen, n)), p.trail(seen, n)))
    return len(seen), len(outer)


NEWS = {"_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "malloc", "calloc", "realloc", "aligned_alloc", "strdup"}


def C01(p, out):
    """strings, lists and stored values come from the configured allocator"""
    if not p.own:
        return 0, 0
    seen = p.g.reach([r for r in ("do_parse", "do_parse_words", "do_help", "do_help_text") if r in p.g.functions])
    users = [(f, a) for f in seen if f in p.g.functions for a in sorted(p.g.functions[f] & NEWS)]
    names = p.dem([f for f, a in users] + [a for f, a in users])
    sites = 0
    for f, a in users:
        sites += 1
        d = names[f]
        # std::function has no allocator, and exceptions copy themselves
        if re.match(r"(?:void |bool |static )*(?:std::_Function_base::_Base_manager<|std::function<|boost::(exception_detail|wrapexcept|lexical_cast|detail::lcast|exception_ptr)|std::__exception_ptr|std::locale|std::__cxx11::basic_string(stream|buf))", d):
            continue
        w = p.site(seen, f)
        out.append((f, "%s: memory from %s instead of the configured allocator, in %s (%s)" % (p.label, names[a], short(f, names), w), p.trail(seen, f)))
    return len(seen), sites


PROPS = {"S01": (S01, lambda deep: [(t, False) for t in trees.TREES]),
         "S02": (S02, lambda deep: [(t, False) for t in trees.TREES]),
         "C01": (C01, lambda deep: [(t, True) for t in trees.TREES])}


def decide(prop, tier):
    rule, which = PROPS[prop]
    rep = report.Report(prop, tier, "other")
    cov, funcs, obligations = {}, 0, 0

    def one(x):
        p = Program(*x)
        if p.error:
            return p, None, []
        out = []
        n = rule(p, out)
        return p, n, out

    with ThreadPoolExecutor(int(os.environ.get("AR_JOBS", "8"))) as ex:
        results = list(ex.map(one, which(tier == "thorough")))
    if all(p.error for p, n, o in results):
        raise report.Broken("no program that uses the library compiles: " + results[0][0].error[:600])
    reported = set()
    for p, n, out in results:
        if p.error:
            first = next((l for l in p.error.splitlines() if "error:" in l), p.error[:300])
            rep.violation("%s:%s:compile" % (prop, p.label), "%s: a legal program does not compile: %s" % (p.label, first), p.error, ".txt")
            continue
        for key, what, trail in out:
            k = re.sub(r"[0-9a-f]{8,}|\d+", "#", p.dem([key])[key])[:200]
            if (p.name, k) in reported:
                continue
            reported.add((p.name, k))
            rep.violation("%s:%s:%s" % (prop, p.name, k), what, "property %s, program %s\n%s\n\nthe way there:\n    %s\n" % (prop, p.label, what, trail))
        cov[p.label] = {"functions": n[0], "obligations": n[1]}
        funcs += n[0]
        obligations += n[1]
    if not rep.violations and (funcs < 2000 or obligations < 10):
        raise report.Broken("implausible coverage: %d functions, %d obligations" % (funcs, obligations))
    rep.finish({"explanation": "Call-graph and effect analysis of the LLVM intermediate representation of complete parsers: %s. Every function, variable and virtual table that the "
                               "entry points can reach is found, and each reference to something outside the rule is a violation." % rule.__doc__,
                "programs": cov, "functions_reached": funcs, "obligations": obligations},
               ["a function whose address is taken may be called, one whose address is never taken is not", "the effects of functions outside the program are known from their names",
                "the programs between them use every kind of node and policy"])


if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    report.guarded(lambda: decide(sys.argv[1], tier))
