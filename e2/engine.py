"""Emits the harness of a case, has it analysed, and compares every partition with the meaning of the tree."""
import re, concurrent.futures as cf
import json, os, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
import model
from model import S, Env, Split, Tok, Run, Err

REPO = os.environ.get("AR_REPO", "/repo")
import build
CUTS = ["parsing::unknown_argument_exception", "closest_matching_child_node", "utf8::levenshtein_distance"]
JOBS = int(os.environ.get("AR_JOBS", "8"))


class Broken(Exception):
    pass


def any_bytes(n, lo=0, hi=255):
    return ("?", n, lo, hi)


def printable(n):
    return ("?", n, 0x21, 0x7e)


# other ways to hand over a command line
ENTRIES = {
    "iterators": ("", "r.parse(args.begin(), args.end())"),
    "strings": ("std::vector<std::string> words; for (auto a : args) words.emplace_back(a);", "r.parse(words)"),
    "forward_list": ("std::forward_list<std::string> words; auto at = words.before_begin(); for (auto a : args) at = words.emplace_after(at, a);", "r.parse(words)"),
    "backwards": ("std::vector<std::string_view> words(args.rbegin(), args.rend());", "r.parse(words.rbegin(), words.rend())"),
    "pointers": ("const std::string_view* first = args.data();", "r.parse(first, first + args.size())"),
    "array": ("std::array<std::string_view, 2> words{}; for (unsigned i = 0; i < 2; ++i) words[i] = args.size() > i ? args[i] : std::string_view{\"pad\"}; ev_assume(args.size() == 2);", "r.parse(words)"),
    "c_strings": ("std::vector<const char*> words; for (auto a : args) words.push_back(a.data());", "r.parse(words)"),
    "deque": ("std::deque<std::string_view> words(args.begin(), args.end());", "r.parse(words)"),
    "span": ("ar::span<const std::string_view> words(args);", "r.parse(words)"),
    "copied": ("const auto c = r;", "c.parse(args)"),
    "moved": ("auto m = r; const auto c = std::move(m);", "c.parse(args)"),
    "no_program": ("char* argv[] = {nullptr}; args.clear();", "r.parse(0, argv)"),
    "nothing": ("args.clear();", "r.parse(0, nullptr)"),
}


class Case:
    min_funcs = 200
    frozen = False      # any write to the tree while parsing is a violation

    """shapes: per position, the shapes a token can have there (the last entry repeats); a shape is a list of pieces."""
    def __init__(self, name, tree, shapes, n, entry="vector", cut=True, twice=None, body=None, only=None, defines=(), safety=False, prefixes=("--", "-")):
        self.name, self.tree, self.n, self.entry, self.cut, self.twice, self.only = name, tree, n, entry, cut, twice, only
        fix = lambda sh: [s if isinstance(s, list) else [s] for s in sh]
        self.at = [fix(s) for s in shapes] if isinstance(shapes[0], (list, tuple)) and shapes and isinstance(shapes[0], tuple) is False and isinstance(shapes[0], list) and shapes[0] and isinstance(shapes[0][0], list) else None
        self.shapes = shapes if self.at is None else None
        if self.at is None:
            self.at = [fix(shapes)]
        self.prefixes = prefixes
        self.defines = list(defines) + (['AR_LONG_PREFIX=%s' % cstr(prefixes[0]), 'AR_SHORT_PREFIX=%s' % cstr(prefixes[1])] if prefixes != ("--", "-") else [])
        self.safety = safety      # only ask for defined behaviour, no leak and no foreign exception

    def shape(self, pos):
        return self.at[min(pos, len(self.at) - 1)]

    def cpp(self):
        o = ['#include "h.hpp"', "namespace {"]
        for i, shs in enumerate(self.at):
            for k, sh in enumerate(shs):
                ps = ["{%s, %d, 0, 0}" % (cstr(p), len(p.encode())) if isinstance(p, str) else "{nullptr, %d, %d, %d}" % p[1:] for p in sh]
                o.append("constexpr piece s%d_%d[] = {%s};" % (i, k, ", ".join(ps)))
        o.append("std::string_view pick(unsigned pos) {")
        for i, shs in enumerate(self.at):
            last = i == len(self.at) - 1
            o.append("  if (%s) switch (ev_choice(%d)) {" % ("true" if last else "pos == %d" % i, len(shs)))
            for k, sh in enumerate(shs):
                o.append("    case %d: return make_token(s%d_%d, %d);" % (k, i, k, len(sh)))
            o.append("  }")
        o.append("  return {};\n}\n}")
        o.append('extern "C" void h_main() {')
        for b in range(self.tree.bools):
            o.append("  const bool b%d = ev_choice(2);" % b)
        o.append("  const auto r = %s;" % self.tree.cpp())
        if self.frozen:
            o.append("  ev_ro(&r);")
        for rnd in range(2 if self.twice else 1):
            o.append("  {")
            o.append("    auto args = std::vector<std::string_view>{};")
            o.append("    const unsigned n = ev_choice(%d);" % ((self.n if rnd == 0 else self.twice) + 1))
            o.append("    for (unsigned i = 0; i < n; ++i) args.push_back(pick(i));")
            if self.entry == "argv":
                o.append('    std::vector<char*> argv{const_cast<char*>("prog")};')
                o.append("    for (auto a : args) argv.push_back(const_cast<char*>(a.data()));")
                o.append("    argv.push_back(nullptr);")
                call = "r.parse(static_cast<int>(n + 1), argv.data())"
            elif self.entry == "tokens":
                o.append("    auto tokens = ar::vector<ar::parsing::token_type>{};")
                o.append("    for (auto a : args) tokens.emplace_back(ar::parsing::prefix_type::none, a);")
                call = "r.parse(std::move(tokens))"
            elif self.entry in ENTRIES:
                pre, call = ENTRIES[self.entry]
                o.append("    " + pre)
            else:
                call = "r.parse(args)"
            o.append('    ev_log("parsing");')
            o.append('    try { %s; ev_log("ok"); }' % call)
            o.append('    catch (const ar::parse_exception& e) { ev_sv("err", e.what()); }')
            o.append("  }")
        if self.frozen:
            o.append("  ev_rw(&r);")
        o.append("}")
        out = "\n".join(o) + "\n"
        if any("DISABLE_CPP20_STRINGS" in d for d in self.defines):
            out = re.sub(r'("(?:[^"\\]|\\.)*")_S\b', r"S_(\1){}", out)
        return out


def cstr(p):
    return '"' + "".join("\\%03o" % b if b < 32 or b > 126 or chr(b) in '"\\?' else chr(b) for b in p.encode()) + '"'


FLAGS = ["-std=c++20", "-fno-rtti", "-g1", "-O1", "-Xclang", "-disable-llvm-passes", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-c", "-emit-llvm"]


def compile_cpp(src, out, defines=()):
    bc = out + ".0"
    p = subprocess.run(["clang++-18"] + FLAGS + ["-I", os.path.join(REPO, "include"), "-I", HERE] + ["-D" + d for d in defines] + [src, "-o", bc], capture_output=True, text=True)
    if p.returncode:
        return p.stderr
    p = subprocess.run(["opt-18", "-passes=function(sroa)", bc, "-o", out], capture_output=True, text=True)
    os.unlink(bc)
    if p.returncode:
        raise Broken("opt: " + p.stderr[:500])
    return None


def splits(case):
    """First choices that cut the work of a case into pieces, the bigger pieces first."""
    if hasattr(case, "splits"):
        return case.splits()
    pre = [[]]
    for _ in range(case.tree.bools):
        pre = [p + [b] for p in pre for b in (0, 1)]
    out = []
    for p in pre:
        for n in range(case.n, -1, -1):
            if n < 2:
                out.append(p + [n])
                continue
            depth = 1 if n == 2 else 2
            q = [p + [n]]
            for d in range(depth):
                # a token with unknown bytes ends the prefix: its events differ, but later choices keep their order
                q = [x + [k] for x in q for k in range(len(case.shape(d)))]
            out += q
    return out


def analyse(bc, choices, cut, seconds, steps=None, entry="h_main"):
    cmd = [build.absint(), bc, entry, "--seconds=%d" % seconds]
    if choices:
        cmd.append("--choices=" + ";".join(",".join(map(str, c)) for c in choices))
    if steps:
        cmd.append("--steps=%d" % steps)
    if cut:
        cmd += ["--cut=" + c for c in CUTS]
    p = subprocess.run(cmd, capture_output=True, text=True)
    recs, stats, undecided = [], None, []
    for l in p.stdout.splitlines():
        d = json.loads(l)
        if "broken" in d:
            raise Broken("%s" % d["broken"])
        if "undecided" in d:
            undecided.append(d["undecided"])
        elif "stats" in d:
            stats = d["stats"]
        else:
            recs.append(d)
    if p.returncode or stats is None:
        raise Broken("absint failed: %d %s" % (p.returncode, p.stderr[-300:]))
    stats["undecided"] = undecided
    return recs, stats


def cell(v):
    if isinstance(v, int):
        return v
    if isinstance(v, dict) and "s" in v and "p" not in v:
        return S((v["s"],))
    return ("?", json.dumps(v))


def decode(case, rec):
    """Inputs and outcome of a partition."""
    tr = rec["trace"]
    pos = [0]

    def take(tag):
        while pos[0] < len(tr) and tr[pos[0]][0] == "def":
            pos[0] += 1
        e = tr[pos[0]]
        if e[0] != tag:
            raise Broken("trace: expected %s, found %s" % (tag, e))
        pos[0] += 1
        return e[1:]

    bools = [take("choice")[0] for _ in range(case.tree.bools)]
    rounds = []
    for rnd in range(2 if case.twice else 1):
        if pos[0] >= len(tr):
            break
        n = take("choice")[0]
        args = []
        for i in range(n):
            k = take("choice")[0]
            cells = []
            for p in case.shape(i)[k]:
                if isinstance(p, str):
                    cells += list(p.encode())
                else:
                    cells += [S((x,)) for x in take("bytes")]
            if case.entry in ("argv", "c_strings"):
                assert cells[-1] == 0
                cells = cells[:-1]
            args.append(cells)
        take("parsing")
        out, parsed = [], []
        while pos[0] < len(tr) and tr[pos[0]][0] != "choice":
            e = tr[pos[0]]
            pos[0] += 1
            if e[0].startswith(("throw:", "libthrow:", "def")):
                continue
            if e[0] == "sym":
                parsed.append(e[1])
                continue
            out.append((e[0], [cell(x) for x in e[1:]]))
        rounds.append((args, out, parsed))
    return bools, rounds


def same_cell(env, a, b):
    """a: found, b: expected"""
    if isinstance(b, S):
        if isinstance(a, S) and a == b:
            return True
        d = env.dom[b[0]]
        return isinstance(a, int) and d == [(a, a)]
    if isinstance(a, S):
        return env.dom[a[0]] == [(b, b)]
    return a == b


def show(env, cells):
    o = ""
    for c in cells:
        if isinstance(c, S):
            d = env.dom[c[0]]
            o += chr(d[0][0]) if len(d) == 1 and d[0][0] == d[0][1] and 32 < d[0][0] < 127 else "<" + ",".join("%02x-%02x" % r if r[0] != r[1] else "%02x" % r[0] for r in d[:4]) + (",.." if len(d) > 4 else "") + ">"
        elif isinstance(c, int):
            o += chr(c) if 32 <= c < 127 else "\\x%02x" % (c & 0xff)
        else:
            o += str(c)
    return o


def show_events(env, evs):
    o = []
    for e in evs:
        if e[0] == "err" and isinstance(e[1], Err):
            o.append("rejection %s%s" % ("/".join(e[1].codes), "" if e[1].tokens is None else ":" + "|".join(show(env, t) for t in e[1].tokens)))
        elif e[0].endswith("$"):
            o.append("%s '%s'" % (e[0][:-1] if e[0] != "err$" else "rejection", show(env, e[1])))
        elif len(e) > 1 and e[1] != []:
            v = e[1] if isinstance(e[1], list) else [e[1]]
            o.append("%s %s" % (e[0], " ".join("sym%s%s" % (x[0], env.dom[x[0]]) if isinstance(x, S) else str(x) for x in v)))
        else:
            o.append(e[0])
    return ", ".join(o) or "nothing"


def err_parts(cells):
    i = next((k for k, c in enumerate(cells) if c == 58), None)
    if i is None or not all(isinstance(c, int) for c in cells[:i]):
        return None, None
    return bytes(cells[:i]).decode("latin1"), cells[i + 1:]


def compare(env, expected, found, end):
    """None, or what is wrong."""
    if end.startswith("ub:"):
        return "undefined behaviour"
    if end in ("uncaught", "terminate"):
        return "another exception leaves parsing"
    f = list(found)
    x = list(expected)
    if end == "cut":
        f.append(("cut", []))
    while x and f:
        a, b = f[0], x[0]
        if b[0] == "err":
            e = b[1]
            if a[0] == "cut":
                if not any(c.startswith("unknown_argument") for c in e.codes):
                    return "rejected as unknown"
            elif a[0] == "err$":
                code, rest = err_parts(a[1])
                if code not in e.codes:
                    return "wrong rejection"
                if e.tokens is not None:
                    want = []
                    for i, t in enumerate(e.tokens):
                        want += ([124] if i else []) + list(t)
                    if e.more and len(rest) > len(want):
                        rest = rest[:len(want)] if rest[len(want)] == 124 else rest
                    if len(want) != len(rest) or not all(same_cell(env, p, q) for p, q in zip(rest, want)):
                        return "the rejection names the wrong tokens"
            else:
                return "accepted, but must be rejected"
        elif a[0] == "cut" or a[0] == "err$":
            return "rejected, but must be accepted"
        elif a[0] != b[0]:
            return "wrong event"
        else:
            v = b[1:] if len(b) > 1 and not isinstance(b[1], list) else (b[1] if len(b) > 1 else [])
            if len(v) != len(a[1]) or not all(same_cell(env, p, q) for p, q in zip(a[1], v)):
                return "wrong value"
        f.pop(0)
        x.pop(0)
    if f or x:
        return "too many events" if f else "too few events"
    return None


def judge(case, rec):
    """Compares one partition; returns (obligations, problem or None)."""
    model.LONG, model.SHORT = getattr(case, "prefixes", ("--", "-"))
    if hasattr(case, "judge"):
        return case.judge(rec)
    bools, rounds = decode(case, rec)
    env0 = Env({i: [tuple(r) for r in d] for i, d in enumerate(rec["dom"])})
    count = [0]

    def go(env, depth):
        if depth > 200:
            raise Broken("too many cells")
        try:
            for k, (args, found, parsed) in enumerate(rounds):
                last = k == len(rounds) - 1
                if case.safety:
                    end = rec["end"] if last else "ok"
                    why = "undefined behaviour" if end.startswith("ub:") else "another exception leaves parsing" if end in ("uncaught", "terminate") else None
                    expected = [("defined behaviour",)]
                else:
                    run = Run(case.tree, env, bools, list(parsed))
                    why = None
                    try:
                        expected = run.run([Tok(a) for a in args])
                    except model.Missing as e:
                        expected = [("err", Err(str(e)))]
                    why = compare(env, expected, found, rec["end"] if last else "ok")
                if why is None and last and rec["end"] == "return" and rec["leak"]:
                    why = "%d objects are never released" % rec["leak"]
                if why:
                    count[0] += 1
                    return {"why": why, "args": [show(env, a) for a in args], "earlier": [[show(env, a) for a in r[0]] for r in rounds[:k]], "bools": bools,
                            "expected": show_events(env, expected), "found": show_events(env, found) + ("" if rec["end"] == "return" else " [%s %s]" % (rec["end"], rec["detail"])), "key": why,
                            "throws": [t[0] for t in rec["trace"] if t[0].startswith(("throw:", "libthrow:"))][-2:]}
            count[0] += 1
            return None
        except Split as s:
            for part in s.parts:
                p = go(env.restrict(s.sym, part), depth + 1)
                if p:
                    return p
            return None
    return count[0] or 1, go(env0, 0), count


def job(a):
    case, bc, choices, seconds = a
    try:
        recs, stats = analyse(bc, choices, case.cut, seconds)
    except Broken as e:
        return case.name, {"steps": 0, "functions": 0, "library_functions": 0, "call_sites": 0, "undecided": [str(e)], "accepted": 0, "rejected": 0}, 0, 0, []
    probs, cells = [], 0
    stats["accepted"] = sum(1 for r in recs if any(e[0] == "route" for e in r["trace"]))
    stats["rejected"] = sum(1 for r in recs if r["end"] == "cut" or any(e[0] == "err$" for e in r["trace"]))
    for r in recs:
        _, p, c = judge(case, r)
        cells += c[0]
        if p:
            probs.append(p)
    return case.name, stats, len(recs), cells, probs


def compile_job(a):
    case, d = a
    src, bc = os.path.join(d, case.name + ".cpp"), os.path.join(d, case.name + ".bc")
    with open(src, "w") as f:
        f.write(case.cpp())
    return case.name, compile_cpp(src, bc, case.defines)


def run_cases(cases, seconds=200):
    """-> per case: dict(stats, partitions, cells, problems)."""
    res = {c.name: {"partitions": 0, "cells": 0, "problems": [], "steps": 0, "functions": 0, "library_functions": 0, "call_sites": 0, "error": None, "undecided": [], "accepted": 0, "rejected": 0} for c in cases}
    with tempfile.TemporaryDirectory(prefix="ar_e2_") as d, cf.ProcessPoolExecutor(JOBS) as ex:
        ok = []
        fut = {}
        for c in cases:
            fut[ex.submit(compile_job, (c, d))] = c
        jobs = []
        for f in cf.as_completed(fut):
            c = fut[f]
            name, err = f.result()
            if err:
                res[name]["error"] = err
                continue
            sp = splits(c)
            k = max(1, min(len(sp), 16))
            for i in range(k):
                jobs.append(ex.submit(job, (c, os.path.join(d, c.name + ".bc"), sp[i::k], seconds)))
        for f in cf.as_completed(jobs):
            name, st, n, cells, probs = f.result()
            r = res[name]
            r["partitions"] += n
            r["cells"] += cells
            r["problems"] += probs
            r["steps"] += st["steps"]
            r["accepted"] += st["accepted"]
            r["rejected"] += st["rejected"]
            r["undecided"] += st["undecided"]
            for k in ("functions", "library_functions", "call_sites"):
                r[k] = max(r[k], st[k])
    return res
