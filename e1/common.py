"""E1: compile-pass / compile-fail twin witnesses.

Every witness is one C++ program.  Nothing is ever run: the verdict of a witness is whether
the compiler's front end (-fsyntax-only) accepts it.  A 'bad' witness states a parse tree the
library promises to reject; it is only meaningful next to a 'good' twin that differs from it
in exactly the offending construct and must be accepted.
"""
import concurrent.futures as cf
import json, os, re, subprocess, sys, tempfile, time, hashlib, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AR_REPO", "/repo")

BASE_DEFS = {
    "AR_MAX_CTS_SIZE": "128",
    "AR_LONG_PREFIX": '"--"',
    "AR_SHORT_PREFIX": '"-"',
    "AR_ALLOCATOR": "std::allocator",
    "AR_UTF8_TRAILING_WINDOW_SIZE": "16",
    "AR_DISABLE_CPP20_STRINGS": "false",
}

PRELUDE17 = """
#include <arg_router/arg_router.hpp>
"""
PRELUDE = """
#include <arg_router/arg_router.hpp>
#include <cstdint>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
namespace ar = arg_router;
namespace arp = ar::policy;
namespace ard = ar::dependency;
using namespace ar::literals;
using VI = std::vector<int>;
using VS = std::vector<std::string_view>;
using ar::operator""_S;
enum class colour_e { red, green, blue };
"""
PRELUDE = PRELUDE.replace('using ar::operator""_S;\n', "")

R = "arp::router{[](auto&&...){}}"
RM = "arp::router{[](auto&&...){}}"


class Cfg:
    """One compiler configuration: compiler, standard and the library's own defines."""

    def __init__(self, name, cxx="clang++", std="c++20", defs=None):
        self.name, self.cxx, self.std = name, cxx, std
        self.defs = dict(BASE_DEFS)
        self.defs.update(defs or {})

    def flags(self):
        return ([self.cxx, "-std=" + self.std, "-fno-rtti", "-w", "-I" + REPO + "/include"] +
                ["-D%s=%s" % kv for kv in self.defs.items()])


CLANG20 = Cfg("clang20")
# C++17's compile-time strings (C++17 itself needs span-lite, which is not installed here)
CLANGS = Cfg("clang-s17", defs={"AR_DISABLE_CPP20_STRINGS": "true"})
GCCS = Cfg("gcc-s17", cxx="g++", defs={"AR_DISABLE_CPP20_STRINGS": "true"})
GCC20 = Cfg("gcc20", cxx="g++")
SAMEPFX = Cfg("sameprefix20", defs={"AR_LONG_PREFIX": '"--"', "AR_SHORT_PREFIX": '"--"'})


class W:
    """A witness.  kind: 'bad' (must be rejected) or 'good' (must be accepted)."""

    def __init__(self, wid, kind, code, note, twin=None, cfg=CLANG20, rule=""):
        self.id, self.kind, self.code, self.note, self.twin, self.cfg, self.rule = (
            wid, kind, code, note, twin, cfg, rule)


def tree(*children, ret=False):
    """Program constructing, validating and instantiating the parse of a whole tree."""
    body = ",\n  ".join(("arp::validation::default_validator",) + children)
    return ("void witness(int argc, char** argv) {\n auto r = ar::root(\n  %s);\n"
            " r.parse(argc, argv);\n}\n" % body)


def raw(stmt):
    return "void witness() {\n %s\n}\n" % stmt


def mode(*children, router=R):
    return "ar::mode(%s)" % ", ".join(children + ((router,) if router else ()))


def anon(*children):
    """Tree with one anonymous mode."""
    return tree(mode(*children))


class Family:
    """Accumulates twins.  pair() declares the offending program and its legal twin."""

    def __init__(self, prefix):
        self.prefix, self.ws, self._good, self.names = prefix, [], {}, set()

    def good(self, name, code, note, cfg=CLANG20):
        key = (cfg.name, code)
        if key not in self._good:
            wid = "%s.%s.ok" % (self.prefix, name)
            self._good[key] = wid
            self.ws.append(W(wid, "good", code, note, cfg=cfg))
        return self._good[key]

    def pair(self, name, bad, good, note, cfg=CLANG20):
        assert name not in self.names, name
        assert bad != good, name
        self.names.add(name)
        t = self.good(name, good, "legal twin of: " + note, cfg)
        self.ws.append(W("%s.%s" % (self.prefix, name), "bad", bad, note, twin=t, cfg=cfg))


class Broken(Exception):
    pass


class Umbrella(Broken):
    """The library as such does not compile."""


class Runner:
    def __init__(self, jobs=None):
        self.jobs = jobs or os.cpu_count() or 4
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="e1.", dir=base)
        self.pch = {}
        self.compiles = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def prepare(self, cfg):
        if cfg.name in self.pch:
            return
        hdr = os.path.join(self.dir, cfg.name + ".hpp")
        with open(hdr, "w") as f:
            f.write(PRELUDE)
        if cfg.cxx.startswith("clang"):
            out = hdr + ".pch"
            cmd = cfg.flags() + ["-fpch-instantiate-templates", "-x", "c++-header", hdr, "-o", out]
            inc = ["-include-pch", out]
        else:
            out = hdr + ".gch"
            cmd = cfg.flags() + ["-x", "c++-header", hdr, "-o", out]
            inc = ["-include", hdr]
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
        self.compiles += 1
        if p.returncode:
            raise Umbrella("the library's umbrella header does not compile (%s): %s" %
                         (cfg.name, p.stderr[:1500]))
        self.pch[cfg.name] = inc

    def compile(self, cfg, code, tag):
        """Returns (accepted, first error line)."""
        src = os.path.join(self.dir, re.sub(r"[^A-Za-z0-9_.]", "_", tag) + ".cpp")
        with open(src, "w") as f:
            f.write(code)
        cmd = cfg.flags() + self.pch[cfg.name] + ["-fsyntax-only", "-Wfatal-errors",
                                                  "-ftemplate-backtrace-limit=1", src]
        try:
            p = subprocess.run(cmd, capture_output=True, timeout=300)
        except subprocess.TimeoutExpired:
            raise Broken("compiler timed out on " + tag)
        self.compiles += 1
        err = p.stderr.decode("utf8", "replace")
        os.unlink(src)
        if p.returncode == 0:
            return True, ""
        if p.returncode < 0 or "PLEASE submit a bug report" in err or "internal compiler error" in err:
            raise Broken("compiler crashed on %s: %s" % (tag, err[-600:]))
        m = re.search(r"^.*?(?:fatal )?error: .*$", err, re.M)
        if not m:
            raise Broken("compiler failed without a diagnostic on %s: %s" % (tag, err[:600]))
        return False, m.group(0)[:400]

    def run(self, witnesses):
        """Returns {id: (accepted, diagnostic)}; good witnesses of one configuration are
        batched, and split up only when the batch is rejected."""
        res = {}
        for c in {w.cfg.name: w.cfg for w in witnesses}.values():
            self.prepare(c)
        tasks = []
        goods = {}
        for w in witnesses:
            if w.kind == "good":
                goods.setdefault(w.cfg.name, []).append(w)
            else:
                tasks.append([w])
        for lst in goods.values():
            n = 6
            tasks += [lst[i:i + n] for i in range(0, len(lst), n)]
        tasks.sort(key=lambda t: -len(t))

        def one(t):
            if len(t) == 1:
                return {t[0].id: self.compile(t[0].cfg, t[0].code, t[0].id)}
            code = "\n".join("namespace n%d {\n%s\n}" % (i, w.code) for i, w in enumerate(t))
            ok, _ = self.compile(t[0].cfg, code, t[0].id + ".batch")
            if ok:
                return {w.id: (True, "") for w in t}
            return {w.id: self.compile(w.cfg, w.code, w.id) for w in t}

        with cf.ThreadPoolExecutor(self.jobs) as ex:
            for r in ex.map(one, tasks):
                res.update(r)
        return res
