"""The call graph of a program, read from the compiler's intermediate representation."""
import os, re, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AR_REPO", "/repo")
FLAGS = ["-std=c++20", "-fno-rtti", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-c", "-emit-llvm"]
NAME = re.compile(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)')


class Graph:
    """functions: name -> (referenced symbols, [(line, debug location)]); globals: name -> (constant?, thread local?, type is const?, references)."""
    def __init__(self):
        self.functions, self.globals, self.declared, self.lines = {}, {}, set(), {}

    def reach(self, roots):
        """Everything reachable from the roots: symbol -> the symbol it was reached from."""
        seen = {r: None for r in roots if r in self.functions}
        todo = list(seen)
        while todo:
            f = todo.pop()
            refs = self.functions[f] if f in self.functions else self.globals[f]["refs"] if f in self.globals else ()
            for g in refs:
                if g not in seen:
                    seen[g] = f
                    todo.append(g)
        return seen


def load(source, defines=()):
    """(Graph, None) or (None, compiler output)."""
    with tempfile.TemporaryDirectory(prefix="ar_e3_") as d:
        cpp, bc = os.path.join(d, "t.cpp"), os.path.join(d, "t.bc")
        with open(cpp, "w") as f:
            f.write(source)
        p = subprocess.run(["clang++-18"] + FLAGS + ["-I", os.path.join(REPO, "include")] + ["-D" + x for x in defines] + [cpp, "-o", bc], capture_output=True, text=True)
        if p.returncode:
            return None, p.stderr
        # dead parts out first, which keeps only what the roots use
        p = subprocess.run(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=do_parse,do_parse_words,do_help,do_help_text,do_make", bc, "-o", bc + "2"], capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError("opt: " + p.stderr[:500])
        p = subprocess.Popen(["llvm-dis-18", bc + "2", "-o", "-"], stdout=subprocess.PIPE, text=True, encoding="utf8", errors="replace")
        g, cur, md, aliases = Graph(), None, {}, {}
        for l in p.stdout:
            if cur is not None:
                if l[0] == "}":
                    g.functions[cur] = refs
                    cur = None
                elif "@" in l:
                    for n in NAME.findall(l):
                        n = n.strip('"')
                        refs.add(n)
                        if "!dbg" in l:
                            g.lines.setdefault((cur, n), l.rsplit("!dbg !", 1)[1].split(",")[0].strip())
                    if " store " in l or l.lstrip().startswith("store"):
                        g.lines.setdefault((cur, "store:" + (NAME.findall(l) or [""])[-1].strip('"')), l)
            elif l.startswith("define"):
                cur = NAME.search(l).group(1).strip('"')
                refs = set(n.strip('"') for n in NAME.findall(l)) - {cur}
            elif l.startswith("declare"):
                g.declared.add(NAME.search(l).group(1).strip('"'))
            elif l[0] == "@":
                n = NAME.match(l).group(1).strip('"')
                rest = l[len(NAME.match(l).group(0)):]
                g.globals[n] = {"constant": " constant " in rest.split("!dbg")[0].split('c"')[0], "external": re.match(r" = (\w+ )*external ", rest) is not None, "tls": "thread_local" in rest[:60],
                                "refs": {x.strip('"') for x in NAME.findall(rest)}, "dbg": rest.rsplit("!dbg !", 1)[1].split(",")[0].strip() if "!dbg !" in rest else None, "alias": " alias " in rest}
            elif l[0] == "!" and l[1:2].isdigit():
                if "DIGlobalVariable" in l or "DIDerivedType" in l or "DILocation(" in l or "DISubprogram(" in l or "DIFile(" in l or "DILexicalBlock" in l:
                    k, v = l.split(" = ", 1)
                    md[k[1:]] = v
        p.wait()
        g.md = md
        return g, None


FIELD = re.compile(r'(\w+): (?:!(\d+)|"([^"]*)"|(\w+))')


def fields(v):
    return {a: b or c or d for a, b, c, d in FIELD.findall(v)}


def declared_const(g, name):
    """Is the variable of a const type, by its declaration?"""
    d = g.globals[name]["dbg"]
    if d is None or d not in g.md:
        return False
    v = fields(g.md[d])
    t = fields(g.md.get(v.get("var", ""), "")).get("type")
    return "DW_TAG_const_type" in g.md.get(t or "", "")


def place(g, f, n):
    """file:line of a reference to n in f."""
    at = g.lines.get((f, n))
    if not at or at not in g.md:
        return "?"
    loc = fields(g.md[at])
    sc = fields(g.md.get(loc.get("scope", ""), ""))
    for _ in range(10):
        if "file" in sc:
            break
        sc = fields(g.md.get(sc.get("scope", ""), ""))
    f = fields(g.md.get(sc.get("file", ""), "")).get("filename", "?")
    return "%s:%s" % (f.replace(REPO + "/", ""), loc.get("line", "?"))


def demangle(names):
    names = list(names)
    if not names:
        return {}
    out = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
    return dict(zip(names, out))


def path(seen, n):
    o = [n]
    while seen[n] is not None:
        n = seen[n]
        o.append(n)
    return o[::-1]
