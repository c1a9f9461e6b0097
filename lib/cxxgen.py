"""C++ source text: a random generator and a reference lexer for #include directives."""
import re

LIT_PREFIX = ["", "", "", "L", "u", "U", "u8"]
TRICKY = ['#include "bad0.hpp"', "#include <bad1>", "/*", "*/", "//", "'", '\\"', "R(", ")", "\\\\", "x", " ", "**/", "/**", '#include \\"bad2.hpp\\"', "%", "#", "a'b", ")\\\"", "R\\\"("]


class Malformed(Exception):
    pass


def includes(text):
    try:
        return _includes(text)
    except Malformed:
        return None


def _includes(text):
    """reference: the #include directives of a translation unit, [(name, '"' or '<')]

    None if the text is not lexically valid C++ (a malformed or unterminated raw string literal or comment).
    Works on logical lines after phase 2 (line splicing), with raw string literals kept as they are."""
    out = []
    n = len(text)
    i = 0
    bol = True     # only white space and comments since the beginning of the logical line

    def at(k):
        """character at k after splicing -> (char, next index)"""
        while text.startswith("\\\n", k):
            k += 2
        return (text[k], k + 1) if k < n else ("", k)

    def peek(k, s):
        """does the spliced text at k begin with s -> index after it, or None"""
        for ch in s:
            c, k = at(k)
            if c != ch:
                return None
        return k

    def skip_ws(k):
        """white space and comments within a line"""
        while True:
            c, k2 = at(k)
            if c and c in " \t\r\f\v":
                k = k2
                continue
            q = peek(k, "/*")
            if q is not None:
                e = text.find("*/", q)
                if e >= 0 and "\\\n" not in text[q:e]:
                    k = e + 2
                    continue
                while True:
                    e = peek(q, "*/")
                    if e is not None:
                        k = e
                        break
                    c, q2 = at(q)
                    if c == "":
                        raise Malformed()
                    q = q2
                continue
            q = peek(k, "//")
            if q is not None:
                while True:
                    e = text.find("\n", q)
                    q = max(q, (n if e < 0 else e) - 1)
                    c, q2 = at(q)
                    if c in ("", "\n"):
                        break
                    q = q2
                return q
            return k

    while True:
        i = skip_ws(i)
        c, j = at(i)
        if c == "":
            return out
        if c == "\n":
            bol = True
            i = j
            continue
        if c == "#" and bol:
            k = skip_ws(j)
            q = peek(k, "include")
            bol = False
            if q is not None:
                nc, _ = at(q)
                if not (nc.isalnum() or nc == "_"):
                    q = skip_ws(q)
                    c, q2 = at(q)
                    if c in ('"', "<") and c:
                        end = '"' if c == '"' else ">"
                        name, z = "", q2
                        while True:
                            d, z = at(z)
                            if d in ("", "\n"):
                                name = None
                                break
                            if d == end:
                                break
                            name += d
                        if name is not None:
                            out.append((name, c))
                            i = z
                            continue
            i = j
            continue
        bol = False
        # raw string literal
        m = None
        for pre in ("u8R", "uR", "UR", "LR", "R"):
            q = peek(i, pre + '"')
            if q is not None:
                m = q
                break
        if m is not None:
            k = m
            tag = ""
            while k < n and text[k] not in '(\n)\\ "' and len(tag) <= 16:
                tag += text[k]
                k += 1
            e = text.find(")" + tag + '"', k) if k < n and text[k] == "(" and len(tag) <= 16 else -1
            if e < 0:
                return None     # not a raw string literal: the text is not C++
            i = e + len(tag) + 2
            continue
        if c in "\"'":
            k = j
            while True:
                d, k2 = at(k)
                if d in ("", "\n"):
                    break
                k = k2
                if d == "\\":
                    d, k3 = at(k)
                    if d not in ("", "\n"):
                        k = k3
                    continue
                if d == c:
                    break
            i = k
            continue
        if c.isdigit() or (c == "." and at(j)[0].isdigit()):
            k = j
            while True:
                d, k2 = at(k)
                if d and (d.isalnum() or d in "_."):
                    k = k2
                    continue
                if d == "'":
                    d2, k3 = at(k2)
                    if d2 and (d2.isalnum() or d2 == "_"):
                        k = k3
                        continue
                break
            i = k
            continue
        if c.isalpha() or c == "_":
            k = j
            while True:
                d, k2 = at(k)
                if d and (d.isalnum() or d == "_"):
                    k = k2
                    continue
                break
            word = text[i:k].replace("\\\n", "")
            nd = at(k)[0]
            if word in ("L", "u", "U", "u8") and nd and nd in "\"'":
                i = k
                continue
            i = k
            continue
        i = j


def rnd_bytes(r):
    """bytes of other encodings (as surrogates, to be encoded with surrogateescape)"""
    return r.choice(["\udcff", "\udcff", "\udc80", "\udcfe\udcff", "\udcc3", "\udce9t\udce9", "\x1a", "\x7f", "\ufeff"])


class Gen:
    def __init__(self, rng, project=None, system=None, splice=True):
        self.rng, self.splice = rng, splice
        self.project = project or ["h%d.hpp" % k for k in range(6)] + ["dir/a.hpp", "./rel.hpp", "sp ace.hpp", "k.gen.hpp", "sub/z.gen.hpp", "é.hpp", "it's.hpp", "a//b.hpp", "c/*d.hpp"]
        self.system = system or ["vector", "sys/types.h", "a-b.h", "x+y", "it's.h", "q\"q.h", "b//c.h"]

    def ws(self, allow_comment=True):
        r = self.rng.random()
        if r < 0.6:
            return self.rng.choice(["", " ", "\t", "  "])
        if r < 0.8 and allow_comment:
            return "/*" + self.rng.choice(["", " c ", "*", "**", ' "q" ', " // ", " it's ", ' #include "bad3.hpp" ', "\n", ' \n#include "bad4.hpp"\n', "/"]) + "*/"
        return " "

    def include(self):
        r = self.rng
        q = r.random() < 0.6
        name = r.choice(self.project if q else self.system)
        arg = f'"{name}"' if q else f"<{name}>"
        tail = r.choice(["", "", "", " ", " // it's a comment", ' // "quoted', " /* x */", " /* it's\n multi */", ' /* #include "bad5.hpp" */', "\r", " //", " /**/"])
        lead = r.choice(["", "", "", " ", "\t"]) if r.random() < 0.8 else self.ws()
        return lead + "#" + self.ws() + "include" + self.ws() + arg + tail

    def string(self, q='"'):
        r = self.rng
        s = ""
        for _ in range(r.randint(0, 5)):
            s += r.choice(['#include \\"bad6.hpp\\"', "/*", "*/", "//", "#include <bad7>", "x", " ", "\\n", "\\\\", "R(", ")", "'" if q == '"' else '"', "\\" + q, "\\t", "é", "%s", "#", "\\x41", rnd_bytes(r)])
        if self.splice and r.random() < 0.15:
            s += "\\\n" + r.choice(["", '#include <bad8>', "/*"])
        return r.choice(LIT_PREFIX) + '"' + s + '"'

    def char(self):
        r = self.rng
        return r.choice(LIT_PREFIX) + "'" + r.choice(['"', "\\'", "\\\\", "/", "*", "a", "5", "#", "\\n", "R", '\\"', "(", " ", "\\x27", "\\0"]) + "'"

    def raw(self):
        r = self.rng
        tag = r.choice(["", "", "x", "tag", "_", "R", "abc123", "0123456789abcdef", "a-b", "*/", "//"])
        s = ""
        for _ in range(r.randint(0, 6)):
            s += r.choice(['#include "bad9.hpp"\n', "\n#include <bad10>\n", ")", '"', ')"', "/*", "*/", "//", "\\", "\\\n", "'", ")x", f"){tag}", ")" + tag[:-1] + '"', "x", "\n", "(", f"){tag}x\"", ")" * 3, rnd_bytes(r)])
        s = s.replace(f'){tag}"', f'){tag} "')
        while f'){tag}"' in s + f'){tag}"'[:-1]:
            s = s.replace(f'){tag}"', "")
        if f'){tag}"' in s:
            s = ""
        return r.choice(["", "", "L", "u", "U", "u8"]) + f'R"{tag}({s}){tag}"'

    def number(self):
        return self.rng.choice(["1'000'000", "0xAB'CDef'12", "0b1'0", "1.5e3", ".5", "1'0.5'0", "42", "0x1p3", "1'000ull", "12'34_km"])

    def comment(self):
        r = self.rng
        if r.random() < 0.5:
            return "/*" + "".join(r.choice(['#include "bad11.hpp"\n', "\n#include <bad12>\n", "*", "/", "**", "//", '"', "'", "x", "\n", " ", "\\", "R\"(", "/*", rnd_bytes(r)]) for _ in range(r.randint(0, 6))).replace("*/", "* /").rstrip("*") + r.choice(["", "*", "**", " "]) + "*/"
        t = "//" + "".join(r.choice(['#include "bad13.hpp"', "/*", "*/", '"', "'", "it's", "R\"(", " ", "x", "\\n", rnd_bytes(r)]) for _ in range(r.randint(0, 4)))
        if self.splice and r.random() < 0.25:
            t += "\\\n" + r.choice(['#include "bad14.hpp"', "more", "/* x", ""])
        return t + "\n"

    def directive(self):
        r = self.rng
        return self.ws(False) + r.choice(["#define A " + self.string(), "#define INC \"bad15.hpp\"", "#define B(x) #x", "#pragma once", "#undef A", "#define include_it <bad16>", "#define Q " + self.char(), "#define M 1'000",
                                          "#define E /* c */ x", "#", "#pragma message(\"#include <bad17>\")", "#define RR R\"(\n#include \"bad18.hpp\"\n)\"", "#line 12 \"bad19.hpp\"", "#define D x // it's",
                                          "#ident \"bad20.hpp\""] + (["#define LONG \\\n#include \"bad21.hpp\"", "#define LONG2 a \\\n  \"b\" \\\n  /* x"] if self.splice else [])[:1])

    def code(self):
        r = self.rng
        out = []
        for _ in range(r.randint(1, 6)):
            k = r.random()
            if k < 0.2:
                out.append(self.string())
            elif k < 0.35:
                out.append(self.char())
            elif k < 0.5:
                out.append(self.raw())
            elif k < 0.6:
                out.append(self.number())
            elif k < 0.7:
                out.append(self.comment())
            else:
                out.append(r.choice(["int x", "R", "xR", "foo(", ")", ";", "a / b", "a /", "*p", "a*b", "::", "L", "u8", "R_x", "a#x", "<", ">", "{", "}", ", ", "_R", "%", "include", "x /"]))
            out.append(r.choice([" ", " ", ";", ", ", "\t", "/", "+"]))
        return "".join(out)

    def source(self, size=None):
        r = self.rng
        parts = []
        n = size if size is not None else r.choice([1, 3, 8, 20, 40])
        pad = r.random() < 0.3
        for _ in range(n):
            k = r.random()
            if k < 0.35:
                parts.append(self.include())
            elif k < 0.45:
                parts.append(self.directive())
            elif k < 0.55:
                parts.append(self.comment().rstrip("\n"))
            elif k < 0.6:
                parts.append("")
            else:
                parts.append(self.code())
            if pad and r.random() < 0.15:
                # move what follows across a buffer boundary
                here = len("\n".join(parts).encode("utf-8", "surrogateescape")) + 1
                want = (-here) % 4096 - r.randint(0, 24)
                if want > 3:
                    parts.append("//" + "p" * (want - 3))
        t = "\n".join(parts)
        if self.splice and r.random() < 0.3:
            # splices anywhere outside of raw strings are invisible: only add them at directives
            t = re.sub(r"(?m)^#include", lambda m: r.choice(["#\\\ninclude", "#inc\\\nlude", "#include\\\n", "#include"]), t)
        if r.random() < 0.7:
            t += "\n"
        return t
