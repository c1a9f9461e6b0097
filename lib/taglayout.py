"""Ways to write the same tags: random JSON text and random placement of tag lines in a source file."""
import json


def jstr(rng, s):
    out = '"'
    for ch in s:
        r = rng.random()
        if ch in '"\\' or ord(ch) < 32:
            out += {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r"}.get(ch) if ch in '"\\\n\t\r' and r < 0.7 else "\\u%04x" % ord(ch)
        elif ch == "/" and r < 0.2:
            out += "\\/"
        elif r < 0.05 and ord(ch) < 0x10000:
            out += ("\\u%04X" if r < 0.02 else "\\u%04x") % ord(ch)
        else:
            out += ch
    return out + '"'


def jtext(rng, v, ws):
    """JSON text with random white space and order of keys; ws() gives white space that may contain line breaks"""
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        return "{" + ",".join(ws() + jstr(rng, k) + ws() + ":" + ws() + jtext(rng, v[k], ws) + ws() for k in ks) + ws() + "}"
    if isinstance(v, list):
        return "[" + ",".join(ws() + jtext(rng, x, ws) + ws() for x in v) + ws() + "]"
    if isinstance(v, str):
        return jstr(rng, v)
    return json.dumps(v)


def white(rng):
    p = rng.choice([0.02, 0.2, 0.6])
    big = rng.random() < 0.15

    def ws():
        if rng.random() > p:
            return ""
        if big and rng.random() < 0.05:
            return rng.choice([" ", "\n", "\t"]) * rng.randint(500, 5000)
        return rng.choice([" ", "\n", "\t", "\n\n", " \n ", "\r\n", "  "])
    return ws


def text(rng, js):
    return jtext(rng, js, white(rng))


# untagged lines of the loader for lines that begin with #@, none of which is a tag
PLAIN = ["", " ", "\t", "#", "# @{", "##@ {", "x #@ {\"target\":1}", "text", "# comment", "\"#@\"", "@#", "-- #@", "é", "//@ {", "x" * 300, "#!#@", "'", "\"", "\\", "#\t@", "\x0c", "\x0bpage", " \x0c "]
CXX = ["", "\t", "// @{", "/// comment", "x; //@ {\"target\":1}", "/* //@ {", "int x;", "/**/", "/*\n//@ {\"a\n*/", "/*\n//@}\n * **/", "char const* s = \"//@ {\";", "auto r = R\"(\n//@{\"x\":\n)\";", "auto r2 = R\"x(\n)\"\n//@ ]\n)x\";", "char c = '\"';",
       "// it's", "/", "/ /@ x", "#@ {", "//", "//\t@", "a /\n//", "#define A \"/*\"", "// \"", "/*'*/", "int y = 1'000;", "//" + "p" * 300, "\x0c", "'\\''; // x", "char const* t = \"\\\"//@{\";", "/***\n//@[\n***/ // x"]
BAD_BLOCK = ["/* //@ {"]


def place(rng, lines, prefix, filler_ok=True):
    """source text that has the given tag lines in order, among lines without tags"""
    pool = PLAIN if prefix == "#@" else [x for x in CXX if x not in BAD_BLOCK]
    q = rng.choice([0, 0.05, 0.4]) if filler_ok else 0
    out = []

    def fill(k):
        for _ in range(k):
            out.append(rng.choice(pool))
    if rng.random() < 0.4 and filler_ok:
        fill(rng.randint(1, 12))
    if rng.random() < 0.3 and filler_ok:
        here = len("\n".join(out).encode()) + 1
        n = (-here) % 4096 - rng.randint(0, 60)
        if n > 10:
            out.append(("# " if prefix == "#@" else "// ") + "p" * (n - 4))
    ind = rng.choice(["", "", " ", "\t", "  \t"])
    for ln in lines:
        if rng.random() < q:
            fill(rng.randint(1, 3))
        out.append((ind if rng.random() < 0.8 else rng.choice(["", " ", "\t\t"])) + prefix + rng.choice(["", "", " ", "\t"]) + ln)
    if rng.random() < 0.6 and filler_ok:
        fill(rng.randint(1, 8))
    return "\n".join(out)
