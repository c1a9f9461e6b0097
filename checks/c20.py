"""C20: key-value data survives storing, loading and merging unchanged."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import jsongen, taglayout
import math


class Bad(Exception):
    pass


def pairs(ps):
    d = {}
    for k, v in ps:
        if k in d:
            raise Bad("duplicate key")
        d[k] = v
    return d


def no_const(x):
    raise Bad(x)


def integer(s):
    v = int(s)
    if not -2**63 <= v < 2**63:
        raise Bad("integer range")
    return v


def real(s):
    v = float(s)
    if math.isinf(v):
        raise Bad("real range")
    return v


DEC = json.JSONDecoder(object_pairs_hook=pairs, parse_constant=no_const, parse_int=integer, parse_float=real, strict=True)


def clean(v):
    """strings that the library does not allow: NUL and lone surrogates"""
    if isinstance(v, dict):
        return all(clean(k) and clean(x) for k, x in v.items())
    if isinstance(v, list):
        return all(clean(x) for x in v)
    if isinstance(v, str):
        return "\0" not in v and not any(0xd800 <= ord(ch) < 0xe000 for ch in v)
    return True


def first_value(raw):
    """the first JSON value of a text -> ('K', value), ('N', None) or ('E', why)"""
    if not raw.strip(b" \t\r\n"):
        return "N", None
    try:
        text = raw.decode("utf-8")
    except UnicodeDecodeError as e:
        # only what is up to the end of the first value has to be valid
        text = raw[:e.start].decode("utf-8") + "\x00"
    start = len(text) - len(text.lstrip(" \t\r\n"))
    try:
        v, _ = DEC.raw_decode(text, start)
    except (Bad, ValueError, RecursionError) as e:
        return "E", str(e)
    if not clean(v):
        return "E", "character"
    return "K", v


def same(a, b):
    """equal, and of equal types"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def jt(v):
    return {dict: "c", list: "a", str: "s", int: "i", float: "d", bool: "b", type(None): "n"}[type(v)]


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        if k not in out:
            out[k] = v
        elif jt(out[k]) != jt(v):
            raise Bad("types")
        elif isinstance(v, dict):
            out[k] = merge(out[k], v)
        elif isinstance(v, list):
            out[k] = out[k] + v
        else:
            out[k] = v
    return out


FLOATS = [0.1, -0.0, 0.0, 1e300, 1.7976931348623157e308, 5e-324, 3.141592653589793, 1e22, 123456789.125, -2.5e-7]


def value(rng, depth=4):
    v = jsongen.value(rng, depth)
    if isinstance(v, float) and rng.random() < 0.6:
        v = rng.choice(FLOATS)
    if isinstance(v, str) and rng.random() < 0.1:
        v = jsongen.text(rng, rng.choice([100, 1000, 1023, 1024, 1025, 4096, 9000])) if rng.random() < 0.5 else "".join(chr(rng.choice([rng.randint(1, 127), rng.randint(128, 0x7ff), rng.randint(0x800, 0xd7ff), rng.randint(0xe000, 0xffff), rng.randint(0x10000, 0x10ffff)])) for _ in range(20))
    return v


def nested(rng, n):
    v = rng.choice([1, "x", [], {}])
    for _ in range(n):
        v = [v] if rng.random() < 0.5 else {jsongen.key(rng): v}
    return v


def text_of(rng, v):
    k = rng.random()
    if k < 0.5:
        return taglayout.text(rng, v) if isinstance(v, dict) else json.dumps(v, indent=rng.choice([None, 0, 2, "\t"]), ensure_ascii=rng.random() < 0.5)
    return json.dumps(v, indent=rng.choice([None, None, 1, "\t"]), ensure_ascii=rng.random() < 0.5, separators=rng.choice([(",", ":"), (", ", ": "), (" ,\n", "\t:\r\n")]))


MUT = [b"{", b"}", b"[", b"]", b",", b":", b'"', b"\\", b"\\u0000", b"\\ud800", b"\\ude00", b"\xff", b"\xc3", b"\x00", b"\x01", b" ", b"\n", b"tru", b"null", b"-", b"1", b".", b"e", b"0", b"/", b"//x\n", b"'", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xef\xbb\xbf", b"99999999999999999999", b"1e999", b"+1", b"NaN", b"Infinity", b"\x7f", b"\x0c"]


def mutate(rng, raw):
    raw = bytearray(raw)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        i = rng.randint(0, len(raw))
        k = rng.random()
        if k < 0.45:
            raw[i:i] = rng.choice(MUT)
        elif k < 0.7 and raw:
            del raw[i:i + rng.randint(1, 3)]
        elif k < 0.8:
            raw = raw[:i]
        elif k < 0.9 and i < len(raw):
            raw[i] = rng.randint(0, 255)
        else:
            j = rng.randint(0, len(raw))
            raw[i:i] = raw[min(i, j):max(i, j)]
    return bytes(raw)


def body(c):
    exe = {v: build.harness("kvmon", v) for v in ("plain", "asan")}

    def make(rng):
        """-> (op, payloads, judge(status, parts) -> None or what is wrong)"""
        k = rng.random()
        if k < 0.5:
            if rng.random() < 0.1:
                v = nested(rng, rng.choice([10, 100, 500, 900]))
            elif rng.random() < 0.1:
                v = rng.choice([[value(rng, 2) for _ in range(rng.choice([50, 400]))], {f"k{i}": value(rng, 1) for i in range(rng.choice([50, 400]))}])
            else:
                v = rng.choice([jsongen.obj(rng, 5), value(rng), [value(rng) for _ in range(3)]])
            raw = text_of(rng, v).encode("utf-8", "surrogatepass")
            mutated = rng.random() < 0.5
            if mutated:
                raw = mutate(rng, raw)
            if isinstance(v, (dict, list)) and not mutated and rng.random() < 0.4:
                raw += rng.choice([b" }", b"garbage", b"\xff\xfe", b"{\"a\":1}", b"\n\n", b"]"])
            if rng.random() < 0.2:
                raw = rng.choice([b"", b" ", b"\n\n\t", b" " * rng.choice([1023, 1024, 4095, 4096, 8191, 20000])]) + raw
            st, val = first_value(raw)
            if b"\0" in raw and st == "E":
                st = "?"     # the JSON library itself lets a NUL byte after a number pass
            lead = raw.lstrip(b" \t\r\n")[:1]
            if lead not in b"{[" or not lead:
                # a scalar at the top level may be followed by anything, which parsers see differently
                t = raw.strip(b" \t\r\n")
                if st == "K":
                    try:
                        DEC.decode(t.decode())
                    except (Bad, ValueError):
                        st = "?"

            def judge(s, parts):
                if st == "?":
                    return None
                if s != st:
                    return f"text {raw[:200]!r} is {'accepted' if s == 'K' else 'taken as empty' if s == 'N' else 'rejected'}, expected {st} ({val if st == 'E' else ''}) {parts[:1]!r}"
                if s == "K":
                    for p in parts:
                        got = DEC.decode(p.decode())
                        if not same(got, val):
                            return f"loading {raw[:300]!r} and storing gives {p[:300]!r}"
                c.count("loads_" + s)
                if mutated:
                    c.count("mutated_texts")
                return None
            return "L", [raw, str(rng.randint(1, 10**6)).encode(), str(rng.choice([1, 2, 3, 7, 64, 1023, 1024, 1025, 5000])).encode()], judge
        if k < 0.65:
            a = jsongen.obj(rng, 4)
            b = jsongen.compatible(rng, a) if rng.random() < 0.75 else jsongen.obj(rng, 4)
            try:
                want = merge(a, b)
            except Bad:
                want = None

            def judge(s, parts):
                if (s == "E") != (want is None):
                    return f"merging {a} and {b}: {s}"
                if not same(json.loads(parts[2]), a) or not same(json.loads(parts[3]), b):
                    return f"merging changes an operand: {a} {b} -> {parts[2]!r} {parts[3]!r}"
                if want is not None:
                    for p in parts[:2]:
                        if not same(json.loads(p), want):
                            return f"merging {a} and {b} gives {p!r}"
                c.count("merges_rejected" if want is None else "merges")
                return None
            return "M", [json.dumps(a).encode(), json.dumps(b).encode()], judge
        if k < 0.72:
            a, b = [value(rng, 2) for _ in range(rng.randint(0, 5))], [value(rng, 2) for _ in range(rng.randint(0, 5))]

            def judge(s, parts):
                for p, w in zip(parts, (a + b, a + b, a, b)):
                    if s != "K" or not same(json.loads(p), w):
                        return f"appending {b} to {a}: {s} {p!r}"
                c.count("array_merges")
                return None
            return "A", [json.dumps(a).encode(), json.dumps(b).encode()], judge
        if k < 0.86:
            a = {q: value(rng, 2) for q in {jsongen.key(rng) for _ in range(6)} if "\0" not in q}
            key = rng.choice(sorted(a) + ["nokey", "a", ""])
            t = rng.choice("sidca")

            def judge(s, parts):
                p = parts[0].decode() if parts else ""
                if key not in a:
                    want = p == "k"
                elif jt(a[key]) != t:
                    want = p == "t"
                elif t == "s":
                    want = p == "v" + a[key]
                else:
                    want = p[:1] == "v" and same(json.loads(p[1:]) if t != "d" else float(p[1:]), a[key])
                if not want or s != "K":
                    return f"getting {key!r} as {t} from {a} gives {s} {p!r}"
                c.count("gets")
                return None
            return "G", [json.dumps(a).encode(), key.encode(), t.encode()], judge
        ops, want, copies, bad = [], {}, {}, ""
        n = rng.randint(0, 12)
        at = rng.randint(0, n)
        for i in range(n):
            if i == at:
                copies = json.loads(json.dumps(want))
            q = jsongen.key(rng)
            v = value(rng, 3)
            t = jt(v)
            if t in "bn" or rng.random() < 0.2:
                t = "j"
            raw = (v if t == "s" else "%.17g" % v if t == "d" else json.dumps(v)).encode()
            if t == "s" and rng.random() < 0.05:
                raw += b"\xff\xfe"
                bad += f"e{i}"
            else:
                want[q] = v
            ops += [q.encode(), t.encode(), raw]
        if at >= n:
            copies = {}

        def judge(s, parts):
            if s != "K" + bad:
                return f"setting {ops} gives {s}, not K{bad}"
            if not same(json.loads(parts[0]), want):
                return f"setting {ops} gives {parts[0]!r}"
            if not same(json.loads(parts[1]), copies):
                return f"a copy taken after {at} of {ops} is {parts[1]!r}"
            c.count("sets", n)
            return None
        return "S", [str(at).encode()] + ops, judge

    def case(i):
        rng = c.rng(i)
        variant = ["plain", "plain", "asan"][i % 3]
        work = [make(rng) for _ in range(250)]
        d = c.dir("k")
        with open(d + "/ops", "wb") as f:
            for op, a, _ in work:
                f.write((op + "".join(f" {len(x)}" for x in a) + "\n").encode())
                for x in a:
                    f.write(x)
        with open(d + "/out", "wb") as of, open(d + "/err", "wb") as ef:
            p = subprocess.Popen([exe[variant], d + "/ops"], stdin=subprocess.DEVNULL, stdout=of, stderr=ef, env=san_env(), start_new_session=True)
            try:
                p.wait(120)
            except subprocess.TimeoutExpired:
                kill_group(p)
                p.wait()
                raise RuntimeError("monitor program does not end")
        out = open(d + "/out", "rb").read()
        err = open(d + "/err", errors="replace").read()
        shutil.rmtree(d)
        v = [ln[2:] for ln in err.split("\n") if ln.startswith("V ")]
        if v:
            c.violation(f"{v[0]} ({variant})", err=tail(err))
        if p.returncode:
            done = out.count(b"\n")
            c.violation(f"monitor ended with status {p.returncode} ({variant}): {tail(err, 600)}", err=tail(err, 6000), ops=[(o, a) for o, a, _ in work])
        pos = 0
        for op, a, judge in work:
            e = out.index(b"\n", pos)
            h = out[pos:e].decode().split(" ")
            pos = e + 1
            parts = []
            for n in map(int, h[1:]):
                parts.append(out[pos:pos + n])
                pos += n
            try:
                w = judge(h[0], parts)
            except (ValueError, IndexError) as x:
                w = f"unusable result {x!r} {parts!r}"
            c.evaluated((op, a), True)
            if w:
                c.violation(f"{w} ({variant})", op=op, payload=[repr(x) for x in a], answer=[h[0]] + [repr(x) for x in parts])
            if len(c.samples) < 4 and rng.random() < 0.05:
                c.samples.append({"op": op, "payload": [repr(x[:100]) for x in a][:4], "answer": h[0]})
        c.count("programs_" + variant)

    c.run_cases(case, range(10**6), min_cases=8, jobs=6)


Check("C20", "random and mutated JSON texts loaded in random chunks and stored both ways, merges of compounds and arrays, typed reads and random sequences of sets with copies taken in between, under ASan/UBSan too, all compared with Python's json module and a model of the "
      "merge; one evaluation is one such operation with all its results compared", quick_s=10).main(body)
