"""Hostile variations of valid inputs (used by C18 and C19)."""
import copy, json, random

CHUNKS = [b"\0", b"\xff", b"\xc3", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"//@", b"#@", b"#include", b'#include "', b"#include <", b'R"(', b')"', b'R"xx(', b"/*", b"*/", b"//", b"\\\n", b"\\", b"'", b'"', b"{", b"}", b"[", b"]", b":", b",",
          b"\r\n", b"\n", b"\t", b" ", b"null", b"true", b"1e999", b"-0", b"99999999999999999999", b"0.1", b'"ref"', b'"name"', b'"targets"', b'"dependencies"', b'"dependencies_extra"', b'"compiler"', b'"recipe"', b'"config"',
          b'"origin"', b'"generated"', b'"project"', b'"rebuild"', b'"always"', b"\\u0000", b"\\ud800", b"\\u00e9", b"%s%n", b"A" * 300, b"(" * 50, b"[" * 100, b'{"a":' * 60, b"..", b"./", b"//", b"*"]


def bytes_mutate(rng, b, n=None):
    b = bytearray(b)
    for _ in range(n or rng.choice([1, 1, 2, 3, 8])):
        k = rng.randint(0, 7)
        i = rng.randint(0, len(b))
        if k == 0 and b:
            b[rng.randrange(len(b))] = rng.randrange(256)
        elif k == 1:
            del b[i:i + rng.choice([1, 1, 2, 10, 100, 5000])]
        elif k == 2:
            b[i:i] = rng.choice(CHUNKS)
        elif k == 3:
            j = rng.randint(0, len(b))
            b[i:i] = b[j:j + rng.choice([1, 5, 30, 200])]
        elif k == 4:
            b = b[:i]
        elif k == 5:
            b[i:i] = rng.choice(CHUNKS) * rng.choice([2, 10, 1000])
        elif k == 6 and b:
            j = rng.randrange(len(b))
            b[j] ^= 1 << rng.randint(0, 7)
        else:
            b[i:i] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 40])))
    return bytes(b)


ODD = [None, True, False, 0, 1, -1, 2**31, 2**63 - 1, -2**63, 0.5, 1e300, "", "x", ".", "..", "./", "a/../b", "x" * 5000, "[", "(", "\\", "*", "^(a*)*$", "\\(\\)", "[[:nothing:]]", "é", "\x01", [], [[]], {}, {"": ""}, [None], [1, "a", {}], {"a": {"b": {}}},
       {"ref": "x"}, {"name": "x"}, [{"name": "x"}, {"name": "x"}], [{"ref": "./x"}] * 3, "generated", "project", "system", "pkg-config", "always", "only_if_out_of_date", "link"]


def deep(n, kind):
    o = 1
    for _ in range(n):
        o = [o] if kind else {"a": o}
    return o


def json_mutate(rng, o, n=None):
    """changes a JSON structure at random places (values, types, keys)"""
    o = copy.deepcopy(o)
    for _ in range(n or rng.choice([1, 1, 2, 4])):
        places = []

        def walk(x):
            if isinstance(x, dict):
                for k in x:
                    places.append((x, k))
                    walk(x[k])
            elif isinstance(x, list):
                for k in range(len(x)):
                    places.append((x, k))
                    walk(x[k])
        walk(o)
        if not places:
            o = {"a": rng.choice(ODD)}
            continue
        x, k = rng.choice(places)
        q = rng.randint(0, 6)
        if q == 0:
            del x[k]
        elif q == 1:
            x[k] = copy.deepcopy(rng.choice(ODD))
        elif q == 2:
            y, j = rng.choice(places)
            try:
                x[k] = copy.deepcopy(y[j])
            except (IndexError, KeyError):
                pass
        elif q == 3 and isinstance(x, dict):
            x[rng.choice(["", "name", "ref", "targets", "target", "dependencies", "dependencies_extra", "compiler", "config", "recipe", "loader", "rebuild", "zz", "é", "k" * 1000])] = copy.deepcopy(rng.choice(ODD + [x[k]]))
        elif q == 4 and isinstance(x, list):
            x.insert(rng.randint(0, len(x)), copy.deepcopy(rng.choice(ODD + [x[k]])))
        elif q == 5 and rng.random() < 0.2:
            x[k] = deep(rng.choice([10, 100, 1000, 2500]), rng.randint(0, 1))
        else:
            x[k] = copy.deepcopy(rng.choice(ODD))
    return o
