"""Random JSON values."""
CHARS = ["a", "b", "Z", "0", " ", "'", '"', "\\", "$", "`", "\n", "\t", "é", "→", "😀", "/", "{", "}", "[", "]", ",", ":", "#", "!", "%", "*", "\u007f", "\u0001", ";", "&", "|", "<", ">", "~", "="]


def text(rng, n=None):
    n = rng.choice([0, 1, 2, 5, 9, 20]) if n is None else n
    return "".join(rng.choice(CHARS) for _ in range(n))


def key(rng):
    return rng.choice(["a", "b", "c", "list", "opt", "x y", "é", "q'", "k\\"]) if rng.random() < 0.7 else text(rng, rng.randint(1, 6))


def value(rng, depth=3):
    k = rng.random()
    if depth and k < 0.2:
        return {key(rng): value(rng, depth - 1) for _ in range(rng.randint(0, 4))}
    if depth and k < 0.4:
        return [value(rng, depth - 1) for _ in range(rng.randint(0, 4))]
    if k < 0.7:
        return text(rng)
    if k < 0.85:
        return rng.choice([0, 1, -1, 2**31, -2**31, 2**53, 2**63 - 1, -2**63, rng.randint(-1000, 1000)])
    return rng.choice([True, False, None, 0.5, -2.25, 1e10, 0.1 + 0.2, 1 / 3, -1e-7 / 3, 1.7976931348623157e308, 2.2250738585072014e-308, rng.gauss(0, 1e6)])


def obj(rng, depth=3, n=None):
    return {key(rng): value(rng, depth - 1) for _ in range(rng.randint(0, 5) if n is None else n)}


def kind(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    return type(v).__name__


def compatible(rng, a, depth=3):
    """an object that can be merged onto a: the same type wherever both have a key"""
    out = {}
    for k, v in a.items():
        if rng.random() < 0.5:
            if isinstance(v, dict):
                out[k] = compatible(rng, v, depth - 1)
            elif isinstance(v, list):
                out[k] = [value(rng, 1) for _ in range(rng.randint(0, 3))]
            elif isinstance(v, bool):
                out[k] = rng.random() < 0.5
            elif v is None:
                out[k] = v
            elif isinstance(v, int):
                out[k] = rng.randint(-99, 99)
            elif isinstance(v, float):
                out[k] = rng.choice([1.5, -0.25, 2 / 3])
            else:
                out[k] = text(rng)
    for _ in range(rng.randint(0, 3)):
        k = key(rng)
        if k not in a:
            out[k] = value(rng, max(0, depth - 1))
    return out
