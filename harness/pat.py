"""Random POSIX extended regular expressions over a small alphabet, with samples.
Only constructs whose language is the same in POSIX ERE and in Python's re are used."""
import ctypes, functools, re

SPECIAL = set(".[]{}()\\*+?^$|")


class Node:
    def __init__(self, k, *a):
        self.k, self.a = k, a


def gen(r, alpha, depth=2, dots=True):
    k = r.choice(["lit", "lit", "lit", "cls", "dot" if dots else "cls", "cat", "cat", "alt", "star", "plus", "opt", "rep"]) if depth else \
        r.choice(["lit", "lit", "cls", "dot" if dots else "lit"])
    if k == "lit":
        return Node("lit", "".join(r.choice(alpha) for _ in range(r.randint(1, 5))))
    if k == "cls":
        return Node("cls", "".join(sorted(set(r.choice([c for c in alpha if c not in "]^-\\[;"] or "abc") for _ in range(r.randint(1, 4))))), r.random() < 0.2)
    if k == "dot":
        return Node("dot")
    if k == "cat":
        return Node("cat", [gen(r, alpha, depth - 1, dots) for _ in range(r.randint(2, 3))])
    if k == "alt":
        return Node("alt", [gen(r, alpha, depth - 1, dots) for _ in range(r.randint(2, 3))])
    n = gen(r, alpha, depth - 1, dots)
    if k == "rep":
        m = r.randint(0, 2)
        return Node("rep", n, m, m + r.randint(0, 2) or 1)
    return Node(k, n)


def atom(n):
    s = text(n, False)
    if n.k in ("cls", "dot") or (n.k == "lit" and len(n.a[0]) == 1):
        return s
    return "(" + s + ")" if not (s.startswith("(") and n.k == "alt") else s


def text(n, top=True):
    if n.k == "lit":
        return "".join("\\" + c if c in SPECIAL else c for c in n.a[0])
    if n.k == "cls":
        return "[" + ("^;" if n.a[1] else "") + n.a[0] + "]"
    if n.k == "dot":
        return "."
    if n.k == "cat":
        return "".join(text(x, False) for x in n.a[0])
    if n.k == "alt":
        s = "|".join(text(x, False) for x in n.a[0])
        return s if top else "(" + s + ")"
    if n.k == "rep":
        return atom(n.a[0]) + "{%d,%d}" % n.a[1:]
    return atom(n.a[0]) + {"star": "*", "plus": "+", "opt": "?"}[n.k]


def sample(r, n, alpha):
    if n.k == "lit":
        return n.a[0]
    if n.k == "cls":
        if n.a[1]:
            ok = [c for c in alpha if c not in n.a[0] and c != ";"]
            return r.choice(ok or ["~"])
        return r.choice(n.a[0])
    if n.k == "dot":
        return r.choice(alpha)
    if n.k == "cat":
        return "".join(sample(r, x, alpha) for x in n.a[0])
    if n.k == "alt":
        return sample(r, r.choice(n.a[0]), alpha)
    lo, hi = {"star": (0, 3), "plus": (1, 3), "opt": (0, 1)}.get(n.k) or n.a[1:]
    return "".join(sample(r, n.a[0], alpha) for _ in range(r.randint(lo, hi)))


def branches(n):
    """Texts of the top-level alternatives."""
    return n.a[0] if n.k == "alt" else [n]


_libc = ctypes.CDLL(None)
_libc.regcomp.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int]
_libc.regexec.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_void_p, ctypes.c_int]


@functools.lru_cache(4096)
def _compiled(pattern):
    b = ctypes.create_string_buffer(256)        # a regex_t
    if _libc.regcomp(b, ("^(" + pattern + ")$").encode(), 1 | 8):     # REG_EXTENDED | REG_NOSUB
        raise ValueError(pattern)
    return b


def full(pattern, s):
    """Does the pattern match all of s?  (The C library's answer: Python's takes forever for some patterns.)"""
    return _libc.regexec(_compiled(pattern), s.encode(), 0, None, 0) == 0
