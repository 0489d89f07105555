"""A dictionary for the generators: the literals of the code under test, as coverage fuzzers take tokens from a binary.

Only inputs depend on it, never a verdict.  Literals the pinned tree does not have (words_base.json) come first: a change that
makes some word, pattern or size special is then met with that word, with strings of that pattern and with sizes around it.
"""

import ast
import json
import os
import random
import re
import re._parser as sre

HERE = os.path.dirname(os.path.abspath(__file__))


def literals(repo):
    """(strings, integers) of the package's code, documentation and descriptions left out."""
    words, nums = set(), set()
    for base, dirs, files in os.walk(os.path.join(repo, "asyncapi3")):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(base, f), encoding="utf-8").read())
            except (SyntaxError, ValueError, OSError):
                continue
            skip = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.keyword) and n.arg in ("description", "title"):
                    skip.update(id(x) for x in ast.walk(n.value))
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    skip.add(id(n.value))
                if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 60:
                    skip.update(id(x) for x in n.elts)
            for n in ast.walk(tree):
                if not isinstance(n, ast.Constant) or id(n) in skip:
                    continue
                v = n.value
                if isinstance(v, bytes):
                    v = v.decode("latin-1")
                if isinstance(v, str) and 0 < len(v) <= 80 and v.count(" ") <= 3 and not any(0xD800 <= ord(c) < 0xE000 for c in v):
                    words.add(v)
                elif isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) < 10**15 and int(v) == v:
                    nums.add(int(v))
    return words, nums


def base():
    if os.environ.get("VERIF_WORDS") == "all":  # treat every literal as new, to try the generators out
        return set(), set()
    try:
        d = json.load(open(os.path.join(HERE, "words_base.json"), encoding="utf-8"))
        return set(d["words"]), set(d["nums"])
    except OSError:
        return set(), set()


def from_pattern(p, r, n=10):
    """Some strings a regular expression matches (roughly: assertions are ignored)."""
    def walk(seq):
        out = []
        for op, a in seq:
            op = str(op)
            if op == "LITERAL":
                out.append(chr(a))
            elif op == "NOT_LITERAL":
                out.append(r.choice([c for c in "aZ0-_. " if ord(c) != a]))
            elif op == "ANY":
                out.append(r.choice("aZ0-_. /"))
            elif op == "IN":
                out.append(pick(a))
            elif op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                lo, hi, sub = a
                for _ in range(r.choice([lo, min(int(hi), lo + 1), min(int(hi), lo + 3)])):
                    out.append(walk(sub))
            elif op == "SUBPATTERN":
                out.append(walk(a[3]))
            elif op == "ATOMIC_GROUP":
                out.append(walk(a))
            elif op == "BRANCH":
                out.append(walk(r.choice(a[1])))
            elif op == "CATEGORY":
                out.append(pick([(op, a)]))
        return "".join(out)

    def pick(items):
        neg = any(str(o) == "NEGATE" for o, _ in items)
        ok = []
        for c in map(chr, [*range(32, 127), 9, 10, 0xE9, 0x660]):
            hit = False
            for o, a in items:
                o = str(o)
                if o == "LITERAL":
                    hit |= ord(c) == a
                elif o == "RANGE":
                    hit |= a[0] <= ord(c) <= a[1]
                elif o == "CATEGORY":
                    k = str(a)
                    t = c.isdigit() if "DIGIT" in k else (c.isalnum() or c == "_") if "WORD" in k else c.isspace()
                    hit |= t != ("NOT" in k)
            if hit != neg:
                ok.append(c)
        return r.choice(ok) if ok else "a"

    try:
        tree = sre.parse(p)
        return [s for s in {walk(tree) for _ in range(n)} if s and len(s) < 300]
    except Exception:  # noqa: BLE001 - not a pattern
        return []


def collect(repo):
    words, nums = literals(repo)
    w0, n0 = base()
    r = random.Random(7)

    def spread(ws, n):
        ws = sorted(ws)
        out = list(ws)
        for w in ws:
            if re.search(r"[\[\]^$*+\\|()?]", w) and len(w) > 2:
                out += from_pattern(w, r, n)
            out += [x for x in re.split(r"[{}%\s]+", w) if 1 < len(x) < len(w)] if n > 4 else []
        return list(dict.fromkeys(out))

    new = spread(words - w0, 12)
    r.shuffle(new)
    new_n = sorted(nums - n0)
    r.shuffle(new_n)
    return new[:400], spread(words & w0, 2), new_n[:60]


NEW, OLD, NUMS = collect(os.environ.get("VERIF_REPO", "/repo"))
SIZES = [n + d for n in NUMS if 2 <= n <= 4096 for d in (0, 1, -1)]


def variant(r, w):
    """A word in some company."""
    x = r.randrange(16)
    if x < 6:
        return w
    if x < 9:
        return w + r.choice(["a", "x1", " b", "-", "/", "_a", ".b", "0", "A", "2"])
    if x < 12:
        return r.choice(["a", "x", "b ", "-", "/", "#/", "my-", "0", "A", "#/components/", "https://example.com/"]) + w
    return r.choice([w.upper(), w.lower(), w.capitalize(), w + w, w[:-1], w[1:], "a" + w + "b", w.swapcase(), " " + w, w + " ", w.strip("#/.-_ "), w * 3]) or w


def word(r):
    """A string of the dictionary, new ones far more often; None when it has nothing to offer now."""
    if NEW and r.random() < 0.12:
        return variant(r, r.choice(NEW))
    if OLD and r.random() < 0.015:
        return variant(r, r.choice(OLD))
    return None


def name(r):
    """The same, cut down to the characters of map names."""
    w = word(r)
    return re.sub(r"[^A-Za-z0-9_-]", "", w) if w else None


def huge(r):
    """A large size, around a large new number of the code when there is one."""
    big = [n for n in NUMS if 4096 < n <= 300_000]
    return r.choice(big) + r.choice([0, 1, -1]) if big and r.random() < 0.8 else r.choice([5000, 20_000, 66_000])


def size(r, hi, p=0.01):
    """A size around a new number of the code, at most hi; None when there is none."""
    if SIZES and r.random() < p:
        ok = [n for n in SIZES if n <= hi]
        if ok:
            return r.choice(ok)
    return None
