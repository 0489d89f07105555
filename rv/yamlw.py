"""YAML texts in the styles people write (not only what a YAML dumper produces)."""

import json

import yaml

PLAIN = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _./-$@+éü日本")


class Writer:
    def __init__(self, r, tabs=0.3):
        self.r = r
        self.nl = r.choice(["\n", "\n", "\n", "\r\n"])
        self.step = r.choice([1, 2, 2, 4, 7])
        self.indentless = r.random() < 0.5
        self.comments = r.random() < 0.4
        self.flow = r.choice([0, 0, 0.2, 0.6])
        self.explicit = r.choice([0, 0, 0.2])
        self.anchors = r.random() < 0.5
        self.spell = r.random() < 0.4
        self.seen = {}
        self.n = 0

    # ------------------------------------------------------------ scalars
    def word(self, x):
        r = self.r
        if x is None:
            return r.choice(["null", "~", "Null", "NULL"]) if self.spell else "null"
        if x is True:
            return r.choice(["true", "True", "TRUE", "yes", "on", "Yes"]) if self.spell else "true"
        if x is False:
            return r.choice(["false", "False", "FALSE", "no", "off", "No"]) if self.spell else "false"
        if isinstance(x, int):
            if self.spell and x > 0:
                return r.choice([str(x), f"+{x}", hex(x), f"0{x:o}", f"{x:_}", f"0b{x:b}", f"!!int '{x}'"])
            return str(x)
        return repr(x) if "e" not in repr(x) else json.dumps(x)

    def double(self, s):
        out = []
        for c in s:
            o = ord(c)
            if c in '"\\':
                out.append("\\" + c)
            elif c == "\t":
                out.append(self.r.choice(["\t", "\\t"]))
            elif c == "/" and self.r.random() < 0.2:
                out.append("\\/" if False else "/")
            elif o < 32 or o in (0x7F, 0x85, 0x2028, 0x2029, 0xFEFF) or self.r.random() < 0.03:
                out.append(f"\\x{o:02x}" if o < 256 else f"\\u{o:04x}" if o < 65536 else f"\\U{o:08x}")
            else:
                out.append(c)
        return '"' + "".join(out) + '"'

    def text(self, s, flow=False, key=False):
        """Candidate spellings of a string, best effort; the caller compares the whole text."""
        r = self.r
        opts = [self.double(s), self.double(s)]
        if all(c == "\t" or 32 <= ord(c) < 127 or 0xA0 <= ord(c) < 0xD800 and ord(c) not in (0x2028, 0x2029) for c in s):
            opts += ["'" + s.replace("'", "''") + "'"] * 2
        if s and set(s) <= PLAIN | {"\t"} and s[0] not in "-./@+ \t0123456789_" and s[-1] not in " \t" and len(s) < 100 and "\t" not in s.replace("\t", "", 0 if key else 99):
            try:
                if yaml.safe_load(s) == s:
                    opts += [s] * 4
            except (yaml.YAMLError, ValueError):
                pass
        return r.choice(opts)

    def block(self, s, ind):
        """Literal block scalar for a text, or None."""
        if not s or len(s) > 4000 or any(ord(c) < 32 and c not in "\n\t" or 0x7F <= ord(c) < 0xA0 or ord(c) in (0x2028, 0x2029, 0xFEFF) or ord(c) >= 0xD800 for c in s) or s[0] in " \n" or not s.strip():
            return None
        body = s.rstrip("\n")
        tail = len(s) - len(body)
        chomp = "-" if tail == 0 else "" if tail == 1 else "+"
        pad = " " * (ind + self.step)
        lines = [(pad + x if x else "") for x in body.split("\n")]
        return f"|{self.step if self.r.random() < 0.2 else ''}{chomp}" + self.nl + self.nl.join(lines) + self.nl + (self.nl * (tail - 1) if tail > 1 else "")

    def note(self):
        return self.r.choice(["  # note", " # é: [", "   #\tx"]) if self.comments and self.r.random() < 0.15 else ""

    # ------------------------------------------------------------ nodes
    def flowed(self, x):
        r = self.r
        if isinstance(x, dict):
            return "{" + r.choice(["", " "]) + ", ".join(f"{self.text(k, True, True)}: {self.flowed(v)}" for k, v in x.items()) + r.choice(["", " ", "," if x else ""]) + "}"
        if isinstance(x, list):
            return "[" + r.choice(["", " "]) + ", ".join(self.flowed(v) for v in x) + r.choice(["", " ", "," if x else ""]) + "]"
        if isinstance(x, str):
            return self.double(x)
        return self.word(x)

    def node(self, x, ind, inline):
        """Text of a node: begins on the current line (after 'key:' or '-'), ends with a line break."""
        r = self.r
        pre = ""
        if isinstance(x, (dict, list)) and x and self.anchors:
            k = json.dumps(x)
            if k in self.seen and r.random() < 0.7:
                return f" *{self.seen[k]}{self.nl}"
            if k not in self.seen and len(k) < 300 and r.random() < 0.4:
                self.n += 1
                self.seen[k] = f"a{self.n}"
                pre = f" &a{self.n}"
        if isinstance(x, (dict, list)) and (not x or r.random() < self.flow):
            return f"{pre} {self.flowed(x)}{self.note()}{self.nl}"
        if isinstance(x, dict):
            return pre + self.note() + self.nl + self.mapping(x, ind + self.step)
        if isinstance(x, list):
            return pre + self.note() + self.nl + self.sequence(x, ind if self.indentless and inline == "map" else ind + self.step)
        if isinstance(x, str):
            b = self.block(x, ind) if r.random() < 0.5 else None
            if b:
                return " " + b
            return f"{r.choice([" ", " ", "  "]) if inline == "map" else " "}{self.text(x)}{self.note()}{self.nl}"
        return f" {self.word(x)}{self.note()}{self.nl}"

    def mapping(self, x, ind):
        out = []
        pad = " " * ind
        for k, v in x.items():
            if self.comments and self.r.random() < 0.1:
                out.append(self.r.choice(["# comment", pad + "#", "", "#\tx"]) + self.nl)
            if self.r.random() < self.explicit:
                out.append(f"{pad}? {self.text(k, key=True)}{self.nl}{pad}:{self.node(v, ind, 'exp')}")
            else:
                out.append(f"{pad}{self.text(k, key=True)}{self.r.choice(['', '', '', ' '])}:{self.node(v, ind, 'map')}")
        return "".join(out)

    def sequence(self, x, ind):
        return "".join(" " * ind + "-" + self.node(v, ind, "seq") for v in x)

    def document(self, x):
        r = self.r
        head = r.choice(["", "", "", "---\n", "# head\n---\n", "%YAML 1.1\n---\n", "\ufeff", "--- # x\n", "\n\n", "%TAG !e! tag:e.org,2000:\n---\n"]).replace("\n", self.nl)
        body = self.mapping(x, 0) if r.random() < 0.9 else self.flowed(x) + self.nl
        foot = r.choice(["", "", "", "...\n", "# end", "\n\n", "...\n# after\n"]).replace("\n", self.nl)
        return head + body + foot


def same(y, x):
    try:
        got = yaml.safe_load(y)
    except (yaml.YAMLError, ValueError, AttributeError, TypeError, RecursionError):
        return False
    from rv.spec import deep_eq

    return deep_eq(got, x)


def texts(r, x, n=2):
    """Hand-written YAML texts whose content is x (checked against the YAML reader)."""
    for _ in range(4):
        y = Writer(r).document(x)
        if same(y, x):
            yield y
            n -= 1
            if n == 0:
                return


def encodings(r, y):
    """(label, bytes) of the same text."""
    out = [("utf-8", y.encode("utf-8"))]
    if not y.startswith("\ufeff"):
        out += [("utf-8-sig", y.encode("utf-8-sig")), ("utf-16-le", b"\xff\xfe" + y.encode("utf-16-le")), ("utf-16-be", b"\xfe\xff" + y.encode("utf-16-be"))]
    return out
