"""Hostile but conforming document generator, driven by the catalog, plus mutators."""

from rv import words
from rv.spec import BAD_URLS, CATALOG, KEY_OK, URLS, ADDRESS_EXPR, canon_url

WORDS = ["user", "signup", "event", "order", "light", "turnOn", "id", "x", "A", "kafka", "prod", "v1", "main", "topic"]
HOSTILE_KEYS = [
    "root", "channel", "channels", "messages", "message", "reply", "servers", "tags", "security", "bindings",
    "traits", "headers", "payload", "operations", "parameters", "correlation_id", "correlationId", "external_docs",
    "externalDocs", "components", "schemas", "info", "ref", "spec", "address", "variables", "replies", "items",
    "keys", "values", "get", "pop", "model_dump", "model_fields", "__class__", "__dict__", "_", "-", "0", "1", "00",
    "a-b", "a_b", "A", "a", "None", "null", "true", "x-ext", "x-", "server_bindings", "kafka", "http", "key", "query",
    "copy", "json", "dict", "schema", "operation_traits", "messageTraits", "securitySchemes", "channel_bindings",
    "reply_addresses", "self", "cls", "ROOT", "Root", "client_id", "group_id",
]
STRINGS = [
    "", " ", "a", "0", "1", "true", "false", "null", "None", "yes", "no", "~", "  padded  ", "line1\nline2", "tab\there",
    "üñïçødé", "日本語", "🙂🚀", "quote\"'`", "back\\slash", "{param}", "{", "}", "{}", "$message.header#/a", "#/components/tags/a",
    "https://example.com", "a/b/c", "a.b.c", "%20", "1e5", "2020-01-01", "12:30:00", "0x1F", "1_000", "-", "--- |", "# c",
    "*", "&anchor", "!tag", "[1,2]", "{\"a\":1}", "x" * 64, "é" * 300, "\u200b", "\u2028", "a\u0000b", "NaN", ".inf", "\ufeffbom", "A" * 2000,
    "$ref", "ref", "x-y", "trailing\n", "\n", "\r\n",
]
# Texts that some careless normalisation, template, parser or length limit would treat specially.
TEXTS = STRINGS + [
    "e\u0301", "A\u030a", "\u1e9b\u0323", "\ufb01", "\u2167", "\u212a", "\u017f", "\u0130", "\u00df", "\u00c5", "\u212b", "\uff21\uff11", "\u0661", "\u00b2", "\u00bd", "\u3000a\u3000",
    "\u00a0a\u00a0", "a\u00adb", "a\u200db", "\u202eabc", "\u2060", "\x85", "a\rb", "a\r\nb\r\n", "\r", "\v\f", "\x7f", "\x1b[0m", "\x00", "a\x00", "\u2029", "\ue000", "\uffff",
    "\U0010ffff", "\U0001f468\u200d\U0001f469", "%2F", "a%2Fb", "%2f%7E", "%", "%%", "%s", "%d", "%(a)s", "{0}", "{name}", "{{x}}", "{}{}", "${x}", "$x", "$(x)", "<%= x %>", "&amp;", "&lt;b&gt;",
    "<b>x</b>", "<!-- -->", "]]>", "\\n", "\\u0041", "\\", "\\\\", "\\/", "~0~1", "a~1b", "~", "..", "../x", "./x", "/", "//", "///", "a//b", "a/", "#", "##", "?", "?a=b", "a#b?c", "C:\\x", "\\\\srv\\x",
    "+1", "-1", "-0", "1.0", "1.", ".5", "0.10", "1e400", "1E5", "Infinity", "-inf", "nan", "0b1", "0o7", "007", "1,5", "1 000", "10 %", "9" * 40, "0.1" + "0" * 30, "12:30", "1:2:3", "2020-01-01T00:00:00Z", "20200101",
    "P1D", "on", "off", "y", "n", "Y", "N", "t", "f", "TRUE", "False", "NULL", "nil", "undefined", "=", "<<", "- a", "a: b", "a:b", "a #b", "a,b", "a;b", "a|b", "'", "''", "it's", '"', '""', "|", ">", "|-\n a", "@x",
    "`x`", "%YAML 1.1", "...", "? x", ": x", "!!int 3", "!!python/none", "*a", "&a b", "[", "]", "{a", "a}", "()", "(a|b)+", "^$", ".*", "\\d+", "[a-z]", "a*b", "**", "a.b", ".a", "a.", "a..b", "a-b", "_a", "__a__",
    "A", "aA", "ABC", "camelCase", "snake_case", "Title Case", "kebab-case", "a b", "a  b", " a", "a ", "\ta", "\na", "a\n", "a\n\n", "a\n b", "AsyncAPI", "none", "default", "x-a", "x-", "X-A", "root", "info", "self",
    "http://x", "HTTP://X", "https://EXAMPLE.com:443/%7ea", "mailto:a@b.cc", "A@B.CC", "urn:x", "data:,x", "javascript:x", "a@b", "application/JSON", "text/plain;q=1", "b" * 63, "b" * 65, "b" * 128, "b" * 129, "b" * 255,
    "b" * 256, "b" * 257, "b" * 513, "b" * 1025, "b" * 4097, "b" * 10001, "b" * 66000, "ab " * 400, "\u00e9" * 130, "\U0001f642" * 70, "\n" * 300, "a,b," * 100, "a.b." * 100, "a/b/" * 100, "{a}" * 100,
]
# Marks that preprocessors of JSON, YAML, JSON5 or templates pair up or cut at.
TEXTS += ["a/*/b/*.json and c/*/d", "a /* b */ c", "/* x */", "// c", "a // b", "<!-- c --> d", "a -- b", "a\n# b\nc", "a\n---\nb", "---", "--- a\n", "a\n...\nb", "---\na: b\n---\n", ",]", ",}", "[1,]", "{\"a\":1,}", "a,\n}", "{{ a }} and {{ b }}",
          "{% a %}b{% c %}", "${a:-b}", "$(a) $(b)", "%A% %B%", "!include a.yaml", "!!binary YQ==", "&a *a", "<<: *a", "{a: *b}", "'" * 3 + " a " + "'" * 3, '"' * 3 + " a " + '"' * 3, "'a' and 'b'", "`a` and `b`", "|\n a\n b", ">-\n a", "\\u0041\\n", "a\\\nb",
          "NaN, Infinity", "undefined, null", "__proto__", "constructor", "\ufffe", "REM a", ";a", "a;b;", "(a, b)", "<a href='#/b'>", "[a](#/b)", "**a**", "_a_ *b*", "a\tb\tc", "  a\n  b", "a:\n  b", "- a\n- b", "key: value", "a = b", "@a@", "#{a}", "#[a]", "~a~"]
TEXTS = list(dict.fromkeys(TEXTS))
SHORT_TEXTS = [s for s in TEXTS if len(s) < 80]


# What the ways of building messages, patterns and replacements give a meaning.
FORMATS = ["{}", "{0}", "{1}", "{a}", "{0.x}", "{0[a]}", "{!r}", "{:d}", "{", "}", "}{", "{{", "{{}}", "{a:{b}}", "%", "%s", "%d", "%i %s", "%(a)s", "%(a)", "%5", "%c", "%*d", "%%", "100%", "%n", "$", "$a", "${a}", "$$", "$1", "\\1", "\\g<0>", "\\g<a>", "\\", "\\x", "\\u",
           "[", "(", ")", "*", "+", "?", "(?", "(?P<a>", "[a", "a{2", "{5}", "{1,2}", "^", "|", ".", "<a>", "&a;", "'", '"', "%{a}", "#{a}", "<%a%>", "{{a}}", "{%a%}"]


def formatted(r):
    """A text one of whose parts a careless formatting would take for a placeholder."""
    return r.choice(["", "", "", "a", "a-", "x.", "/", "user "]) + r.choice(FORMATS) + r.choice(["", "", "", "b", "/b", " ", r.choice(FORMATS)])


def pathy(r):
    """Free member names made of the characters that paths, patterns and templates are made of."""
    if r.random() < 0.15:
        return formatted(r)
    if r.random() < 0.3:
        return r.choice(TEXTS)[:300]
    return "".join(r.choice([".", ".", "\\", "\\", "'", '"', "*", "**", "[0]", "[", "]", "/", "#", "~", "{}", "{a}", "%s", "a", "b", "root", "tags", "security", "traits", ":", "|", "$", "-", " "]) for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5, 8])))


def new_sizes(rng, hi):
    """One size around a number that is new in the code under test, if there is one."""
    n = words.size(rng, hi, 0.7)
    return [] if n is None else [n]


def big_values(rng, t, deep=True):
    """Large values of a type (verdict left to the oracle)."""
    k = t[0]
    if k == "list":
        out = []
        for n in (rng.choice([21, 33, 51]), rng.choice([65, 101, 129]), rng.choice([257, 300]), *new_sizes(rng, 700)):
            if t[1] == ["str"]:
                out.append([f"v{i}" for i in range(n)])
            else:
                g = Gen(rng, p=0.05, depth=2)
                out.append([g.gen(t[1]) for _ in range(n)])
        return out
    if k == "map":
        out = []
        for n in (rng.choice([21, 33, 51]), rng.choice([65, 101, 129]), 257, *new_sizes(rng, 700)):
            g = Gen(rng, p=0.05, depth=2)
            out.append({f"k{i}": g.gen(t[1]) for i in range(n)})
        return out
    if k == "str":
        return ["s" * rng.choice([300, 1100, 5000, 70000]), "two words " * rng.choice([30, 110, 7000]), *("n" * n for n in new_sizes(rng, 5000))]
    if k == "any" and deep:
        out = [list(range(rng.choice([70, 300]))), {f"k{i}": i for i in range(rng.choice([70, 300]))}, "s" * 5000]
        for n in (rng.choice([11, 17, 21]), rng.choice([33, 40, 51]), rng.choice([65, 101, 120]), *new_sizes(rng, 150)):
            v = rng.choice([1, "x", {}, []])
            for i in range(n):
                v = [v] if rng.random() < 0.5 else {f"a{i}": v}
            out.append(v)
        return out
    if k == "union":
        return [x for a in t[1:] for x in big_values(rng, a, deep)]
    if k == "obj" and CATALOG[t[1]]["kind"] == "patterned":
        return big_values(rng, ["map", CATALOG[t[1]]["item"]])
    return []


POPULAR_EXT = ["x-authtype", "x-internal", "x-nullable", "x-deprecated", "x-version", "x-name", "x-order", "x-examples", "x-enum-varnames", "x-parser-schema-id", "x-parser-message-name",
               "x-parser-spec-parsed", "x-parser-circular", "x-amazon-apigateway-authtype", "x-twitter", "x-linkedin", "x-google-audiences", "x-in", "x-type", "x-flows", "x-scheme", "x-title", "x-optional",
               "x-skip", "x-ignore", "x-unsafe", "x-experimental", "x-private", "x-hidden", "x-id", "x-key", "x-tags", "x-lax", "x-strict", "x-novalidate", "x-security", "x-oauth", "x-custom", "x-auth", "x-default",
               "x-format", "x-unit", "x-go-type", "x-java-type", "x-extends", "x-origin", "x-source", "x-mock", "x-common", "x-anchors", "x-templates", "x-definitions", "x-aliases", "x-shared", "x-defaults", "x-components", "x-vars", "x-include", "x-ref", "x-refs", "x-draft", "x-beta", "x-alias", "x-codegen", "x-amqp", "x-kafka", "x-properties", "x-binding", "x-bindings"]
EXT_NAMES = ["x-a", "x-vendor", "x-a.b", "x-A_b-c", "x-1", "x--", "x-_", "x-.", "x-" + "n" * 120, "x-ref", "x-x-x", "x-root", "x-in", "x-9.9"]
# Values that go together: whoever sorts, deduplicates or normalises a list or a map shows on these.
FAMILIES = [["10", "9", "1", "2", "02"], ["b", "a", "B", "A"], ["true", "false", "null"], ["", "a", "a ", " a"], ["3.10.0", "3.9.0", "3.1.0"], ["2020-01-02", "2020-01-01"],
            ["z", "y", "x"], ["a", "a", "b"], ["low", "medium", "high"], ["1.5", "1.50", "15e-1"], ["https://b.example/", "https://a.example", "https://b.example"], ["\u00e9", "e\u0301", "e"],
            ["-1", "1", "0", "+1"], ["a", "a.b", "a.b.c"], ["read:a", "write:a", "read:a"], ["9", "10", "11"], ["1", "2", "3"], ["a1", "a10", "a2"]]
KEY_FAMILIES = [["10", "9", "1", "2", "02"], ["b", "a", "B", "A"], ["a", "a_", "_a", "-a", "a-"], ["z", "y", "x"], ["a-b", "a_b", "ab"], ["1", "01", "001"], ["a1", "a10", "a2"], ["true", "false", "null"]]
CONTENT_TYPES = ["application/json", "application/vnd.aai.asyncapi;version=3.0.0", "text/plain; charset=utf-8", "a"]


NUMBERS = [-0.0, 0.0, 1.0, -1.0, 10.0, 0.1, 1.1, 2.675, 1e16, 1e15, 123456789012345.6, 1e-7, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 4503599627370497.5, 2**53 + 1, -(2**63) - 1, 2**64, 10**30, 1e22]


def made_url(r, plain=False):
    """An http or https address put together from parts, inside the oracle of spec.canon_url."""
    c = r.choice
    label = lambda: c(["a", "b1", "example", "x-y", "api", "www", "localhost", "test", "n0", "q" * 60])  # noqa: E731
    host = ".".join(label() for _ in range(c([0, 1, 1, 2, 4]))) 
    host = host + "." + c(["com", "org", "io", "museum", "local", "internal", "test"]) if host else "localhost"
    user = c(["", "", "", "u@", "user:pw@", "0:0@"])
    port = c(["", "", ":80", ":443", ":8080", ":8443", ":1", ":21", ":22", ":5672", ":9092", ":65535", f":{r.randrange(1, 65536)}"])
    path = c(["", "/", "/", "".join("/" + c(["a", "b.c", "v1", "A_b", "~x", "docs", "index.html", "0", "-", "x" * 40]) for _ in range(c([1, 1, 2, 5]))) + c(["", "/"])])
    query = c(["", "", "", "?", "?a=1", "?a=1&b=2", "?a=&b", "?x.y=z_-", "?" + "k=v&" * 20])
    frag = c(["", "", "", "#", "#a", "#top", "#A-b_c.d"])
    return c(["http", "https", "https"]) + "://" + user + host + port + path + query + frag


class Gen:
    def __init__(self, rng, p=0.4, depth=7, ref=None, nulls=False, urls="all", any_depth=2, key_pool=None, free_refs=True):
        self.r = rng
        self.p = p
        self.depth = depth
        self.ref = ref or self.default_ref
        self.nulls = nulls
        self.urls = sorted(URLS) if urls == "all" else [u for u in sorted(URLS) if URLS[u][0] == u]
        self.any_depth = any_depth
        self.key_pool = key_pool
        self.free_refs = free_refs
        self.path = []
        self.said = []
        self.made = {} if ref is None else None
        self.one, self.same = None, 0.04
        if ref is None and rng.random() < 0.04:
            self.uniform()

    def uniform(self):
        """Make nearly all texts, keys and parts of this value equal."""
        self.one, self.same = self.r.choice(LITERALS) if self.r.random() < 0.4 else self.r.choice([*RELATIVES, *SCHEMES]) if self.r.random() < 0.3 else self.r.choice(["a", "x", "", "0", "Name", "user", "type", "a b", "\u00e9", "$ref", "https://example.com/", "null", *WORDS[:20]]), 0.4
        return self

    # ------------------------------------------------ scalars
    def string(self, mx=None):
        """A string; now and then one already used elsewhere in this value."""
        r = self.r
        if self.one is not None and r.random() < 0.95:
            if mx is None or len(self.one) <= mx:
                return self.one
        if self.said and r.random() < 0.06:
            s = r.choice(self.said)
            if mx is None or len(s) <= mx:
                return s
        s = words.word(r)
        if s is None or (mx is not None and len(s) > mx):
            n = words.size(r, mx or 5000)
            s = r.choice(["a", "b", "\u00e9", "a b "]) * n if n else self._string(mx)
            s = s if mx is None else s[:mx]
        self.said.append(s)
        return s

    def _string(self, mx=None):
        r = self.r
        if mx is not None and r.random() < 0.25:
            n = r.choice([mx, mx, mx - 1, 0, 1])
            return r.choice(["a", "é", "🙂", " "]) * n
        x = r.random()
        if x < 0.02:
            s = r.choice(LITERALS) if r.random() < 0.6 else r.choice(MEMBERS)
        elif x < 0.45:
            s = r.choice(WORDS) + (str(r.randrange(100)) if r.random() < 0.3 else "")
        elif x < 0.8:
            s = r.choice(STRINGS)
        elif x < 0.97:
            s = r.choice(SHORT_TEXTS)
        else:
            s = "".join(chr(r.choice([r.randrange(32, 127), r.randrange(160, 0x2FF), r.randrange(0x4E00, 0x4F00)])) for _ in range(r.randrange(0, 40)))
        if mx is not None:
            s = s[:mx]
        return s

    def key(self):
        r = self.r
        if self.key_pool:
            return r.choice(self.key_pool)
        if self.one and r.random() < 0.5 and KEY_OK.fullmatch(self.one):
            return self.one
        k = words.name(r)
        if k:
            return k
        n = words.size(r, 3000)
        if n:
            return "k" * n
        if self.said and r.random() < 0.04:  # a value met before, or a key of another map
            k = r.choice(self.said)
            if len(k) < 300 and KEY_OK.fullmatch(k):
                return k
        k = self._key()
        self.said.append(k)
        return k

    def _key(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return r.choice(HOSTILE_KEYS)
        if x < 0.43:
            return "k" * r.choice([64, 200, 255, 256, 300])
        if x < 0.55:
            return "".join(r.choice("abcXYZ019_-") for _ in range(r.randrange(1, 12)))
        return r.choice(WORDS) + str(r.randrange(50))

    def any_key(self):
        x = self.r.random()
        if self.said and x < 0.02:
            return self.r.choice(self.said)
        x = self.r.random()
        k = words.word(self.r)
        if k is not None:
            return k
        return self.key() if x < 0.65 else self.r.choice(STRINGS) if x < 0.85 else pathy(self.r)

    def integer(self, lo=None, hi=None):
        r = self.r
        if words.NUMS and r.random() < 0.15:
            n = r.choice(words.NUMS) + r.choice([0, 0, 1, -1])
            if (lo is None or n >= lo) and (hi is None or n <= hi):
                return n
        if lo is None and hi is None:
            return r.choice([0, 1, -1, 2, 7, 255, 256, 65535, 2**31 - 1, 2**31, -(2**31), 2**53, 2**53 + 1, 2**63 - 1, 2**64, 10**18, 604800000, r.randrange(-1000, 1000)])
        if hi is None:
            return r.choice([lo, lo, lo + 1, 2, 10, 2**31, 2**53 + 1, r.randrange(lo, lo + 5000)])
        return r.choice([lo, lo, hi, hi, lo + 1, hi - 1, r.randrange(lo, hi + 1)])

    def any(self, d=None):
        r = self.r
        d = self.any_depth if d is None else d
        x = r.random()
        if d <= 0 or x < 0.6:
            return r.choice([None, True, False, 0, 1, -5, 3.25, -0.5, 1e100, 2**60, r.choice(NUMBERS), "", "s", self.string(), self.string(), [], {}])
        if x < 0.75:
            return [self.any(d - 1) for _ in range(r.randrange(0, 4))]
        if x < 0.79:
            return {"$ref": self.string()}
        return {self.any_key(): self.any(d - 1) for _ in range(r.randrange(0, 4))}

    def nonnull_any(self):
        while True:
            v = self.any()
            if v is not None:
                return v

    def url(self, kind):
        w = words.word(self.r)
        if w:
            w = "".join(c for c in w if c.isascii() and (c.isalnum() or c in "-_"))
            if w:
                return f"https://example.org/{w}?{w}=1#{w}"
        if self.r.random() < 0.25:
            u = made_url(self.r)
            if len(self.urls) == len(URLS) or canon_url(kind, u).canon == u:
                return u
        while True:
            u = self.r.choice(self.urls)
            if kind == "any" or URLS[u][1] == "http":
                return u

    def email(self):
        w = words.name(self.r)
        if w:
            return f"{w}@example.org"
        return self.r.choice(["a@b.cc", "first.last+tag@sub.example.co.uk", "x_%+-.y@ex-ample.org", "A9@9.aa", "u@" + "d" * 60 + ".museum"])

    def ext_name(self):
        r = self.r
        w = words.word(r)
        if w:
            w = "".join(c for c in w if c.isascii() and (c.isalnum() or c in "-_."))
            if w:
                return w if w[:2] == "x-" and len(w) > 2 else "x-" + w
        return r.choice(EXT_NAMES) if r.random() < 0.5 else r.choice(POPULAR_EXT) if r.random() < 0.5 else "x-" + "".join(r.choice("abcZ09._-") for _ in range(r.randrange(1, 10)))

    def version(self):
        r = self.r
        w = words.word(r)
        if w:
            w = "".join(c for c in w if c.isascii() and (c.isalnum() or c in "-_."))
            if w:
                return f"3.{r.choice([0, 1, 12])}.0-{w}"
        return r.choice(["3.0.0", "3.0.0", "3.1.0", "3.0.1", "3.10.200", "3.0.0-rc1", "3.0.0-next-major-spec.12", "3.0.0-a_b", "3.99.0", "3.0.00"])

    def default_ref(self, site):
        r = self.r
        return r.choice(["#/components/schemas/a", "#/channels/x", "https://example.com/a.yaml#/b", "", "#", "#/", "./x.json", "a b", self.string()])

    # ------------------------------------------------ containers
    def count(self, lo=0):
        r = self.r
        n = words.size(r, 150, 0.02) if self.depth_left() > 2 and len(self.path) < 5 else None
        if n:
            return n
        x = r.random()
        if x < 0.02 and self.depth_left() > 2 and len(self.path) < 6:
            return r.choice([11, 17, 33])
        return max(lo, r.choice([0, 1, 1, 2, 2, 3]))

    def depth_left(self):
        return self.depth - len(self.path)

    def gen(self, t, step=None):
        if step is not None:
            self.path.append(step)
        try:
            return self._gen(t)
        finally:
            if step is not None:
                self.path.pop()

    def _gen(self, t):
        """A value of a type; now and then an equal copy of one made before in this value."""
        if self.made is None or t[0] not in ("obj", "list", "map", "any", "url", "int"):
            return self._new(t)
        seen = self.made.setdefault(repr(t), [])
        if seen and self.r.random() < self.same:
            return jx(self.r.choice(seen))
        v = self._new(t)
        if len(seen) < 20:
            seen.append(jx(v) if isinstance(v, (dict, list)) else v)
        return v

    def _new(self, t):
        r, k = self.r, t[0]
        if k == "any":
            return self.any()
        if k == "str":
            return self.string(t[1] if len(t) > 1 else None)
        if k == "email":
            return self.email()
        if k == "url":
            return self.url(t[1])
        if k == "bool":
            return r.random() < 0.5
        if k == "int":
            return self.integer(*t[1:])
        if k == "lit":
            x = r.choice(t[1:])
            self.said.append(str(x))
            return x
        if k == "ref":
            return {"$ref": self.ref((tuple(self.path), self.site_types()))}
        if k == "list":
            n = self.count() if self.depth_left() > 0 else r.choice([0, 0, 1])
            if t[1][0] == "str" and r.random() < 0.03:
                n = 40
            if t[1] == ["str"] and n and r.random() < 0.25:
                fam = r.choice(FAMILIES)
                return [r.choice(fam) for _ in range(n + 2)]
            out = [self.gen(t[1], i) for i in range(n)]
            if out and r.random() < 0.08:  # the same item again, next to itself or elsewhere
                i = r.randrange(len(out))
                out.insert(r.choice([i, i, r.randrange(len(out) + 1)]), jx(out[i]))
            return out
        if k == "map":
            n = self.count() if self.depth_left() > 0 else r.choice([0, 0, 1])
            out = {}
            fam = r.choice(KEY_FAMILIES) if r.random() < 0.1 else None
            for _ in range(n):
                key = r.choice(fam) if fam else self.any_key()
                out[key] = self.gen(t[1], key)
            return out
        if k == "union":
            return self.union(t)
        if k == "obj":
            return self.obj(t[1])
        raise AssertionError(t)

    def site_types(self):
        return self._site_types

    _site_types = None

    def union(self, t):
        r = self.r
        alts = t[1:]
        names = [a[1] for a in alts if a[0] == "obj"]
        if ["ref"] in alts:
            pr = 0.25 if self.depth_left() > 0 else 0.7
            if self.free_refs and r.random() < pr:
                self._site_types = names
                return {"$ref": self.ref((tuple(self.path), names))}
            alts = [a for a in alts if a != ["ref"]]
        a = r.choice(alts)
        if ["obj", "Schema"] in alts and any(x[0] == "map" for x in alts):  # kafka message key
            return {"type": r.choice(["string", "object"]), "enum": [self.string()], self.any_key() + "_": self.any()}
        return self._gen(a)

    def obj(self, name, force=(), only=None):
        r, c = self.r, CATALOG[name]
        if c["kind"] == "patterned":
            out = {}
            n = self.count() if self.depth_left() > 0 else r.choice([0, 0, 1])
            fam = r.choice(KEY_FAMILIES) if r.random() < 0.1 and not self.key_pool else None
            for _ in range(n):
                key = r.choice(fam) if fam else self.key()
                if key in out:
                    continue
                out[key] = self.gen(c["item"], key)
            return out
        out = {}
        fields = list(c["fields"])
        if r.random() < 0.3:
            r.shuffle(fields)
        dl = self.depth_left()
        for f in fields:
            want = f.get("req") or f["json"] in force
            if only is not None:
                want = want or f["json"] in only
            elif not want:
                p = self.p if dl > 0 or f["type"][0] not in ("obj", "list", "union", "map") else 0.05
                want = r.random() < p
            if not want:
                continue
            self._site_types = site_of_field(name, f)
            out[f["json"]] = self.gen(f["type"], f["json"])
        if c["kind"] == "ext" and only is None and r.random() < 0.15:
            for _ in range(r.choice([1, 1, 2, 5])):
                out[self.ext_name()] = self.any()
        if c["kind"] == "free" and only is None:
            if name != "MultiFormatSchema":
                self.free_extras(name, out)
            if r.random() < 0.08:  # names that collide with attributes and internals of the model classes
                out[r.choice(ATTRIBUTE_LIKE)] = {"a": self.any()} if r.random() < 0.5 else self.any()
        fix = FIXUPS.get(name)
        if fix:
            fix(self, out)
        if self.nulls and only is None and r.random() < 0.5:
            for f in fields:
                if f["json"] not in out and f.get("null") and f["type"][0] != "any" and "default" not in f and r.random() < 0.15:
                    out[f["json"]] = None
        return out

    def schema_words(self):
        return schema_words(self)

    def free_extras(self, name, out):
        r = self.r
        if name == "Schema" and r.random() < 0.6:
            out["type"] = r.choice(["object", "string", "integer", ["string", "null"]])
            if r.random() < 0.4:
                out["properties"] = {self.any_key(): {"type": "string", "default": self.any()} for _ in range(r.randrange(0, 3))}
            if r.random() < 0.2:
                out["allOf"] = [{"$ref": "#/components/schemas/x"}, {"required": []}]
            if r.random() < 0.2:
                out[r.choice(["enum", "const", "default", "examples", "minimum", "x-ext", "additionalProperties", "if", "$id"])] = self.any()
        if name == "Schema" and r.random() < 0.5:
            out.update(self.schema_words())
        if name == "KafkaTopicConfiguration" and r.random() < 0.4:
            out[r.choice(["min.insync.replicas", "segment.ms", "x-y", "foo bar"])] = self.any()
        if name == "Schema":
            for k in ("schema", "schemaFormat", "ref", "$ref", "external_docs"):
                out.pop(k, None)


SCHEMA_TYPES = {
    "string": lambda g: g.r.choice(["", "a", "b", "ab", g.string()]), "integer": lambda g: g.r.choice([0, 1, -1, 7, 10**12]), "number": lambda g: g.r.choice([0, 1, -0.5, 2.5, 1e30]),
    "boolean": lambda g: g.r.random() < 0.5, "null": lambda g: None, "array": lambda g: g.r.choice([[], [1], ["a", None], [{}]]), "object": lambda g: g.r.choice([{}, {"a": 1}, {"b": None}]),
}


def schema_words(g):
    """Members of JSON Schema with values of their usual types; legal together, though few fit each other."""
    r = g.r
    ts = r.sample(sorted(SCHEMA_TYPES), r.choice([1, 1, 1, 2]))
    val = lambda: SCHEMA_TYPES[r.choice(ts)](g)
    names = r.sample(["a", "b", "c", "id", "name", "type", "properties", "required", "enum", "default"], 4)
    sub = lambda d=[2]: {"type": r.choice(sorted(SCHEMA_TYPES))} if r.random() < 0.6 else r.choice([{}, {"enum": [1]}, {"$ref": "#/components/schemas/a"}, {"not": {}}, True, False])
    num = lambda: r.choice([0, 1, 2, 5, -3, 0.5, 100])
    cnt = lambda: r.choice([0, 1, 2, 3, 10])
    table = {
        "type": lambda: ts if len(ts) > 1 else ts[0], "enum": lambda: [val() for _ in range(r.choice([1, 2, 3]))], "const": val, "default": val, "examples": lambda: [val() for _ in range(r.choice([0, 1, 2]))],
        "required": lambda: r.sample(names, r.choice([0, 1, 2, 3])), "properties": lambda: {n: sub() for n in r.sample(names, r.choice([0, 1, 2]))}, "patternProperties": lambda: {r.choice(["^a", ".*", "b$", "^x-"]): sub()},
        "additionalProperties": sub, "propertyNames": sub, "items": lambda: r.choice([sub(), [sub(), sub()]]), "additionalItems": sub, "contains": sub, "minimum": num, "maximum": num, "exclusiveMinimum": num, "exclusiveMaximum": num,
        "multipleOf": lambda: r.choice([1, 2, 0.1]), "minLength": cnt, "maxLength": cnt, "minItems": cnt, "maxItems": cnt, "minProperties": cnt, "maxProperties": cnt, "uniqueItems": lambda: r.random() < 0.5,
        "pattern": lambda: r.choice(["^a", "[a-z]+", "", "(", "\\d{2}"]), "format": lambda: r.choice(["date", "email", "int32", "uuid", "binary", "password", "own"]), "allOf": lambda: [sub() for _ in range(r.choice([1, 2]))], "anyOf": lambda: [sub(), sub()],
        "oneOf": lambda: [sub(), sub()], "not": sub, "if": sub, "then": sub, "else": sub, "title": lambda: r.choice(["", "a", "A title"]), "description": lambda: r.choice(["", "a", "*b*"]), "readOnly": lambda: r.random() < 0.5, "writeOnly": lambda: r.random() < 0.5,
        "contentEncoding": lambda: "base64", "contentMediaType": lambda: "a/b", "$id": lambda: r.choice(["http://a.b/c", "#x"]), "$schema": lambda: "http://json-schema.org/draft-07/schema#", "$comment": lambda: "c", "definitions": lambda: {"a": sub()}, "dependencies": lambda: {"a": ["b"], "b": sub()},
    }
    picked = r.sample(sorted(table), r.choice([1, 2, 3, 5, 9]))
    if r.random() < 0.4:  # groups that readers like to check against each other
        picked += r.choice([["type", "default", "enum"], ["default", "enum"], ["const", "default"], ["required", "properties"], ["minimum", "maximum"], ["exclusiveMinimum", "minimum"], ["minLength", "maxLength"], ["minItems", "maxItems"], ["minProperties", "maxProperties"], ["type", "items"],
                            ["type", "properties"], ["if"], ["then", "else"], ["readOnly", "writeOnly"], ["enum", "examples"], ["type", "format"], ["enum", "const"], ["additionalProperties", "properties", "required"], ["oneOf", "anyOf", "allOf"], ["pattern", "default"], ["type", "enum"]])
    if "default" in picked:
        picked.append("type")
    r.shuffle(picked)
    return {k: table[k]() for k in picked}


def site_of_field(owner, f):
    """Component types a bare reference field may point at (by field meaning)."""
    return {"channel": ["Channel"], "messages": ["Message"], "servers": ["Server"]}.get(f["json"])


ATTRIBUTE_LIKE = ("root root root model_extra model_fields model_config model_dump copy dict json items keys values self cls data __dict__ __class__ "
                  "__pydantic_extra__ __pydantic_fields_set__ _private").split()


# ---------------------------------------------------------------- make cross-field rules true
def fx_security(g, o):
    t = o["type"]
    for k in ("bearerFormat", "scopes"):
        pass
    if t == "apiKey":
        o["in"] = g.r.choice(["user", "password"])
    if t == "httpApiKey":
        o["in"] = g.r.choice(["query", "header", "cookie"])
        o.setdefault("name", g.string())
    if t == "http":
        o.setdefault("scheme", g.r.choice(["basic", "bearer", "digest", ""]))
    if "bearerFormat" in o:
        if t == "http":
            o["scheme"] = "bearer"
        else:
            del o["bearerFormat"]
    if t == "oauth2" and "flows" not in o:
        o["flows"] = g.gen(["obj", "OAuthFlows"], "flows")
    if t == "openIdConnect":
        o.setdefault("openIdConnectUrl", g.url("any"))
    if t not in ("oauth2", "openIdConnect"):
        o.pop("scopes", None)


def fx_flows(g, o):
    for f, urls in (("implicit", ["authorizationUrl"]), ("password", ["tokenUrl"]), ("clientCredentials", ["tokenUrl"]),
                    ("authorizationCode", ["authorizationUrl", "tokenUrl"])):
        if f in o:
            for u in urls:
                o[f].setdefault(u, g.url("any"))


def address_of(r, names):
    """An address made of expressions, some named after the parameters, some twice, some not at all."""
    parts = ["{" + (r.choice(names) if names and r.random() < 0.8 else r.choice(["b", "id", "a b", "x.y", "0"])) + "}" for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
    if r.random() < 0.5 and names:
        parts = ["{" + n + "}" for n in names] + parts[:r.choice([0, 1, 2])]
    if r.random() < 0.4:
        parts.append(r.choice(parts))
    r.shuffle(parts)
    return "".join(r.choice(["", "", "/", "a", "a/b/", ".", "{", "}"]) + p if p != "}" else p for p in parts) + r.choice(["", "/", "/c", "?x={a}", "#y"])


def fx_channel(g, o):
    if "parameters" in o:
        if not o.get("address") or not ADDRESS_EXPR.search(o["address"]):
            o["address"] = address_of(g.r, list(o["parameters"] or ())) if g.r.random() < 0.6 else g.r.choice(["a/{b}", "{x}", "é{p q}/z", "x" * 200 + "{id}", "}{a}", "{a\nb}"])
    elif "address" in o and g.nulls and g.r.random() < 0.2:
        o["address"] = None


def fx_example(g, o):
    if o.get("payload", 1) is None:
        del o["payload"]
    if "headers" not in o and "payload" not in o:
        if g.r.random() < 0.5:
            o["payload"] = g.r.choice([g.nonnull_any(), 0, False, "", [], {}])
        else:
            o["headers"] = g.r.choice([{}, {"a": None}])


def fx_corr(g, o):
    o["location"] = g.r.choice(["$message.header#/correlationId", "$message.payload#/a/b", "$message.", "$message.x"])


def fx_amqp(g, o):
    need, other = ("queue", "exchange") if o["is"] == "queue" else ("exchange", "queue")
    o.pop(other, None)
    if need not in o:
        o[need] = g.gen(["obj", "AMQPQueue" if need == "queue" else "AMQPExchange"], need)


def fx_ibm_channel(g, o):
    if "queue" in o and "topic" in o:
        del o[g.r.choice(["queue", "topic"])]
    if o.get("destinationType") == "queue" and "queue" not in o:
        o.pop("topic", None)
        o["queue"] = g.gen(["obj", "IBMMQQueue"], "queue")


def fx_ibm_message(g, o):
    if o.get("type", "string") != "binary":
        o.pop("headers", None)


def fx_kafka_server(g, o):
    if "schemaRegistryVendor" in o:
        o.setdefault("schemaRegistryUrl", g.string())


def fx_solace(g, o):
    need, other = ("queue", "topic") if o["destinationType"] == "queue" else ("topic", "queue")
    o.pop(other, None)
    if need not in o:
        o[need] = g.gen(["obj", "SolaceQueue" if need == "queue" else "SolaceTopic"], need)


def fx_root(g, o):
    if "asyncapi" in o:
        o["asyncapi"] = g.version()


def fx_mfs(g, o):
    if "schemaFormat" in o:
        o["schemaFormat"] = g.r.choice(CONTENT_TYPES + ["application/vnd.apache.avro;version=1.9.0"])


FIXUPS = {
    "SecurityScheme": fx_security, "OAuthFlows": fx_flows, "Channel": fx_channel, "MessageExample": fx_example,
    "CorrelationID": fx_corr, "AMQPChannelBindings": fx_amqp, "IBMMQChannelBindings": fx_ibm_channel,
    "IBMMQMessageBindings": fx_ibm_message, "KafkaServerBindings": fx_kafka_server, "SolaceDestination": fx_solace,
    "AsyncAPI3": fx_root, "MultiFormatSchema": fx_mfs,
}


def document(rng, p=0.4, depth=7, sections=None, **kw):
    """A whole AsyncAPI document."""
    g = Gen(rng, p=p, depth=depth, **kw)
    if sections is None:
        pool = ["servers", "channels", "operations", "components", "id", "defaultContentType", "asyncapi"]
        sections = [s for s in pool if rng.random() < (0.55 if s != "components" else 0.5)]
    doc = {}
    for f in CATALOG["AsyncAPI3"]["fields"]:
        if f["json"] == "info" or f["json"] in sections:
            doc[f["json"]] = g.gen(f["type"], f["json"])
    fx_root(g, doc)
    if rng.random() < 0.3:
        doc[g.ext_name()] = g.any()
    return doc


def instance(rng, name, mode, **kw):
    """A conforming value of one object type; mode in min|max|random."""
    g = Gen(rng, p={"min": 0.0, "max": 1.0}.get(mode, rng.choice([0.2, 0.5, 0.8])), depth=kw.pop("depth", 3), **kw)
    return g.obj(name)


# ---------------------------------------------------------------- mutation (any verdict)
JUNK = [None, True, 0, -1, 1.5, "", "junk", [], {}, [1], {"a": 1}, [None], 10**30, "maybe", {"$ref": 5}, {"$ref": "#/x", "y": 1}]


def sites(v, path=()):
    yield path, v
    if isinstance(v, dict):
        for k in list(v):
            yield from sites(v[k], path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from sites(x, path + (i,))


def get_at(v, path):
    for s in path:
        v = v[s]
    return v


def set_at(v, path, x):
    if not path:
        return x
    get_at(v, path[:-1])[path[-1]] = x
    return v


def typed_sites(t, v, path=()):
    """(path, type, value) for every modelled position of a conforming value."""
    k = t[0]
    yield path, t, v
    if k == "list" and isinstance(v, list):
        for i, x in enumerate(v):
            yield from typed_sites(t[1], x, path + (i,))
    elif k == "map" and isinstance(v, dict):
        for key in v:
            yield from typed_sites(t[1], v[key], path + (key,))
    elif k == "union":
        if isinstance(v, dict) and set(v) == {"$ref"} and ["ref"] in t:
            return
        for a in t[1:]:
            if a[0] == "obj" and isinstance(v, dict):
                n = a[1]
                if n == "MultiFormatSchema" and "schema" not in v:
                    continue
                for x in typed_sites(a, v, path):
                    if x[0] != path:
                        yield x
                break
            if a[0] in ("list", "map") and isinstance(v, list if a[0] == "list" else dict):
                for x in typed_sites(a, v, path):
                    if x[0] != path:
                        yield x
                break
    elif k == "obj" and isinstance(v, dict):
        c = CATALOG[t[1]]
        if c["kind"] == "patterned":
            for key in v:
                yield from typed_sites(c["item"], v[key], path + (key,))
        else:
            for f in c["fields"]:
                if f["json"] in v:
                    yield from typed_sites(f["type"], v[f["json"]], path + (f["json"],))


def mutate(rng, t, v):
    """One semantic mutation of a conforming value at a modelled position.

    Returns (mutated value, description).  The verdict is left to the oracle.
    """
    allsites = list(typed_sites(t, v))
    for _ in range(20):
        path, tt, x = rng.choice(allsites)
        ops = ["junk"]
        if tt[0] == "obj" and isinstance(x, dict):
            ops = ["unknown", "unknown", "drop", "rename", "junkfield", "badkey", "ext"]
        elif tt[0] == "union":
            ops = ["junk", "refsib", "swap"]
        elif tt[0] in ("lit", "int", "str", "url", "email", "bool"):
            ops = ["scalar", "scalar", "junk"]
        op = rng.choice(ops)
        c = CATALOG[tt[1]] if tt[0] == "obj" else None
        if op == "junk":
            return set_at(v, path, jx(rng.choice(JUNK))), f"junk@{tt[0]}"
        if op == "scalar":
            return set_at(v, path, bad_scalar(rng, tt, x)), f"scalar@{tt[0]}"
        if op == "refsib":
            y = {"$ref": "#/components/x/y"}
            if rng.random() < 0.6:
                y[rng.choice(["description", "x-a", "summary", "$id"])] = "z"
            return set_at(v, path, y), "ref-sibling"
        if op == "swap":
            _, t2, y = rng.choice(allsites)
            return set_at(v, path, jx(y)), "swap"
        if c["kind"] == "patterned":
            bk = rng.choice(BAD_KEYS)
            if x:
                k0 = rng.choice(list(x))
                x[bk] = jx(x[k0])
                return v, "badkey"
            continue
        if op == "unknown":
            x[rng.choice([*STRAY, "unknown", "X-a", "x_a", "x-", "x- a", "x-a b", "y-x-a", "xa", "", "description2", "$ref", "bindingversion", "x-a\n", "x-a/b", "x-a:b"])] = rng.choice([1, "v", None])
            return v, "unknown-field"
        if op == "ext":
            x["x-ok." + str(rng.randrange(9))] = rng.choice([None, 1, {"a": [1]}])
            return v, "extension"
        present = [f for f in c["fields"] if f["json"] in x]
        if not present:
            continue
        f = rng.choice(present)
        if op == "drop":
            del x[f["json"]]
            return v, "drop-" + ("req" if f.get("req") else "opt")
        if op == "rename":
            x[f["json"] + rng.choice(["_", "s", "2", " "])] = x.pop(f["json"])
            return v, "rename"
        if op == "junkfield":
            f = rng.choice(c["fields"])
            x[f["json"]] = jx(rng.choice(JUNK))
            return v, f"junk@{f['type'][0]}"
    return v, "none"


def walk_types(t):
    """A type and every type inside it."""
    yield t
    for a in t[1:]:
        if isinstance(a, list):
            yield from walk_types(a)


def jx(v):
    if isinstance(v, dict):
        return {k: jx(x) for k, x in v.items()}
    if isinstance(v, list):
        return [jx(x) for x in v]
    return v


def bad_scalars(rng, t, x):
    """Every candidate fault for one scalar type (the oracle decides which of them are faults)."""
    k = t[0]
    if k == "lit":
        s = [y for y in t[1:] if isinstance(y, str)]
        if s:
            y = rng.choice(s)
            own = [z for q in s for z in (q.lower(), q.upper(), q.capitalize(), q.swapcase(), q.replace("-", "_"), q.replace("_", "-"), q.replace("-", ""), q[:1], q + "d", f"{q},{y}", f"x-{q}")]
            return [y.upper() + "_", y + " ", " " + y, y[:-1], y + "s", y.swapcase(), "", 0, [y], {y: y}, *rng.sample(own, min(len(own), 8)), *rng.sample(LITERALS, 14), *rng.sample(RELATIVES, 14)]
        y = rng.choice(t[1:])
        near = [min(t[1:]) - 1, max(t[1:]) + 1, max(t[1:]) + 2, *(z for z in range(min(t[1:]), max(t[1:])) if z not in t[1:])]
        return [*near, *near, 3, -1, 4, 5, 8, 10, 99, 128, 255, "1x", "", [1], {}, str(y), str(y), f" {y}", f"{y}.0", [y], {"a": y}, y + 0.5, 2**64 + y]
    if k == "int":
        lo = t[1] if len(t) > 1 else None
        hi = t[2] if len(t) > 1 else None
        c = ["abc", 1.5, [1], {}, "", "4K", "10M", "5s", "1 000", "1,5", "1.5", "0x10", "1e3", "5%", "ten", "unlimited", "-", "+", "1h", ["1"], {"value": 1}, "1;2", "PT5S", "infinity", 10.25, "1/2", "\u2167"]
        if lo is not None:
            c += [lo - 1, lo - 1, lo - 1, lo, -(10**12), str(lo - 1), float(lo - 1)]
        if hi is not None:
            c += [hi + 1, hi + 1, hi + 1, hi, 10**12, str(hi + 1), float(hi + 1)]
        return c
    if k == "str":
        c = [1, 1.5, True, ["a"], {"a": "b"}]
        if len(t) > 1:
            c += ["a" * (t[1] + 1), "é" * (t[1] + 1), "a" * t[1], "b" * (t[1] * 2)]
        return c
    if k == "bool":
        return ["maybe", 2, -1, [], {}, "", "truee"]
    if k == "url":
        return [*BAD_URLS, 5, [], "ftp://files.example.org/pub/x.txt", "urn:a:b"]
    if k == "email":
        return list(BAD_EMAILS)
    return [x]


def bad_scalar(rng, t, x):
    if words.NEW and t[0] in ("lit", "url", "email", "int", "bool") and rng.random() < 0.2:
        return words.variant(rng, rng.choice(words.NEW))
    if words.NUMS and t[0] in ("int", "lit") and rng.random() < 0.2:
        return rng.choice(words.NUMS) + rng.choice([0, 1, -1])
    return jx(rng.choice(bad_scalars(rng, t, x)))


# Member names other formats and tools allow: comments, metadata, merge keys, includes.
STRAY = [*(w for w in words.NEW[:30] if w[:2] != "x-"), "$comment", "$schema", "$id", "$defs", "$anchor", "$vocabulary", "_id", "_x", "_comment", "//", "#", "#comment", ".common", "@type", "@id", "<<", "__comment__", "comment", "comments", "$include", "$merge",
         "$extends", "extends", "!include", "*", "%", "&a", "$key", "$type", "@comment", "$$ref", "ref", "href", "$link", "x", "X", "_", "-", "--", "xml:a", "data-a", "vendor-a", "ext-a", "notes", "meta", "metadata", "custom",
         "extensions", "additionalProperties", "annotations", "labels", "definitions", "default", "defaults", "version", "id", "type", "name", "key", "summary", "description", "deprecated", "nullable", "enabled", "title"]
# Literals of every enumeration of the catalog and their usual relatives: each is a plausible stranger to the others.
LITERALS = sorted({y for c in CATALOG.values() for f in c.get("fields", []) for t in walk_types(f["type"]) if t[0] == "lit" for y in t[1:] if isinstance(y, str)})
MEMBERS = sorted({s for c in CATALOG.values() for f in c.get("fields", []) for s in (f["json"], f.get("default")) if isinstance(s, str)})
SCHEMES = ["basic", "bearer", "bearer", "digest", "Bearer", "user", "password", "query", "header", "cookie", "write:pets", "https", "mqtt", "amqp", "application/json", "{userId}", "$message.header#/a", "3.0.0"]
RELATIVES = ["QUERY", "PATCH", "CONNECT", "TRACE", "HEAD", "OPTIONS", "LINK", "PURGE", "get", "GET ", "publish", "subscribe", "request", "response", "reply", "fanout-x", "x-delayed-message", "consistent-hash", "match", "any", "all", "none",
             "auto", "default", "mutualTLS", "mtls", "apikey", "oauth", "basic", "bearer", "body", "path", "formData", "persisted", "non-persistent", "partitioned", "stream", "text", "bytes", "map", "object", "compact,delete", "standard", "high-throughput"]


BAD_EMAILS = ["", "a", "a@", "@b.cc", "a@b", "a@b.c", "a..b@c.dd", "a@b..cc", "a b@c.dd", "a@b.cc ", " a@b.cc", "a@b.c1", "a@b.cc\n", "a@@b.cc", "a@b_c.dd", "é@b.cc", "a@b.cc.", "a@b.éé", 5, None, [], "a@b.cc,d@e.ff", "<a@b.cc>", "a@.", "\na@b.cc"]
BAD_KEYS = ["", " ", "a b", "a.b", "a/b", "é", "a\n", "\n", "a:b", "a#", "$a", "{a}", "a~1b", "日", "a,b", "a ", "\u0660", "a'b", "x\u200b", "a\\b", "a*", "@", "a+b", "ﬀ", "a\x00", "a\t", "\u212a", "a\u017f", "\u0130d", "\u0131", "\uff21", "\uff3f", "\u2010", "\u00aa", "\u0391"]
assert not any(KEY_OK.match(k) for k in BAD_KEYS)
