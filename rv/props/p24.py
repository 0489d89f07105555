"""P24: the processor pipeline, observed by tracing processors against a model of the documented order and effects."""

import asyncio
import contextvars
import copy
import threading
import zlib

from asyncapi3 import validators as bundled_validators
from pydantic import BaseModel, TypeAdapter

from rv import gen, lib
from rv.gen import jx
from rv.refs import broken_doc, consistent_doc
from rv.spec import deep_eq, first_diff, interpret
from rv.util import ROOT, T, live_sections, rand_doc

RULE = ("a case is a document with lists of tracing converters and validators (observing, assigning, editing, refusing, nesting) put through one or many validations by parsing, construction, "
        "revalidation, the builder and assignment; the recorded calls are compared with the documented order, and the document with a model of the effects")

Root = lib.AsyncAPI3


class Trace:
    """Everything the processors of one document did."""

    def __init__(self, salt=0):
        self.events = []  # (tag, instance, document, dump)
        self.inits = []
        self.runs = 0
        self.made = 0  # processor classes, and a number to vary what they return
        self.salt = salt
        self.family = []
        self.depth = 0


class Quiet(type):
    """Classes that are falsy and equal to each other."""

    def __bool__(cls):
        return False

    def __eq__(cls, other):
        return isinstance(other, Quiet)

    def __hash__(cls):
        return 1


# processors that look false, empty or equal to each other
ODD = {0: {"__len__": lambda self: 0}, 1: {"__bool__": lambda self: False}, 2: {"__eq__": lambda self, other: True, "__hash__": lambda self: 1},
       4: {"__slots__": (), "__doc__": ""}, 5: {"__repr__": lambda self: 1 / 0}}


def tracing(tr, tag, act=None, duck=False, extra=None):
    def __init__(self):
        tr.inits.append(self)

    def __call__(self, spec):
        tr.events.append((tag, self, spec, lib.dump(spec)))
        if act:
            act(spec)
        return (lambda: spec, lambda: None, lambda: copy.deepcopy(spec), lambda: {"info": {}}, lambda: False, lambda: type(spec).__name__)[mode]()

    tr.made += 1
    odd = zlib.crc32(f"odd/{tag}/{tr.made}/{tr.salt}".encode()) % 8
    extra = {**ODD.get(odd, {}), **(extra or {})}
    mode = zlib.crc32(f"{tag}/{tr.made}/{tr.salt}".encode()) % 6
    from asyncapi3.protocols import ProcessorProtocol

    make = Quiet if odd == 3 and duck else type
    if not duck and tr.family and odd == 6:  # a kind of an earlier one, or a twin of its name
        return type(f"P_{tr.family[-1].__name__[2:]}", (tr.family[-1],), {"__init__": __init__, "__call__": __call__, **(extra or {})})
    made = make(f"P_{tag}", () if duck else (ProcessorProtocol,), {"__init__": __init__, "__call__": __call__, **(extra or {})})
    if not duck:
        tr.family.append(made)
    return made


class Effect:
    """One change a converter makes: on the live document and on its JSON model."""

    def __init__(self, name, live, model):
        self.name, self.live, self.model = name, live, model


def setj(d, key, val):
    e = jx(d)
    if val is None:
        e.pop(key, None)
    else:
        e[key] = val
    return e


def effects(r, n):
    """A few random effects; each is total: it does nothing where it does not apply."""
    out = []
    for i in range(n):
        k = r.choice(["content", "id", "ext", "info", "server", "channel", "drop", "nested", "components", "tags", "version", "twice", "inplace", "same"])
        s = f"{k}-{i}-{r.randrange(1000)}"
        if k == "content":
            out.append(Effect(k, lambda m, s=s: setattr(m, "default_content_type", s), lambda d, s=s: setj(d, "defaultContentType", s)))
        elif k == "id":
            out.append(Effect(k, lambda m: setattr(m, "id", "urn:example:app"), lambda d: setj(d, "id", "urn:example:app")))
        elif k == "version":
            out.append(Effect(k, lambda m: setattr(m, "asyncapi", "3.1.4"), lambda d: setj(d, "asyncapi", "3.1.4")))
        elif k == "ext":
            out.append(Effect(k, lambda m, s=s: setattr(m, "x-made", {"by": s}), lambda d, s=s: setj(d, "x-made", {"by": s})))
        elif k == "info":
            out.append(Effect(k, lambda m, s=s: setattr(m, "info", {"title": s, "version": "1"}), lambda d, s=s: setj(d, "info", {"title": s, "version": "1"})))
        elif k == "server":
            out.append(Effect(k, lambda m, s=s: setattr(m, "servers", {s: {"host": "h", "protocol": "p"}}), lambda d, s=s: setj(d, "servers", {s: {"host": "h", "protocol": "p"}})))
        elif k == "drop":
            out.append(Effect(k, lambda m: setattr(m, "operations", None), lambda d: setj(d, "operations", None)))
        elif k == "components":
            out.append(Effect(k, lambda m, s=s: setattr(m, "components", {"tags": {s: {"name": s}}}), lambda d, s=s: setj(d, "components", {"tags": {s: {"name": s}}})))
        elif k == "channel":
            def live(m, s=s):
                if m.channels is not None:
                    m.channels[s] = {"address": None}

            def model(d, s=s):
                e = jx(d)
                if "channels" in e:
                    e["channels"][s] = {"address": None}
                return e
            out.append(Effect(k, live, model))
        elif k == "nested":
            def model(d, s=s):
                e = jx(d)
                e["info"]["description"] = s
                return e
            out.append(Effect(k, lambda m, s=s: setattr(m.info, "description", s), model))
        elif k == "tags":
            def live(m, s=s):
                if m.info.tags is None:
                    m.info.tags = []
                m.info.tags = [*m.info.tags, {"name": s}]

            def model(d, s=s):
                e = jx(d)
                e["info"]["tags"] = [*e["info"].get("tags", []), {"name": s}]
                return e
            out.append(Effect(k, live, model))
        elif k == "twice":
            def live(m, s=s):
                for j in range(5):
                    m.default_content_type = f"{s}{j}"
                m.default_content_type = s
            out.append(Effect(k, live, lambda d, s=s: setj(d, "defaultContentType", s)))
        elif k == "inplace":
            def live(m):
                if m.servers is not None and len(m.servers):
                    del m.servers[next(iter(m.servers.root))]

            def model(d):
                e = jx(d)
                if e.get("servers"):
                    del e["servers"][next(iter(e["servers"]))]
                return e
            out.append(Effect(k, live, model))
        else:
            out.append(Effect(k, lambda m: setattr(m, "info", m.info), lambda d: d))
    return out


def perform(effs):
    def act(spec):
        for e in effs:
            e.live(spec)
    return act


def canon(d):
    v = interpret(T(ROOT), d)
    return v.canon if v.status == "ok" else None


class Pipeline:
    """Lists of tracing processors with a model of what a run does to a document."""

    def __init__(self, case, tr, veto=None, max_n=4):
        r = case.rng
        self.case, self.tr = case, tr
        self.convs, self.vals = [], []  # (tag, class, effects, refuses)
        nc, nv = r.choice([(0, 1), (1, 0), (1, 1), (2, 2), (max_n, 3), (0, 4), (3, 0), (12, 12), (40, 40), (2, 70)])
        for i in range(nc):
            effs = effects(r, r.choice([0, 1, 1, 2, 3]))
            self.convs.append(self.make(f"c{i}", effs, r))
        for i in range(nv):
            self.vals.append(self.make(f"v{i}", [], r))
        if r.random() < 0.2 and self.convs:  # the same class twice, and in both lists
            self.convs.append(r.choice(self.convs))
        if r.random() < 0.2 and self.vals:
            self.vals.append(r.choice(self.vals))
        if r.random() < 0.1 and self.vals:
            self.convs.insert(r.randrange(len(self.convs) + 1), r.choice(self.vals))

    def make(self, tag, effs, r):
        act = perform(effs) if effs else None
        return tag, tracing(self.tr, tag, act, duck=r.random() < 0.3), effs

    def kw(self):
        return {"extra_converters": [c[1] for c in self.convs], "extra_validators": [v[1] for v in self.vals]}

    def expect(self, d):
        """[(tag, dump at that time)], final document."""
        out = []
        for tag, _c, effs in [*self.convs, *self.vals]:
            out.append((tag, canon(d)))
            for e in effs:
                d = e.model(d)
        return out, d


def judge_run(case, pl, start, events, inits, spec, what, d=None):
    """One run's events against the model; returns the final document model."""
    want, final = pl.expect(start)
    got = [e[0] for e in events]
    case.check(got == [w[0] for w in want], "order", lambda: f"{what}: processors ran as {got}, documented order {[w[0] for w in want]}", d)
    for (tag, inst, doc, dumped), (_t, c) in zip(events, want):
        case.check(spec is None or doc is spec, "another-document", f"{what}: processor {tag} did not receive the document itself", d)
        case.check(c is None or deep_eq(dumped, c), "stale-values", lambda: f"{what}: processor {tag} saw {first_diff(c, dumped)}", d)
    ids = [id(e[1]) for e in events]
    case.check(len(set(ids)) == len(ids), "instance-reused", f"{what}: one instance ran twice", d)
    fresh = {id(x) for x in inits}
    case.check(set(ids) <= fresh, "instance-not-fresh", f"{what}: an instance made before this validation was used", d)
    case.counts["calls"] += len(events)
    return final


def entry_points(r, d, kw):
    def holder():
        H = type("Holder", (BaseModel,), {"__annotations__": {"spec": Root}})
        return H(spec={**jx(d), **kw}).spec

    return {
        "parse": lambda: Root.model_validate({**jx(d), **kw}),
        "kwargs": lambda: Root(**jx(d), **kw),
        "objects": lambda: Root(**live_sections(r, d), **kw),
        "adapter": lambda: TypeAdapter(Root).validate_python({**jx(d), **kw}),
        "holder": holder,
    }


def small(case):
    r = case.rng
    for _ in range(6):
        d = gen.document(r, p=r.choice([0.05, 0.1, 0.2]), depth=r.choice([3, 4]))
        if canon(d) is not None:
            return d
    return None


def single(case):
    """One validation through every entry point."""
    r = case.rng
    d = small(case)
    if d is None:
        return
    tr = Trace(case.i)
    pl = Pipeline(case, tr)
    final = pl.expect(d)[1]
    if canon(final) is None:
        case.see("generator:effect")
        return
    ways = entry_points(r, d, pl.kw())
    for how in r.sample(sorted(ways), 2):
        tr.events.clear()
        tr.inits.clear()
        st, m = lib.attempt(ways[how])
        case.check(st == "ok", "run-failed", lambda: f"by {how}: {m!s:.400}; effects {[[e.name for e in c[2]] for c in pl.convs]}", d)
        judge_run(case, pl, d, tr.events, tr.inits, m, f"by {how}", d)
        out = lib.dump(m)
        case.check(deep_eq(out, canon(final)), "changes-lost", lambda: f"by {how}: {first_diff(canon(final), out)}", d)
        hidden(case, m, d)
        n = len(tr.events)
        dumpall(m)
        case.check(len(tr.events) == n, "ran-on-dump", "processors ran while dumping", d)
        case.see("route:" + how)
    # the accepted document revalidated as an instance
    tr.events.clear()
    tr.inits.clear()
    now = final
    if canon(pl.expect(now)[1]) is not None:
        st, m2 = lib.attempt(Root.model_validate, m)
        case.check(st == "ok", "run-failed", lambda: f"revalidating: {m2!s:.300}", d)
        judge_run(case, pl, now, tr.events, tr.inits, m2, "revalidating", d)
        case.see("route:revalidate")
    for c in pl.convs:
        for e in c[2]:
            case.state("effects", e.name)
    case.state("lists", len(pl.convs), len(pl.vals))
    case.distinct([c[0] for c in pl.convs], [[e.name for e in c[2]] for c in pl.convs], len(pl.vals), d)
    case.sample([[c[0] for c in pl.convs], [v[0] for v in pl.vals]])


def dumpall(m):
    m.model_dump(mode="json")
    m.model_dump()
    m.model_dump_json()
    repr(m)
    copy.deepcopy(m)
    _ = m == m


def hidden(case, m, d):
    for out in (m.model_dump(), m.model_dump(mode="json"), m.model_dump(by_alias=True), m.model_dump(by_alias=False), m.model_dump(exclude_none=False), m.model_dump(round_trip=True)):
        bad = [k for k in out if "extra" in str(k) and not str(k).startswith("x-")]
        case.check(not bad, "processors-in-dump", lambda: f"dump contains {bad}", d)
    s = m.model_dump_json()
    case.check('"extra_' not in s[:0] + "".join(k for k in __import__("json").loads(s)), "processors-in-dump", "JSON dump names a processor list", d)


def vetoes(case):
    """A refusal at any place stops the rest and surfaces as the validation error."""
    r = case.rng
    d = small(case)
    if d is None:
        return
    tr = Trace(case.i)
    nc, nv = r.choice([(0, 1), (1, 1), (2, 3), (3, 2), (1, 0)])
    at = r.randrange(nc + nv)
    kind = r.choice(["ValueError", "subclass", "validation", "unicode", "inner-assign", "assertionless"])
    text = f"refused-{r.randrange(10**6)}"

    class Mine(ValueError):
        pass

    def refuse(spec):
        if kind == "ValueError" or kind == "assertionless":
            raise ValueError(text)
        if kind == "subclass":
            raise Mine(text)
        if kind == "validation":
            lib.cls("Contact").model_validate({"email": "not an address"})
        if kind == "unicode":
            b"\xff".decode()
        if kind == "inner-assign":
            spec.asyncapi = "2.6.0"

    procs = [tracing(tr, f"p{i}", refuse if i == at else None) for i in range(nc + nv)]
    kw = {"extra_converters": procs[:nc], "extra_validators": procs[nc:]}
    ways = entry_points(r, d, kw)
    ways["attach"] = None
    ways["assign"] = None
    how = r.choice(sorted(ways))
    if how == "attach":
        m = Root.model_validate(jx(d))
        if nc:
            m.extra_converters = []
        before = lib.dump(m)
        lst = "extra_converters" if at < nc else "extra_validators"
        st, e = lib.attempt(setattr, m, lst, kw[lst])
        expect = [f"p{i}" for i in range(at + 1) if (i < nc) == (at < nc)]
    elif how == "assign":
        m = Root.model_validate(jx(d))
        m.__dict__["extra_converters"], m.__dict__["extra_validators"] = procs[:nc], procs[nc:]
        before = lib.dump(m)
        st, e = lib.attempt(setattr, m, "default_content_type", "changed/type")
        expect = [f"p{i}" for i in range(at + 1)]
    else:
        m = None
        st, e = lib.attempt(ways[how])
        expect = [f"p{i}" for i in range(at + 1)]
    what = f"refusal ({kind}) in processor {at} of {nc}+{nv} by {how}"
    case.check(st == "invalid", "veto-not-surfaced", lambda: f"{what}: {st} {e!r:.300}", d)
    got = [x[0] for x in tr.events]
    case.check(got == expect, "ran-after-veto", lambda: f"{what}: ran {got}, expected {expect}", d)
    if kind in ("ValueError", "subclass"):
        case.check(text in str(e), "veto-text-lost", lambda: f"{what}: {e!s:.300}", d)
    if m is not None:
        out = lib.dump(m)
        case.check(deep_eq(out, before), "vetoed-but-changed", lambda: f"{what}: {first_diff(before, out)}", d)
    case.see("veto:" + kind, "veto-route:" + how)
    case.state("vetoes", kind, how, at, nc, nv)


def invalid(case):
    """Structurally invalid data: nothing runs, whatever is wrong and wherever."""
    r = case.rng
    d, _ = rand_doc(case)
    if d is None:
        return
    for _ in range(6):
        bad, how = gen.mutate(r, T(ROOT), jx(d))
        v = interpret(T(ROOT), bad)
        if v.status == "bad" and isinstance(bad, dict):
            break
    else:
        return
    tr = Trace(case.i)
    kw = {"extra_converters": [tracing(tr, "c0"), tracing(tr, "c1")], "extra_validators": [tracing(tr, "v0")]}
    for name, fn in (("parse", lambda: Root.model_validate({**jx(bad), **kw})), ("kwargs", lambda: Root(**{str(k): x for k, x in jx(bad).items()}, **kw))):
        st, e = lib.attempt(fn)
        if st != "crash":  # the decision itself belongs to P02
            case.check(not tr.events, "ran-on-invalid-data", lambda: f"{how}: {[x[0] for x in tr.events]} ran by {name} although {v.why}", bad)
        case.see("invalid:" + st)
        tr.events.clear()
    # an invalid assignment
    m = Root.model_validate({**jx(d), **kw})
    tr.events.clear()
    f, val = r.choice([("info", {}), ("asyncapi", "2.0.0"), ("asyncapi", None), ("servers", {"a b": {"host": "h", "protocol": "p"}}), ("channels", 5), ("components", {"nope": {}}), ("id", "no url"),
                       ("info", None), ("unknown", 1), ("default_content_type", 7), ("operations", {"a": {"action": "send"}}), ("extra_validators", [5]), ("extra_converters", "x")])
    st, e = lib.attempt(setattr, m, f, val)
    case.check(st == "invalid", "bad-assignment", lambda: f"{f} = {val!r}: {st} {e!r:.200}", d)
    case.check(not tr.events, "ran-on-invalid-data", lambda: f"{[x[0] for x in tr.events]} ran although {f} = {val!r} is invalid", d)
    st, e = lib.attempt(setattr, m, "default_content_type", "a/b")
    case.check(st == "ok" and [x[0] for x in tr.events] == ["c0", "c1", "v0"], "order", lambda: f"after a rejected assignment: {st}, ran {[x[0] for x in tr.events]}", d)
    case.distinct("invalid", how, f)
    case.state("bad_assignments", f, val)


def histories(case):
    """A live document with processors through many validations: one run each, nothing accumulates."""
    r = case.rng
    d = small(case)
    if d is None:
        return
    tr = Trace(case.i)
    pl = Pipeline(case, tr, max_n=3)
    cur = pl.expect(d)[1]
    if canon(cur) is None:
        return
    tr.events.clear()
    m = Root.model_validate({**jx(d), **pl.kw()})
    switch = {"veto": None}
    for step in range(r.choice([4, 8, 15])):
        k = r.choice(["content", "info", "ext", "servers", "none", "revalidate", "lists", "bad", "refuse", "crash", "same", "item"])
        tr.events.clear()
        tr.inits.clear()
        what = f"step {step} ({k})"
        if k == "item":  # a map item is not a validation of the document
            if m.servers is None:
                continue
            m.servers["added"] = {"host": "h", "protocol": "p"}
            cur = jx(cur)
            cur["servers"]["added"] = {"host": "h", "protocol": "p"}
            case.check(not tr.events, "ran-without-validation", what, d)
            continue
        if k == "bad":
            before = lib.dump(m)
            st, e = lib.attempt(setattr, m, "asyncapi", "4.0.0")
            case.check(st == "invalid" and not tr.events and deep_eq(lib.dump(m), before), "ran-on-invalid-data", lambda: f"{what}: {st}, ran {[x[0] for x in tr.events]}", d)
            continue
        if k in ("refuse", "crash"):
            pos = r.randrange(len(pl.vals) + 1)

            def act(spec, k=k):
                spec.default_content_type = "half/done"
                raise (ValueError if k == "refuse" else RuntimeError)("stop")
            P = tracing(tr, "stop", act)
            before = lib.dump(m)
            old = m.extra_validators
            lst = [v[1] for v in pl.vals]
            lst.insert(pos, P)
            m.__dict__["extra_validators"] = lst
            try:
                m.default_content_type = "x/y"
            except ValueError:
                case.check(k == "refuse", "wrong-exception", what, d)
            except RuntimeError:
                case.check(k == "crash", "wrong-exception", what, d)
            else:
                case.fail("veto-not-surfaced", what, d)
            m.__dict__["extra_validators"] = old
            got = [x[0] for x in tr.events]
            want = [c[0] for c in pl.convs] + [v[0] for v in pl.vals[:pos]] + ["stop"]
            case.check(got == want, "ran-after-veto", lambda: f"{what}: ran {got}, expected {want}", d)
            if k == "crash" or any(e.name in ("nested", "tags", "channel", "inplace") for c in pl.convs for e in c[2]):
                # effects inside nested objects are outside the statement: take the state as it is
                cur = settle(m)
                if cur is None:
                    return
            else:
                case.check(deep_eq(lib.dump(m), before), "vetoed-but-changed", lambda: f"{what}: {first_diff(before, lib.dump(m))}", d)
            case.see("history:" + k)
            continue
        spec = m
        if k == "content":
            s = r.choice(["", "a/b", "application/json"])
            nxt, do = setj(cur, "defaultContentType", s), lambda s=s: setattr(m, "default_content_type", s)
        elif k == "info":
            i = {"title": f"t{step}", "version": "", "description": ""}
            nxt, do = setj(cur, "info", i), lambda i=i: setattr(m, "info", r.choice([jx(i), lib.cls("Info")(**i)]))
        elif k == "ext":
            x = r.choice([None, 0, {"a": []}, "s"])
            nxt = {**jx(cur), "x-step": x}
            do = lambda x=x: setattr(m, "x-step", x)  # noqa: E731
        elif k == "servers":
            sv = {f"s{step}": {"host": "h", "protocol": "p"}, "root": {"host": "", "protocol": ""}}
            nxt, do = setj(cur, "servers", sv), lambda sv=sv: setattr(m, "servers", jx(sv))
        elif k == "none":
            nxt, do = setj(cur, "channels", None), lambda: setattr(m, "channels", None)
        elif k == "same":
            nxt, do = cur, lambda: setattr(m, "info", m.info)
        elif k == "revalidate":
            nxt, do, spec = cur, lambda: Root.model_validate(m), None
        else:
            old = pl.vals
            pl.vals = r.sample(pl.vals, len(pl.vals))
            nxt, do = cur, lambda: setattr(m, "extra_validators", [v[1] for v in pl.vals])
        want, final = pl.expect(nxt)
        if canon(nxt) is None or canon(final) is None:
            if k == "lists":
                pl.vals = old
            continue
        st, e = lib.attempt(do)
        case.check(st == "ok", "run-failed", lambda: f"{what}: {e!s:.300}", d)
        m = e if k == "revalidate" else m
        judge_run(case, pl, nxt, tr.events, tr.inits, m if spec is None else spec, what, d)
        cur = final
        case.check(deep_eq(lib.dump(m), canon(cur)), "changes-lost", lambda: f"{what}: {first_diff(canon(cur), lib.dump(m))}", d)
        case.see("history:" + k)
    case.distinct("history", d, [[e.name for e in c[2]] for c in pl.convs])


def settle(m):
    out = lib.dump(m)
    return out if canon(out) is not None else None


def nested(case):
    """Processors that validate, copy and assign other documents while running."""
    r = case.rng
    d, e = small(case), small(case)
    if d is None or e is None:
        return
    outer, inner = Trace(case.i), Trace(case.i)
    ic, iv = tracing(inner, "ic"), tracing(inner, "iv")
    mode = r.choice(["parse", "assign-other", "copy", "deepcopy", "revalidate-self", "builder", "dump-parse"])
    live = Root.model_validate({**jx(e), "extra_converters": [ic], "extra_validators": [iv]})
    inner.events.clear()
    seen = {}

    def act(spec):
        if outer.depth:
            return
        outer.depth += 1
        try:
            if mode == "parse":
                seen["m"] = Root.model_validate({**jx(e), "extra_converters": [ic], "extra_validators": [iv]})
            elif mode == "assign-other":
                live.default_content_type = "from/inside"
                seen["m"] = live
            elif mode == "copy":
                c = spec.model_copy()
                n = len(outer.events)
                c.default_content_type = "copy/only"
                seen["ran"] = [x[0] for x in outer.events[n:]]
                seen["docs"] = all(x[2] is c for x in outer.events[n:])
                del outer.events[n:]
            elif mode == "deepcopy":
                c = copy.deepcopy(spec)
                n = len(outer.events)
                c.default_content_type = "copy/only"
                seen["ran"] = [x[0] for x in outer.events[n:]]
                seen["docs"] = all(x[2] is c for x in outer.events[n:])
                del outer.events[n:]
            elif mode == "revalidate-self":
                n = len(outer.events)
                c = Root.model_validate(spec)
                seen["ran"] = [x[0] for x in outer.events[n:]]
                seen["docs"] = all(x[2] is c for x in outer.events[n:])
                del outer.events[n:]
            elif mode == "builder":
                c = Root.as_builder(title="inner", extra_validators=[iv], extra_converters=[ic])
                seen["m"] = c
            else:
                seen["m"] = Root.model_validate({**lib.dump(spec), "extra_converters": [ic], "extra_validators": [iv]})
        finally:
            outer.depth -= 1

    c0, c1, v0 = tracing(outer, "c0"), tracing(outer, "c1", act), tracing(outer, "v0")
    where = r.choice(["converter", "validator"])
    kw = {"extra_converters": [c0, c1] if where == "converter" else [c0], "extra_validators": [v0] if where == "converter" else [c1, v0]}
    how = r.choice(["parse", "assign"])
    if how == "parse":
        st, m = lib.attempt(lambda: Root.model_validate({**jx(d), **kw}))
    else:
        m = Root.model_validate(jx(d))
        m.__dict__.update(kw)
        st, x = lib.attempt(setattr, m, "default_content_type", "a/b")
        d = setj(d, "defaultContentType", "a/b")
        m = m if st == "ok" else x
    what = f"processor doing {mode} inside a {where} by {how}"
    case.check(st == "ok", "run-failed", lambda: f"{what}: {m!s:.300}", d)
    got = [x[0] for x in outer.events]
    case.check(got == ["c0", "c1", "v0"], "order", lambda: f"{what}: ran {got}", d)
    case.check(all(x[2] is m for x in outer.events), "another-document", what, d)
    if "ran" in seen:
        case.check(seen["ran"] == ["c0", "c1", "v0"] and seen["docs"], "order", lambda: f"{what}: on the other document ran {seen['ran']}", d)
    else:
        got = [x[0] for x in inner.events]
        case.check(got == ["ic", "iv"], "order", lambda: f"{what}: on the other document ran {got}", d)
        case.check(all(x[2] is seen["m"] for x in inner.events), "another-document", what, d)
    case.check(deep_eq(lib.dump(m), canon(d)), "changes-lost", lambda: f"{what}: {first_diff(canon(d), lib.dump(m))}", d)
    # and the next validation is a normal one again
    outer.depth = 1
    for doc, tr, want in ((m, outer, ["c0", "c1", "v0"]), (live, inner, ["ic", "iv"])):
        tr.events.clear()
        doc.default_content_type = "again/1"
        got = [x[0] for x in tr.events]
        case.check(got == want, "order", lambda: f"after {what}: next assignment ran {got}", d)
    case.see("nested:" + mode)
    case.state("nested", mode, where, how)


def inner_failures(case):
    """A processor whose own assignment fails: caught, the document is untouched and the run goes on."""
    r = case.rng
    d = small(case)
    if d is None:
        return
    tr = Trace(case.i)
    f, val = r.choice([("info", {}), ("asyncapi", "1"), ("servers", {"": 1}), ("id", "x"), ("components", []), ("x y", 1)])

    def act(spec):
        before = lib.dump(spec)
        try:
            setattr(spec, f, val)
        except ValueError:
            case.check(deep_eq(lib.dump(spec), before), "rejected-but-changed", f"{f} = {val!r} inside a processor", d)
            case.see("inner-failure")
        else:
            case.fail("bad-assignment", f"{f} = {val!r} accepted inside a processor", d)

    kw = {"extra_converters": [tracing(tr, "c0"), tracing(tr, "c1", act)], "extra_validators": [tracing(tr, "v0", act), tracing(tr, "v1")]}
    m = Root.model_validate({**jx(d), **kw})
    case.check([x[0] for x in tr.events] == ["c0", "c1", "v0", "v1"], "order", lambda: f"ran {[x[0] for x in tr.events]}", d)
    case.check(deep_eq(lib.dump(m), canon(d)), "changes-lost", lambda: first_diff(canon(d), lib.dump(m)), d)


def bundled(case):
    """Converters that add or repair references before the bundled validators look at the document."""
    r = case.rng
    d = consistent_doc(case)
    if d is None:
        return
    b = broken_doc(case, d)
    if b is None:
        return
    tr = Trace(case.i)
    swap = [k for k in ("info", "servers", "channels", "operations", "components") if b[0].get(k) != d.get(k)]
    V = lib.UnifiedReferencesValidator

    def repair(spec):
        for k in swap:
            setattr(spec, k, jx(d.get(k)))

    def spoil(spec):
        for k in swap:
            setattr(spec, k, jx(b[0].get(k)))
    R, S = tracing(tr, "repair", repair), tracing(tr, "spoil", spoil)
    after = tracing(tr, "after")
    for start, convs, vals, want in ((b[0], [R], [V, after], "ok"), (d, [S], [V, after], "invalid"), (d, [S, R], [V, after], "ok"), (b[0], [R, S], [V, after], "invalid"), (b[0], [], [after, V], "invalid")):
        tr.events.clear()
        st, e = lib.attempt(Root.model_validate, {**jx(start), "extra_converters": convs, "extra_validators": vals})
        case.check(st == want, "validators-missed-converter-effects", lambda: f"{[c.__name__ for c in convs]} then {[v.__name__ for v in vals]}: {st} {e!s:.300}, expected {want}", [start, d])
        ran = "after" in [x[0] for x in tr.events]
        case.check(ran == (want == "ok" or vals[0] is after), "ran-after-veto", f"validator after a refusing one ran: {ran}", d)
    m = Root.model_validate(jx(d))
    before = lib.dump(m)
    for name in sorted(bundled_validators.__all__):
        st, got = lib.attempt(lambda: getattr(bundled_validators, name)()(m))
        if st != "ok":
            # What each of them accepts is the matter of P18 to P25.
            continue
        case.check(got is m, "processor-result", lambda: f"{name} returns {type(got).__name__}, not the document it was given", d)
        case.check(deep_eq(lib.dump(m), before), "processor-result", lambda: f"{name} changes the document: {first_diff(before, lib.dump(m))}", d)
        case.see("called")
    case.see("bundled")


def contexts(case):
    """Contexts copied while processors run: inside the run they belong to it, afterwards they do not."""
    r = case.rng
    d = small(case)
    if d is None:
        return
    tr = Trace(case.i)
    box = {}
    where = r.choice(["converter", "validator"])
    mode = r.choice(["later", "task", "thread-later", "inside", "inside-task"])

    def act(spec):
        if box:
            return
        box["ctx"] = contextvars.copy_context()
        if mode == "inside":
            contextvars.copy_context().run(setattr, spec, "default_content_type", "in/side")
        elif mode == "inside-task":
            async def job():
                spec.default_content_type = "in/side"
            asyncio.run(job())
        elif mode == "task":
            async def job():
                await asyncio.sleep(0)
                box["doc"].default_content_type = "late/r"
            box["task"] = asyncio.get_running_loop().create_task(job())

    c0, c1, v0 = tracing(tr, "c0"), tracing(tr, "c1", act), tracing(tr, "v0")
    kw = {"extra_converters": [c0, c1] if where == "converter" else [c0], "extra_validators": [v0] if where == "converter" else [c1, v0]}
    if mode == "task":
        async def main():
            box_doc = Root.model_validate({**jx(d), **kw})
            box["doc"] = box_doc
            n = len(tr.events)
            await box["task"]
            return box_doc, n
        m, n = asyncio.run(main())
    else:
        m = Root.model_validate({**jx(d), **kw})
        n = len(tr.events)
        if mode == "later":
            box["ctx"].run(setattr, m, "default_content_type", "late/r")
        elif mode == "thread-later":
            t = threading.Thread(target=box["ctx"].run, args=(setattr, m, "default_content_type", "late/r"))
            t.start()
            t.join()
    got = [x[0] for x in tr.events]
    want = ["c0", "c1", "v0"]
    case.check(got[:n] == want, "order", lambda: f"{mode} in a {where}: first ran {got[:n]}", d)
    if mode not in ("inside", "inside-task"):
        case.check(got[n:] == want, "order", lambda: f"assignment from a context copied during the run ({mode}, {where}) ran {got[n:]}", d)
    dd = setj(d, "defaultContentType", "in/side" if "inside" in mode else "late/r")
    case.check(deep_eq(lib.dump(m), canon(dd)), "changes-lost", lambda: f"{mode}: {first_diff(canon(dd), lib.dump(m))}", d)
    case.state("contexts", mode, where)


def listing(case):
    """What may be put into the lists."""
    r = case.rng
    d = {"info": {"title": "t", "version": "1"}}
    tr = Trace(case.i)
    good = tracing(tr, "g", duck=r.random() < 0.5)
    for lst in ("extra_converters", "extra_validators"):
        for val, ok in ((None, True), ([], True), ([good], True), ([good, good], True), ([lib.Noop], True), ([object()], False), ([5], False), (["x"], False), ([int], None), ([lambda s: s], False), (good, False), ([good()], False), ({"a": good}, False), ([None], False)):
            if ok is None:
                continue
            tr.events.clear()
            st, e = lib.attempt(Root.model_validate, {**d, lst: val})
            case.check((st == "ok") == ok and st != "crash", "processor-list", lambda: f"{lst}={val!r:.80}: {st} {e!s:.200}", d)
            n = 0 if not ok or not val else sum(1 for v in val if v is good)
            case.check(len(tr.events) == n, "order", lambda: f"{lst}={val!r:.80}: {len(tr.events)} calls", d)
    schema = Root.model_json_schema()
    text = str(schema)
    case.check("extra_converters" not in text and "extra_validators" not in text and "extraConverters" not in text, "processors-in-schema", "the schema names a processor list")
    for mode in ("validation", "serialization"):
        for al in (True, False):
            props = Root.model_json_schema(mode=mode, by_alias=al)["properties"]
            case.check(not [k for k in props if "extra" in k.lower()], "processors-in-schema", f"{mode}: {sorted(props)}")
    case.see("listing")


FACTOR = 3
STAGES = {"single": (single, 500, 20000), "vetoes": (vetoes, 500, 20000), "invalid": (invalid, 300, 15000), "histories": (histories, 300, 12000), "nested": (nested, 250, 8000), "inner_failures": (inner_failures, 60, 2000),
          "bundled": (bundled, 60, 3000), "contexts": (contexts, 60, 1500), "listing": (listing, 4, 20)}
FLOORS = {"calls": 3000, "state:effects": 11, "history:refuse": 60, "history:crash": 60, "state:nested": 24, "bundled": 25, "called": 400, "state:vetoes": 100, "listing": 4, "inner-failure": 60, "state:contexts": 8}
