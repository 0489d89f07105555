"""Assignment histories on one live object, monitored against the reference model."""

import copy

from rv import gen, lib
from rv.spec import CATALOG, deep_eq, first_diff, interpret, walk_live
from rv.util import JUNK, T, build


def snapshot(m):
    return lib.dump(m), set(m.model_fields_set), copy.deepcopy(m)


class History:
    def __init__(self, case, name, start, fresh_every=1):
        self.case, self.name = case, name
        self.c = CATALOG[name]
        self.cur = gen.jx(start)
        self.m = lib.cls(name).model_validate(gen.jx(start))
        self.log = []
        self.fresh_every = fresh_every

    def step(self, f, val, absent_means_none=True):
        """Assign `val` (JSON value, or None) to field f; returns 'ok', 'bad' or None when skipped."""
        case, name, j = self.case, self.name, f["json"]
        if val is None:
            if f["type"][0] == "any" or ("default" in f and f.get("null")):
                return None
            if f.get("null"):
                nxt = {k: v for k, v in self.cur.items() if k != j}
                if f.get("emit") == "always":
                    nxt[j] = None
            else:
                nxt = {**self.cur, j: None}
        else:
            nxt = {**self.cur, j: val}
        v = interpret(T(name), nxt)
        if v.status == "gray":
            return None
        live = gen.jx(val)
        if v.status == "ok" and val is not None and case.rng.random() < 0.5:
            live = build(case.rng, f["type"], val)
        before = snapshot(self.m)
        ids = {k: id(x) for k, x in self.m.__dict__.items()}
        st, e = lib.attempt(setattr, self.m, f["py"], live)
        self.log.append([f["py"], val if len(repr(val)) < 80 else "...", st])
        what = lambda: f"{name}.{f['py']} = {val!r:.100} after {self.log[-6:]}: {st} {e!s:.300}; oracle {v.status} {v.why}"  # noqa: E731
        case.check(st != "crash", "wrong-exception", what, self.log)
        case.check((st == "ok") == (v.status == "ok"), "assignment-decision", what, self.log)
        if st == "ok":
            self.cur = nxt
            case.check(set(self.m.model_fields_set) == before[1] | {f["py"]}, "fields-set", lambda: f"{what()} -> fields set {sorted(self.m.model_fields_set)}, before {sorted(before[1])}", self.log)
            self.agree(v.canon, what)
            case.see("assigned")
        else:
            self.unchanged(before, ids, what)
            case.see("rejected")
        return v.status

    def ext(self, key, val):
        nxt = {**self.cur, key: val}
        v = interpret(T(self.name), nxt)
        if v.status == "gray" or self.c["kind"] == "free":
            return None
        before = snapshot(self.m)
        ids = {k: id(x) for k, x in self.m.__dict__.items()}
        st, e = lib.attempt(setattr, self.m, key, gen.jx(val))
        self.log.append([key, val, st])
        what = lambda: f"{self.name} extension {key!r} after {self.log[-6:]}: {st} {e!s:.300}; oracle {v.status} {v.why}"  # noqa: E731
        self.case.check(st != "crash", "wrong-exception", what, self.log)
        self.case.check((st == "ok") == (v.status == "ok"), "assignment-decision", what, self.log)
        if st == "ok":
            self.cur = nxt
            self.agree(v.canon, what)
            self.case.see("assigned-extension")
        else:
            self.unchanged(before, ids, what)
            self.case.see("rejected-extension")
        return v.status

    def agree(self, canon, what):
        case, m = self.case, self.m
        d = walk_live(T(self.name), canon, m)
        case.check(d is None, "state-after-assignment", lambda: f"{what()} -> {d}", self.log)
        out = lib.dump(m)
        case.check(deep_eq(out, canon), "dump-after-assignment", lambda: f"{what()} -> {first_diff(canon, out)}", self.log)
        fresh = lib.cls(self.name).model_validate(gen.jx(self.cur))
        case.check(fresh == m and m == fresh, "not-equal-to-fresh", lambda: f"{what()} -> differs from a freshly built object", self.log)

    def unchanged(self, before, ids, what):
        case, m = self.case, self.m
        out = lib.dump(m)
        case.check(deep_eq(out, before[0]), "rejected-but-changed", lambda: f"{what()} -> {first_diff(before[0], out)}", self.log)
        case.check(set(m.model_fields_set) == before[1], "rejected-but-fields-set-changed", lambda: f"{what()} -> {set(m.model_fields_set) ^ before[1]}", self.log)
        case.check(m == before[2] and before[2] == m, "rejected-but-unequal", what, self.log)
        d = walk_live(T(self.name), interpret(T(self.name), self.cur).canon, m)
        case.check(d is None, "rejected-but-attributes-changed", lambda: f"{what()} -> {d}", self.log)


def twin(r, x):
    """A value Python calls equal to x: the same again, or of another type."""
    if isinstance(x, list):
        return [twin(r, y) for y in x]
    if isinstance(x, dict):
        return {k: twin(r, y) for k, y in x.items()}
    if isinstance(x, bool):
        return r.choice([x, int(x), float(x)])
    if isinstance(x, (int, float)) and x in (0, 1):
        return r.choice([x, bool(x), float(x), int(x)])
    if isinstance(x, (int, float)) and abs(x) < 2**53 and x == int(x):
        return r.choice([x, float(x), int(x)])
    return x


def random_value(case, f, goal, junk=0.35, cur=None):
    """A value for a field: equal to the current one, from a goal document, junk, boundary, or None."""
    from rv.util import falsy_values

    r = case.rng
    if cur is not None and r.random() < 0.2:
        now = cur.get(f["json"], f.get("default"))
        if now is not None:
            case.see("equal-value")
            return gen.jx(now) if r.random() < 0.4 else twin(r, now)
    x = r.random()
    if x < 0.15:
        return None
    if x < 0.15 + junk:
        y = r.random()
        if y < 0.5:
            return gen.jx(r.choice(JUNK))
        if y < 0.75:
            fv = falsy_values(f["type"])
            return gen.jx(r.choice(fv)) if fv else gen.jx(r.choice(JUNK))
        return gen.jx(gen.bad_scalar(r, f["type"], gen.Gen(r, p=0.3, depth=2).gen(f["type"])))
    if f["json"] in goal and x < 0.8:
        return gen.jx(goal[f["json"]])
    g = gen.Gen(r, p=0.4, depth=2)
    v = g.gen(f["type"])
    if r.random() < 0.2:
        v, _ = gen.mutate(r, f["type"], v)
    return v
