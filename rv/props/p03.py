"""P03: parse -> dump -> parse is lossless; different documents give different models."""

import json

from rv import gen, lib
from rv.spec import deep_eq, first_diff, interpret
from rv.util import FIELDS, NAMES, ROOT, T, accept, cover, dump_is, falsy_values, fix_min, map_order, rand_doc, rand_instance, scale, texts, SCALED, TEXT_FIELDS

RULE = ("a case is a conforming value (no explicit nulls for optional fields); distinct values counted; each is parsed, dumped in three "
        "modes, compared with the oracle's canonical form, parsed again and compared with the first model; near-copies must differ")


def plain(x):
    """model_dump() output with URL objects as strings."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (bool, int, float)):
        return x
    return str(x)


def roundtrip(case, name, x, canon):
    c = lib.cls(name)
    m = accept(case, lambda: c.model_validate(x), name, x)
    out = dump_is(case, canon, m, f"{name} JSON-mode dump", x)
    where = map_order(T(name), canon, out)
    case.check(where is None, "order-differs", lambda: f"{name}: map order changed at {where}", x)
    text = lib.dumps(m)
    back = json.loads(text)
    case.check(deep_eq(canon, back), "json-dump-differs", lambda: f"{name}: {first_diff(canon, back)}", x)
    py = m.model_dump()
    case.check(deep_eq(canon, plain(py)), "python-dump-differs", lambda: f"{name}: {first_diff(canon, plain(py))}", x)
    for how, fn in (("dict", lambda: c.model_validate(out)), ("json", lambda: c.model_validate_json(text)), ("python", lambda: c.model_validate(py))):
        m2 = accept(case, fn, f"{name} own dump ({how})", out)
        case.check(m2 == m and m == m2 and not (m != m2), "reparse-not-equal", lambda: f"{name}: reparsed {how} dump is not equal", x)
        case.check(deep_eq(lib.dump(m2), out), "second-dump-differs", lambda: f"{name}: {how}: {first_diff(out, lib.dump(m2))}", x)
    case.distinct(name, x)
    return m


def docs(case):
    d, canon = rand_doc(case)
    if d is None:
        return
    cover(case, T(ROOT), d)
    m = roundtrip(case, ROOT, d, canon)
    differ(case, ROOT, d, canon, m)
    case.sample(canon)


def differ(case, name, d, canon, m):
    """A model of any other document is not equal."""
    for _ in range(3):
        y = gen.jx(d)
        if case.rng.random() < 0.3:
            y, _ = gen.mutate(case.rng, T(name), y)
        tweak(case.rng, y)
        v = interpret(T(name), y)
        if v.status != "ok" or v.canon == canon:
            continue
        m2 = accept(case, lambda: lib.cls(name).model_validate(y), name, y)
        case.check(m2 != m and not (m2 == m), "different-equal", lambda: f"{name}: models of different documents are equal: {first_diff(canon, v.canon)}", [d, y])
        case.see("told-apart")


def tweak(rng, y):
    """Change one scalar somewhere."""
    cand = [(p, x) for p, x in gen.sites(y) if p and isinstance(x, str) and p[-1] != "$ref" or p and isinstance(x, bool)]
    if not cand:
        return
    p, x = rng.choice(cand)
    gen.set_at(y, p, (not x) if isinstance(x, bool) else x + "~")


def instances(case):
    name = NAMES[case.i % len(NAMES)]
    x, canon = rand_instance(case, name, ["min", "max", "random"][case.i // len(NAMES) % 3])
    if x is None:
        return
    cover(case, T(name), x)
    m = roundtrip(case, name, x, canon)
    differ(case, name, x, canon, m)


def fields(case):
    name, f = FIELDS[case.i % len(FIELDS)]
    g = gen.Gen(case.rng, p=0.5, depth=3)
    vals = falsy_values(f["type"]) + [g.gen(f["type"]) for _ in range(3)]
    if f["type"][0] == "list":
        vals.append([g.gen(f["type"][1]) for _ in range(case.rng.choice([2, 5, 40]))])
        one = g.gen(f["type"][1])
        vals.append([one, gen.jx(one), gen.jx(one)])
    for x in vals:
        base = fix_min(case, name, f["json"], x)
        v = interpret(T(name), base)
        if v.status == "ok" and base.get(f["json"]) is not None:
            roundtrip(case, name, base, v.canon)
            case.state("fields_probed", name, f["json"])


def words(case):
    texts(case, lambda name, y, canon, what: roundtrip(case, name, y, canon))


def large(case):
    scale(case, lambda name, y, canon, what: roundtrip(case, name, y, canon))


STAGES = {"words": (words, len(TEXT_FIELDS), len(TEXT_FIELDS) * 24), "large": (large, len(SCALED) // 3, len(SCALED) * 4), "docs": (docs, 900, 40000), "instances": (instances, 1776, 50000), "fields": (fields, len(FIELDS) * 2, len(FIELDS) * 40)}
FLOORS = {"text:ok": 10000, "scale:ok": 500, "state:text_fields": 100, "state:scaled": 130, "state:objects": 148, "state:fields": 450, "state:fields_probed": 455, "accepted": 12000, "told-apart": 500}
