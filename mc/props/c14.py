"""C14: every validator runs on every path that lets a value in or out."""

import array
import functools
import io

from mc.items import KINDS
from mc.items import U8
from mc.lib import attempt
from mc.lib import fail
from mc.lib import same
from mc.lib import short
from mc.lib import stream_at
from mc.model import Arr
from mc.model import FS
from mc.model import Int
from mc.model import Nest
from mc.model import plain
from mc.model import Raw
from mc.model import Spec
from mc.model import StrZ
from mc.model import Uni

BOUNDS = {
    "quick": "all pairs of 18 validator placements (on a field, in a list, methods for one or"
    " several fields, for inherited fields, whole-structure; at three levels of inheritance)"
    " x 5 mixtures of declaration styles x 9 containers (bare, nested once and twice, arrays"
    " of structures, unions, in a parent, conditional); each validator rejecting each of its"
    " fields in turn, on 16 paths; every field kind x 8 placements; 9 forms of callables;"
    " computed, default, constant, discarded, conditional fields; elements of arrays given as 22"
    " sorts of iterable in 4 operations; what validators of fields and of the structure see of 7"
    " sorts of fields, discarded or not, in 5 places; methods that validate every subset of 6"
    " fields, in 3 orders and 4 places",
    "thorough": "all triples of placements",
}
ASSUMPTIONS = [
    "whether method and structure validators also run on assignment is unspecified",
    "a structure that contains the rejected one may have been written up to it",
]


class Log:
    def __init__(self):
        self.calls = []

    def of(self, ident):
        return [c[1:] for c in self.calls if c[0] == ident]


def rejection(ident):
    from binobj import errors

    class Reject(errors.ValidationError):
        def __init__(self, field, value):
            super().__init__(field=field, value=value)
            self.ident = ident

    return Reject


# Placements: (level of the class it's declared in, form, fields)
PLACEMENTS = [
    (0, "field", ("x",)),
    (0, "field", ("y",)),
    (0, "list", ("x",)),
    (0, "method", ("x",)),
    (0, "method", ("y",)),
    (0, "method", ("x", "y")),
    (0, "struct", ("x", "y")),
    (1, "field", ("z",)),
    (1, "list", ("z",)),
    (1, "method", ("z",)),
    (1, "method", ("x",)),
    (1, "method", ("z", "x")),
    (1, "struct", ("x", "z")),
    (2, "field", ("w",)),
    (2, "method", ("w",)),
    (2, "method", ("y", "z")),
    (2, "method", ("y",)),
    (2, "struct", ("x", "w")),
]
OWN = [("x", "y"), ("z",), ("w",)]
STYLES = [
    ("assign", "assign", "assign"),
    ("notes", "notes", "notes"),
    ("assign", "notes", "assign"),
    ("notes", "assign", "notes"),
    ("assign", "assign", "notes"),
]


def declare(placements, styles, log):
    """The classes of all levels."""
    import binobj
    from binobj import decorators
    from binobj import fields as F

    def judge(ident, targets):
        reject = rejection(ident)
        bad = 100 + ident

        def on_field(field, value):
            log.calls.append((ident, "field", field.name, value))
            if value == bad:
                raise reject(field, value)

        def on_method(self, field, value):
            log.calls.append((ident, "method", field.name, value, type(self)))
            if value == bad:
                raise reject(field, value)

        def on_struct(self, contents):
            log.calls.append((ident, "struct", tuple(contents[t] for t in targets), type(self)))
            for t in targets:
                if contents[t] == bad:
                    raise reject(t, bad)

        return on_field, on_method, on_struct

    classes, base = [], binobj.Struct
    top = max([p[0] for p in placements] + [1])
    for level in range(top + 1):
        ns = {"__module__": __name__, "__qualname__": f"L{level}"}
        on_fields = {n: [] for n in OWN[level]}
        methods = {}
        for ident, (lv, form, targets) in enumerate(placements):
            if lv != level:
                continue
            on_field, on_method, on_struct = judge(ident, targets)
            if form in ("field", "list"):
                on_fields[targets[0]].append((form, on_field))
            elif form == "method":
                methods[f"m{ident}"] = decorators.validates(*targets)(on_method)
            else:
                methods[f"m{ident}"] = decorators.validates_struct(on_struct)
        notes = {}
        for name, fns in on_fields.items():
            kw = {}
            if len(fns) == 1 and fns[0][0] == "field":
                kw["validate"] = fns[0][1]
            elif fns:
                kw["validate"] = [lambda field, value: None] + [fn for _f, fn in fns]
            notes[name] = F.UInt8(**kw)
        if styles[level] == "assign":
            ns.update(notes)
        else:
            ns["__annotations__"] = notes
        ns.update(methods)
        cls = type(base)(f"L{level}", (base,), ns)
        if styles[level] != "assign":
            cls = binobj.dataclass(cls)
        classes.append(cls)
        base = cls
    return classes


def o_bare(cls):
    return None


def outer(make_field, present=False):
    import binobj
    from binobj import fields as F

    def build(cls):
        class O(binobj.Struct):
            a = F.UInt8()
            v = make_field(F, cls)
            b = F.UInt8()

        return O

    return build


def o_nested(cls):
    return outer(lambda F, c: F.Nested(c))(cls)


def o_nested2(cls):
    return outer(lambda F, c: F.Nested(outer(lambda F, c: F.Nested(c))(c)))(cls)


def o_array(cls):
    return outer(lambda F, c: F.Array(F.Nested(c), count=2))(cls)


def o_halt(cls):
    def stop(seq, stream, values, context, loaded):
        return len(values) >= 2

    return outer(lambda F, c: F.Array(F.Nested(c), halt_check=stop))(cls)


def o_union(cls):
    def pick(_data, classes, _context, _fields):
        return classes[1]

    class Other(_struct()):
        q = _fields().UInt8()

    return outer(lambda F, c: F.Union(Other, c, load_decider=pick, dump_decider=pick))(cls)


def o_union_nested(cls):
    def pick(_data, classes, _context, _fields):
        return classes[1]

    return outer(
        lambda F, c: F.Union(F.UInt8(), F.Nested(c), load_decider=pick, dump_decider=pick)
    )(cls)


def o_parent(cls):
    import binobj
    from binobj import fields as F

    class P(binobj.Struct):
        a = F.UInt8()
        v = F.Nested(cls)

    class O(P):
        b = F.UInt8()

    return O


def o_conditional(cls):
    return outer(lambda F, c: F.Nested(c, present=lambda v, *_: v["a"] == 1))(cls)


def o_annotated(cls):
    import binobj
    from binobj import fields as F

    ns = {"__module__": __name__, "__annotations__": {"a": F.UInt8, "v": cls, "b": F.UInt8}}
    return binobj.dataclass(type(binobj.Struct)("O", (binobj.Struct,), ns))


def _struct():
    import binobj

    return binobj.Struct


def _fields():
    from binobj import fields

    return fields


OUTERS = [
    o_bare,
    o_nested,
    o_nested2,
    o_array,
    o_halt,
    o_union,
    o_union_nested,
    o_parent,
    o_conditional,
    o_annotated,
]


def contents(how, cls, good, bad, as_instance):
    """[(values of the outer structure, its bytes)] with ``bad`` inside."""
    make = (lambda v: cls(**v)) if as_instance else dict
    raw = lambda v: bytes(v.values())  # noqa: E731
    if how in (o_array, o_halt):
        return [
            ({"a": 1, "v": [make(p), make(q)], "b": 2}, b"\1" + raw(p) + raw(q) + b"\2")
            for p, q in ((good, bad), (bad, good))
        ]
    if how is o_nested2:
        values = {"a": 1, "v": {"a": 3, "v": make(bad), "b": 4}, "b": 2}
        return [(values, b"\1\3" + raw(bad) + b"\4\2")]
    return [({"a": 1, "v": make(bad), "b": 2}, b"\1" + raw(bad) + b"\2")]


def placed_body(n):
    def placed(ch, rec):
        styles = ch.choose(STYLES)
        how = ch.choose(OUTERS)
        placements = []
        first = 0
        for _ in range(n):
            i = first + ch.pick(len(PLACEMENTS) - first)
            placements.append(PLACEMENTS[i])
            first = i
        log = Log()
        classes = declare(placements, styles, log)
        cls = classes[-1]
        names = [m for lv in range(len(classes)) for m in OWN[lv]]
        good = {m: 10 + i for i, m in enumerate(names)}
        rec.case = lambda: f"{placements} {styles} {how.__name__}"
        rec.state(placements, styles, how.__name__)
        rec.sample(f"{placements} {styles} {how.__name__}")
        run = judge_bare if how is o_bare else functools.partial(judge_outer, how)
        if how is o_bare:
            judge_parents(classes, placements, rec)
        run(cls, placements, good, good, None, None, log, rec)
        for ident, (_lv, form, targets) in enumerate(placements):
            for t in targets:
                bad = {**good, t: 100 + ident}
                rec.case = lambda: f"{placements} {styles} {how.__name__} {t}={100 + ident}"
                run(cls, placements, good, bad, ident, t, log, rec)
        rec.traced()

    return placed


def judged(op, run, ident, log, rec):
    log.calls.clear()
    how, got = attempt(run)
    rec.step()
    if ident is None:
        if how != "ok":
            fail(f"{op}: all values are fine but it raises {got!r}")
    elif how == "ok":
        fail(f"{op}: validator {ident} rejects the value but nothing is raised")
    elif getattr(got, "ident", None) != ident:
        fail(f"{op}: validator {ident} rejects the value but {got!r} is raised")
    return got


def judge_parents(classes, placements, rec):
    """The validators a subclass adds don't concern its parents."""
    for level, cls in enumerate(classes[:-1]):
        names = [m for lv in range(level + 1) for m in OWN[lv]]
        for ident, (lv, _form, targets) in enumerate(placements):
            for t in targets:
                if lv > level and t in names:
                    values = {m: 10 for m in names}
                    values[t] = 100 + ident
                    how, got = attempt(lambda: cls.from_bytes(cls(**values).to_bytes()))
                    if how != "ok":
                        fail(f"the parent is affected by the child's validator {ident}: {got!r}")
                    rec.step()


def judge_bare(cls, placements, good, values, ident, target, log, rec):
    raw = bytes(values.values())
    form = placements[ident][1] if ident is not None else None
    at_field = ident if form in ("field", "list") else None
    everything = {
        "to_bytes": lambda: cls(**values).to_bytes(),
        "bytes": lambda: bytes(cls(**values)),
        "validate_contents": lambda: cls(**values).validate_contents(),
        "from_bytes": lambda: cls.from_bytes(raw),
        "from_bytes not exact": lambda: cls.from_bytes(raw + b"zz", exact=False),
        "from_stream": lambda: cls.from_stream(stream_at(raw, b"123", b"4")),
        "init_kwargs": lambda: cls.from_bytes(bytes(good.values()), init_kwargs=values),
    }
    for op, run in everything.items():
        judged(op, run, ident, log, rec)
        if ident is None and op != "init_kwargs":
            all_called(op, cls, placements, values, log)
    out = io.BytesIO()
    judged("to_stream", lambda: cls(**values).to_stream(out), ident, log, rec)
    if ident is not None and out.getvalue():
        fail(f"to_stream is rejected but writes {short(out.getvalue())}")
    if ident is not None:
        # Contents that became invalid after construction.
        later = cls(**good)
        if form in ("method", "struct"):
            setattr(later, target, values[target])
            judged("to_bytes after assigning", later.to_bytes, ident, log, rec)
    if form in ("field", "list") or ident is None:
        t = target or "x"
        paths = {
            "get_field": lambda: cls.get_field(stream_at(raw, b"12"), t),
            "partial_load": lambda: cls.partial_load(stream_at(raw), t),
            "partial_load all": lambda: cls.partial_load(stream_at(raw)),
            "partial_dump": lambda: cls(**values).partial_dump(io.BytesIO(), t),
            "field.to_bytes": lambda: getattr(cls, t).to_bytes(values[t]),
            "field.from_bytes": lambda: getattr(cls, t).from_bytes(bytes([values[t]])),
        }
        for op, run in paths.items():
            judged(op, run, at_field, log, rec)
        assigning(cls, good, t, values[t], at_field, log, rec)


def assigning(cls, good, target, value, ident, log, rec):
    from binobj.structures import MutableStructMappingProxy

    def by_key(inst):
        inst[target] = value

    def by_proxy(inst):
        MutableStructMappingProxy(inst)[target] = value

    def by_update(inst):
        MutableStructMappingProxy(inst).update({target: value})

    ways = (lambda inst: setattr(inst, target, value), by_key, by_proxy, by_update)
    for make in (lambda: cls(**good), lambda: cls.from_bytes(bytes(good.values()))):
        for way in ways:
            inst = make()
            before = {n: inst[n] for n in inst}
            judged(f"assigning {way.__name__}", lambda: way(inst), ident, log, rec)
            if ident is not None:
                same({n: inst[n] for n in inst}, before, "after a rejected assignment")
                if inst.to_bytes() != bytes(good.values()):
                    fail("a rejected assignment changed what's dumped")
            elif inst[target] != value:
                fail(f"an accepted assignment reads back as {inst[target]!r}")


def all_called(op, cls, placements, values, log):
    for ident, (_lv, form, targets) in enumerate(placements):
        calls = log.of(ident)
        if form == "struct":
            want = tuple(values[t] for t in targets)
            if not any(c[1] == want for c in calls):
                fail(f"{op}: structure validator {ident} isn't run on {want}: {calls}")
        for t in targets if form != "struct" else ():
            if not any(c[1] == t and c[2] == values[t] for c in calls):
                fail(f"{op}: validator {ident} isn't run for {t}: {calls}")
        for c in calls:
            if form == "method" and c[3] is not cls:
                fail(f"{op}: validator method {ident} is run on a {c[3]}")
            if form != "struct" and (c[1] not in targets or c[2] != values[c[1]]):
                fail(f"{op}: validator {ident} is run for {c}")


def judge_outer(how, cls, placements, good, values, ident, target, log, rec):
    out_cls = how(cls)
    for as_instance in (False, True):
        if as_instance and how is o_union:
            continue
        for assign, raw in contents(how, cls, good, values, as_instance):
            tag = f"{how.__name__} {'instance' if as_instance else 'dict'}"
            ops = {
                "to_bytes": lambda: out_cls(**assign).to_bytes(),
                "from_bytes": lambda: out_cls.from_bytes(raw),
                "from_stream": lambda: out_cls.from_stream(stream_at(raw, b"1")),
                "get_field": lambda: out_cls.get_field(stream_at(raw, b"1"), "v"),
                "partial_load": lambda: out_cls.partial_load(stream_at(raw), "v"),
                "partial_dump": lambda: out_cls(**assign).partial_dump(io.BytesIO(), "v"),
            }
            for op, run in ops.items():
                judged(f"{tag} {op}", run, ident, log, rec)
                if ident is None and how not in (o_array, o_halt):
                    all_called(op, cls, placements, values, log)
            s = io.BytesIO()
            judged(f"{tag} to_stream", lambda: out_cls(**assign).to_stream(s), ident, log, rec)
            if ident is None:
                if s.getvalue() != raw:
                    fail(f"{tag}: written as {short(s.getvalue())}, expected {short(raw)}")
            elif len(s.getvalue()) > (2 if how is o_nested2 else 1):
                fail(f"{tag}: rejected, but {short(s.getvalue())} is written")


def kinds(ch, rec):
    """Validators get the deserialized value, whatever the kind of field."""
    import binobj
    from binobj import decorators
    from binobj import errors
    from binobj import fields as F

    kind = ch.choose(KINDS)()
    place = ch.choose(
        ("field", "list", "method", "notes", "notes method", "element", "alternative", "union")
    )
    v = ch.choose(list(kind.values)[:2] or [None])
    if not kind.values or (place == "alternative" and isinstance(kind, (Nest,))):
        return
    calls, rejecting = [], []

    def check(field, value):
        calls.append((field, plain(value)))
        if rejecting:
            raise errors.ValidationError(field=field, value=value)

    def method(self, field, value):
        check(field, value)

    kw = {"validate": check} if place in ("field", "notes", "element", "alternative") else {}
    if place == "list":
        kw = {"validate": (check,)}
    x = kind.make(F, **kw)
    spec_kind = kind

    def pick(_d, classes, _c, _f):
        return classes[0]

    if place == "element":
        x = F.Array(x, count=1)
        spec_kind = Arr(kind, 1, values=[])
        given, v_seen = [kind.real(v)], v
    elif place in ("alternative", "union"):
        extra = {"validate": check} if place == "union" else {}
        x = F.Union(x, load_decider=pick, dump_decider=pick, **extra)
        given, v_seen = kind.real(v), v
    else:
        given, v_seen = kind.real(v), v
    ns = {"__module__": __name__}
    parts = {"a": F.UInt8(), "x": x}
    if "notes" in place:
        ns["__annotations__"] = parts
    else:
        ns.update(parts)
    if "method" in place:
        ns["check"] = decorators.validates("x")(method)
    cls = type(binobj.Struct)("V", (binobj.Struct,), ns)
    if "notes" in place:
        cls = binobj.dataclass(cls)
    raw = b"\1" + kind.enc(v, {"a": 1})
    loaded = kind.loaded(v, {"a": 1})
    rec.case = lambda: f"{kind!r} {v!r} validator: {place}"
    ops = {
        "to_bytes": (lambda: cls(a=1, x=given).to_bytes(), v_seen),
        "from_bytes": (lambda: cls.from_bytes(raw), loaded),
    }
    if "method" not in place:
        ops["get_field"] = (lambda: cls.get_field(stream_at(raw), "x"), loaded)
        ops["partial_load"] = (lambda: cls.partial_load(stream_at(raw)), loaded)
    for reject in (False, True):
        rejecting[:] = [1] if reject else []
        for op, (run, want) in ops.items():
            calls.clear()
            how, got = attempt(run)
            rec.step()
            if not calls:
                fail(f"{op} doesn't run the validator")
            for field, value in calls:
                if isinstance(want, (dict, list)):
                    ok = complete(value, want)
                else:
                    ok = value is want or plain_same(value, want)
                if not ok:
                    fail(f"{op}: the validator gets {value!r}, not {want!r}")
                if not isinstance(field, F.Field):
                    fail(f"{op}: the validator gets {field!r}, not the field")
            if reject and (how == "ok" or not isinstance(got, errors.ValidationError)):
                fail(f"{op}: the validator rejects it but: {how} {got!r}")
            if not reject and how != "ok":
                fail(f"{op} raises {got!r}")
    rec.traced()
    rec.state(kind.name, repr(v), place)


def plain_same(a, b):
    from mc.model import same_model

    return same_model(a, b)


def complete(value, want):
    """Is ``value`` equal to ``want``, apart from defaults filled in?"""
    if isinstance(want, dict):
        return all(n in value and complete(value[n], v) for n, v in want.items())
    if isinstance(want, list):
        return len(value) == len(want) and all(map(complete, value, want))
    return plain_same(value, want)


class Callable_:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, field, value):
        self.fn(field, value)

    def bound(self, field, value):
        self.fn(field, value)


def extra_arg(_extra, fn, field, value):
    fn(field, value)


FORMS = [
    lambda fn: fn,
    lambda fn: [fn],
    lambda fn: (lambda field, value: None, fn),
    lambda fn: iter([fn, lambda field, value: None]),
    lambda fn: (f for f in [fn]),
    lambda fn: {fn},
    Callable_,
    lambda fn: Callable_(fn).bound,
    lambda fn: functools.partial(extra_arg, 5, fn),
]

SPECIAL = {
    "plain": {},
    "default": {"default": 66},
    "factory": {"factory": lambda: 66},
    "const": {"const": 66},
    "discard": {"discard": True, "default": 66},
    "present": {"present": lambda v, *_: v["a"] == 1, "default": 66},
    "computed": {},
    "null": {"null_value": b"\xff", "default": None},
}


def special(ch, rec):
    """Every form of callable on fields whose value comes from elsewhere."""
    import binobj
    from binobj import decorators
    from binobj import errors
    from binobj import fields as F

    form = ch.choose(FORMS)
    name = ch.choose(sorted(SPECIAL))
    method = ch.flag()
    notes = ch.flag()
    calls, rejecting = [], []

    def check(field, value):
        calls.append((field.name, value))
        if rejecting:
            raise errors.ValidationError(field=field, value=value)

    kw = dict(SPECIAL[name])
    if not method:
        kw["validate"] = form(check)
    elif form is not FORMS[0]:
        return
    x = F.UInt8(**kw)
    ns = {"__module__": __name__}
    parts = {"a": F.UInt8(), "x": x, "b": F.UInt8()}
    if notes:
        ns["__annotations__"] = parts
    else:
        ns.update(parts)
    if method:
        ns["check"] = decorators.validates("x")(lambda self, field, value: check(field, value))
    cls = type(binobj.Struct)("V", (binobj.Struct,), ns)
    if notes:
        cls = binobj.dataclass(cls)
    if name == "computed":
        cls.x.computes(lambda self, f: f["b"] + 1)
    given = {"x": 66} if name == "plain" else {}
    value = None if name == "null" else 66
    rec.case = lambda: f"{name} form {FORMS.index(form)} method={method} notes={notes}"
    raw = b"\1" + (b"\xff" if value is None else b"\x42") + b"\x41"
    ops = {
        "to_bytes": (lambda: cls(a=1, b=65, **given).to_bytes(), raw),
        "validate_contents": (lambda: cls(a=1, b=65, **given).validate_contents(), None),
        "from_bytes": (lambda: cls.from_bytes(raw) and None, None),
    }
    if not method:
        ops["get_field"] = (lambda: cls.get_field(stream_at(raw), "x"), value)
        ops["partial_load"] = (lambda: cls.partial_load(stream_at(raw)) and None, None)
    for reject in (False, True, False):
        rejecting[:] = [1] if reject else []
        for op, (run, want) in ops.items():
            calls.clear()
            how, got = attempt(run)
            rec.step()
            if not calls or any(c != ("x", value) for c in calls):
                fail(f"{op}: the validator is called with {calls}, expected x={value!r}")
            if reject and (how == "ok" or not isinstance(got, errors.ValidationError)):
                fail(f"{op}: the validator rejects it but: {how} {got!r}")
            if not reject and (how != "ok" or got != want):
                fail(f"{op}: {how} {got!r}, expected {want!r}")
    if name == "present":
        rejecting[:] = [1]
        calls.clear()
        if cls(a=0, b=65).to_bytes() != b"\0\x41" or cls.from_bytes(b"\0\x41").a != 0 or calls:
            fail(f"the absent field is validated: {calls}")
    rec.traced()
    rec.state(name, FORMS.index(form), method, notes)


def iterables(ch, rec):
    """What's declared for elements holds, whatever they're given as."""
    import binobj
    from binobj import errors
    from binobj import fields as F
    from mc.props.c21 import CONTAINERS
    from mc.props.c21 import special

    kind_name = ch.choose(("u8", "i16", "strz", "bytes1", "nested"))

    class In(binobj.Struct):
        p = F.UInt8()

    kind, values, bad = {
        "u8": (U8(), [1, 2, 3], 2),
        "i16": (Int(2, True, "big"), [1, 2, 3], 2),
        "strz": (StrZ(), ["a", "b", "c"], "b"),
        "bytes1": (Raw(1), [b"a", b"b", b"c"], b"b"),
        "nested": (None, [{"p": 1}, {"p": 2}, {"p": 3}], {"p": 2}),
    }[kind_name]
    means = ch.choose(("validator", "list", "subclass"))
    counted = ch.choose((3, None, "n"))
    where = ch.choose((None, 0, 1, 2))
    seen = []

    def check(field, value):
        seen.append(plain(value))
        if plain(value) == bad:
            raise errors.ValidationError(field=field, value=value)

    values = [v for v in values if v != bad]
    values.insert(1, values[0])
    if where is not None:
        values[where] = bad
    kw = {
        "validator": {"validate": check},
        "list": {"validate": [check, lambda *_: None]},
        "subclass": {},
    }[means]
    containers = dict(CONTAINERS)
    if kind is not None:
        containers.update(special(kind, values))
    if kind_name == "u8":
        containers["array"] = lambda v: array.array("B", v)
        containers["memoryview"] = lambda v: memoryview(bytes(v))
    name = ch.choose(sorted(containers))
    make = containers[name]
    elem = F.Nested(In, **kw) if kind is None else kind.make(F, **kw)
    if means == "subclass":
        base = type(elem)
        child = type(
            "Own",
            (base,),
            {
                "_do_dump": lambda self, stream, data, context, all_fields: (
                    check(self, data),
                    base._do_dump(self, stream, data, context, all_fields),
                )[1]
            },
        )
        elem = child(In) if kind is None else own_field(child, kind)

    class S(binobj.Struct):
        n = F.UInt8()
        x = F.Array(elem, count=counted)

    op = ch.choose(("to_bytes", "field", "partial_dump", "twice"))
    rec.case = lambda: f"{values!r} as {name} for {kind_name}, {means}, count {counted}, {op}"
    inst = S(n=3, x=make(values))
    out = io.BytesIO()
    run = {
        "to_bytes": lambda: out.write(inst.to_bytes()),
        "twice": lambda: (attempt(inst.to_bytes), out.write(S(n=3, x=make(values)).to_bytes())),
        "field": lambda: S.x.to_stream(out, make(values), None, {"n": 3}),
        "partial_dump": lambda: inst.partial_dump(out, "x"),
    }[op]
    how, got = attempt(run)
    if where is None:
        if how != "ok":
            fail(f"raises {got!r}")
        if [v for v in values if v not in seen]:
            fail(f"the validator was called with {seen!r}")
    elif how == "ok":
        fail(f"{bad!r} is accepted, giving {short(out.getvalue())}")
    elif not isinstance(got, errors.ValidationError):
        fail(f"{bad!r} raises {got!r}")
    rec.step()
    rec.traced()
    rec.state(kind_name, means, counted, where, name, op)


def whole(ch, rec):
    """What validators of structures and fields see while something is loaded or dumped."""
    import binobj
    from binobj import decorators
    from binobj import fields as F

    sort = ch.choose(("required", "default", "const", "computed", "null", "factory", "absent"))
    discard = ch.flag()
    split = ch.choose((0, 1, 2))
    where = ch.choose(("bare", "nested", "array", "union", "overridden"))
    seen = []
    options = {
        "default": {"default": 0},
        "const": {"const": 5},
        "null": {"null_value": b"\xff"},
        "factory": {"factory": lambda: 0},
        "absent": {"present": lambda v, *_: v["a"] != 1},
    }.get(sort, {})
    field = F.UInt8(discard=discard, **options)
    if sort == "computed":
        field.computes(lambda f, v: 5)

    def by_struct(self, values):
        mine = {}
        for n in ("a", "x", "b"):
            mine[n] = values[n]
        seen.append(("struct", mine, {n: self[n] for n in mine}))

    def by_method(self, f, value):
        seen.append((f.name, value, self.a, self.b))

    parts = [("a", F.UInt8()), ("x", field), ("b", F.UInt8(discard=discard))]
    checks = {
        "s": decorators.validates_struct(by_struct),
        "m": decorators.validates("x", "b")(by_method),
    }
    meta = type(binobj.Struct)
    if split:
        P = meta("P", (binobj.Struct,), dict(parts[:split]))
        S = meta("S", (P,), {**dict(parts[split:]), **checks})
    else:
        S = meta("S", (binobj.Struct,), {**dict(parts), **checks})
    x = None if sort == "null" else 5
    raw = bytes([1]) + (b"" if sort == "absent" else b"\xff" if x is None else b"\5") + b"\6"

    class Outer(binobj.Struct):
        o = {
            "nested": lambda: F.Nested(S),
            "array": lambda: F.Array(F.Nested(S), count=2),
            "union": lambda: F.Union(
                S, load_decider=lambda *a: a[1][0], dump_decider=lambda *a: a[1][0]
            ),
        }.get(where, lambda: F.UInt8())()

    rec.case = lambda: f"{sort}, discard={discard}, {split} in the parent, {where}"
    times = 2 if where == "array" else 1
    if where in ("bare", "overridden"):
        load = lambda: S.from_bytes(raw)
    else:
        load = lambda: Outer.from_bytes(raw * times)
    b = 6
    if where == "overridden":
        b = 8
        load = lambda: S.from_bytes(raw, init_kwargs={"b": 8})

    def judge(what, n):
        values = {"a": 1, "x": x, "b": b}
        if sort == "absent":
            values.pop("x")
            for s in seen:
                if s[0] == "struct":
                    s[1].pop("x"), s[2].pop("x")
        wanted = [("struct", values, values), ("b", b, 1, b)]
        if sort != "absent":
            wanted.append(("x", x, 1, b))
        for w in wanted:
            if seen.count(w) < n:
                fail(f"{what}: the validators see {seen}, not {w}")
        if any(s not in wanted for s in seen):
            fail(f"{what}: the validators see {seen}, expected {wanted}")
        seen.clear()
        rec.step()

    load()
    judge("loading", times)
    given = {} if sort not in ("required", "null") else {"x": x}
    if sort in ("default", "factory"):
        given = {"x": 5}
    one = lambda: S(a=1, b=b, **given)
    if where in ("bare", "overridden"):
        top = one()
    else:
        top = Outer(o=[one(), one()] if where == "array" else one())
    for what, op in (("dumping", top.to_bytes), ("once more", lambda: top.to_stream(io.BytesIO()))):
        op()
        judge(what, times)
    rec.traced()
    rec.state(sort, discard, split, where)


def own_field(cls, kind):
    from binobj import fields as F

    if isinstance(kind, Int) and cls.__bases__[0] is F.Int16:
        return cls(endian="big")
    if isinstance(kind, Raw):
        return cls(size=1)
    if isinstance(kind, StrZ):
        return cls(encoding=kind.encoding)
    return cls()


def named(ch, rec):
    """A method that validates any number of fields is run for just these."""
    import binobj
    from binobj import decorators
    from binobj import errors
    from binobj import fields as F

    n = 6
    which = ch.choose(range(1, 2**n))
    names = [f"f{i}" for i in range(n) if which >> i & 1]
    order = ch.choose(("forward", "backward", "twice"))
    place = ch.choose(("own", "inherited", "annotated", "half"))
    seen, rejected = [], []

    def method(self, field, value):
        seen.append((field.name, value))
        if field.name in rejected:
            raise errors.ValidationError(field=field, value=value)

    targets = names[::-1] if order == "backward" else names
    check = decorators.validates(*targets)(method)
    checks = {"check": check}
    if order == "twice":
        checks["again"] = decorators.validates(*names[:1])(lambda self, field, value: None)
    fields = {f"f{i}": F.UInt8() for i in range(n)}
    base = (binobj.Struct,)
    if place == "own":
        cls = type("S", base, {**fields, **checks})
    elif place == "annotated":
        ns = {"__module__": __name__, "__annotations__": fields, **checks}
        cls = binobj.dataclass(type(binobj.Struct)("S", base, ns))
    else:
        cut = n if place == "inherited" else n // 2
        first = dict(list(fields.items())[:cut])
        cls = type("P", base, first)
        cls = type("S", (cls,), {**dict(list(fields.items())[cut:]), **checks})
    values = {f"f{i}": 10 + i for i in range(n)}
    raw = bytes(values.values())
    rec.case = lambda: f"a method validates {targets}; {place}"
    ops = {
        "to_bytes": lambda: cls(**values).to_bytes(),
        "from_bytes": lambda: cls.from_bytes(raw),
    }
    for reject in [None, *names]:
        rejected[:] = [reject]
        for op, run in ops.items():
            seen.clear()
            how, got = attempt(run)
            rec.step()
            if reject is None:
                if how != "ok":
                    fail(f"{op} raises {got!r}")
                if sorted(seen) != sorted((f, values[f]) for f in names):
                    fail(f"{op}: the method is run for {sorted(seen)}, expected {names}")
            elif how == "ok" or not isinstance(got, errors.ValidationError):
                fail(f"{op}: {reject} is rejected but: {how} {got!r}")
    rec.traced()
    rec.state(which, order, place)


def bodies(tier, seed):
    return {
        "named": named,
        "iterables": iterables,
        "placed": placed_body(3 if tier == "thorough" else 2),
        "kinds": kinds,
        "special": special,
        "whole": whole,
    }
