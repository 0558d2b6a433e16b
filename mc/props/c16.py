"""C16: instances and classes never share mutable state."""

import copy
import io

from mc.lib import attempt
from mc.lib import fail
from mc.lib import has_structs
from mc.lib import note
from mc.lib import same
from mc.lib import stream_at
from mc.model import ABSENT
from mc.model import BadData
from mc.model import Eof
from mc.model import plain
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "a world of six classes (a parent, two children of it, a structure nesting them, an"
    " annotated one and a sibling of the same names) and eleven instances (constructed, loaded,"
    " loaded twice from the same bytes, loaded with overrides, partially loaded, copied): after"
    " all sequences of 2 of ~60 operations (declared by assignment and annotation in turn) each entity shows just what it shows after only the"
    " operations that target it; loading with every single-field override, in every declaration"
    " of the wide family and all ordered pairs of items",
    "thorough": "all sequences of 3 operations, and overrides in all triples of small items",
}
ASSUMPTIONS = [
    "an object the user hands to a constructor, an assignment or default= is used as it is;"
    " changing it later is the user's own doing",
]

################################################################################
# Worlds


class World:
    """A few classes and instances, made from scratch."""

    def __init__(self, annotated):
        import typing

        import binobj
        from binobj import decorators
        from binobj import fields as F

        self.made = []
        self.calls = []
        self.e = {}
        calls = self.calls

        def noted(name, bad):
            def validator(*args):
                calls.append(name)
                if args[-1] == bad:
                    raise binobj.ValidationError(field=None, value=args[-1])

            return validator

        def struct(name, base, fields, extra=None):
            ns = {"__module__": __name__, "__qualname__": name, **(extra or {})}
            if annotated:
                ns["__annotations__"] = {
                    n: typing.Annotated[typing.Any, f] for n, f in fields.items()
                }
                return binobj.dataclass(type(base)(name, (base,), ns))
            return type(base)(name, (base,), {**ns, **fields})

        self.struct, self.noted = struct, noted

        def made_list():
            self.made.append("t")
            return [1, 2]

        self.In = struct("In", binobj.Struct, {"p": F.UInt8(), "q": F.UInt8(default=5)})
        In = self.In

        def made_struct():
            self.made.append("n")
            return In(p=1)

        self.options = {"endian": "big"}
        meta = type("Meta", (), {"argument_defaults": self.options})
        s = F.UInt8()
        s.computes(lambda field, all_fields: (sum(all_fields["t"]) + all_fields["b"]) % 256)

        def check_b(self_, field, value):
            noted("P.b", 13)(value)

        self.P = struct(
            "P",
            binobj.Struct,
            {
                "a": F.UInt8(default=1, validate=[lambda f, v: noted("field a", 99)(v)]),
                "b": F.UInt16(),
                "t": F.Array(F.UInt8(), count=2, factory=made_list),
                "n": F.Nested(In, factory=made_struct),
                "z": F.StringZ(default="z"),
                "s": s,
            },
            {"Meta": meta, "check_b": decorators.validates("b")(check_b)},
        )

        def check_a(self_, field, value):
            noted("C.a", 9)(value)

        def check_all(self_, values):
            noted("C", 77)(values["c"])

        self.C = struct(
            "C",
            self.P,
            {"c": F.UInt8(default=3), "w": F.Int16(default=-2)},
            {"check_a": decorators.validates("a")(check_a), "ck": decorators.validates_struct(check_all)},
        )
        self.Q = struct("Q", self.P, {"c": F.StringZ(default="q")})
        # A stranger that happens to have the same names.
        self.R = struct(
            "P",
            binobj.Struct,
            {"a": F.Int16(endian="little"), "b": F.UInt8(default=8), "n": F.Nested(self.In)},
        )
        self.O = struct(
            "O",
            binobj.Struct,
            {
                "k": F.UInt8(),
                "one": F.Nested(self.P),
                "many": F.Array(F.Nested(self.In), count="k"),
                "u": F.Union(
                    F.UInt8(),
                    self.In,
                    load_decider=lambda s, c, x, f: c[1],
                    dump_decider=lambda d, c, x, f: c[1],
                ),
            },
        )
        self.data_p = bytes([4, 1, 2, 3, 4, 6, 7]) + b"xy\0" + bytes([5])
        self.data_o = bytes([2]) + self.data_p + bytes([1, 2, 3, 4]) + bytes([8, 9])
        P = self.P
        self.overrides = {"t": [50, 51], "n": self.In(p=60), "z": "o"}
        self.e = {
            "p1": P(b=300),
            "p2": P(b=300),
            "p3": P(b=5, t=[3, 4], n=self.In(p=7, q=8)),
            "l1": P.from_bytes(self.data_p),
            "l2": P.from_bytes(self.data_p),
            "l3": P.from_bytes(self.data_p, init_kwargs=self.overrides),
            "l4": P.partial_load(io.BytesIO(self.data_p), "n"),
            "c1": self.C(b=1),
            "c2": self.C.from_bytes(self.data_p + bytes([6, 0, 1])),
            "q1": self.Q(b=1),
            "o1": self.O.from_bytes(self.data_o),
            "o2": self.O.from_bytes(self.data_o),
        }
        self.inner = self.In(p=30)
        self.e["o3"] = self.O(k=1, one=P(b=2), many=[self.inner], u={"p": 1})

    def entities(self):
        return ["In", "P", "C", "Q", "R", "O", *self.e, "overrides", "inner", "X", "Y", "options"]

    def observe(self, entity):
        """Everything that can be seen of an entity."""
        if entity in self.e:
            return see_instance(self.e[entity])
        if entity == "inner":
            return see_instance(self.inner)
        if entity == "overrides":
            return {n: plain(v) for n, v in self.overrides.items()}
        if entity == "options":
            return dict(self.options)
        cls = getattr(self, entity, None)
        return None if cls is None else self.see_class(cls)

    def see_class(self, cls):
        out = {"size": cls.get_size(), "fields": []}
        out["name"], out["module"] = cls.__name__, cls.__module__
        for name in cls.__binobj_struct__.components:
            f = getattr(cls, name)
            out["fields"].append(
                (
                    name,
                    f.name,
                    f.index,
                    f.offset,
                    f.size if isinstance(f.size, int) else str(type(f.size)),
                    f.__objclass__.__name__,
                    repr(f.const),
                    f.required,
                    f.discard,
                    getattr(f, "endian", None),
                    len(f.validators),
                )
            )
        # How it behaves: with little data, with data that suits most of them, and with
        # data the validators of some of the classes refuse.
        for data in (
            b"",
            self.data_p,
            self.data_p + bytes([6, 0, 1]),
            self.data_p + b"w\0",
            bytes([9]) + self.data_p[1:] + bytes([6, 0, 1]),
            bytes([99]) + self.data_p[1:],
            bytes([4, 0, 13]) + self.data_p[3:],
            self.data_p + bytes([77, 0, 1]),
            self.data_o,
        ):
            self.calls.clear()
            how, got = attempt(cls.from_stream, io.BytesIO(data))
            shown = see_instance(got) if how == "ok" else type(got).__name__
            out[f"load {data.hex()}"] = (shown, list(self.calls))
            how, got = attempt(cls.get_field, io.BytesIO(data), "n" if cls is not self.In else "q")
            out[f"field {data.hex()}"] = repr(got) if how == "ok" else type(got).__name__
        for values in ({}, {"b": 5}, {"a": 9, "b": 5}, {"b": 13}, {"b": 5, "c": 77}, {"p": 1}):
            how, got = attempt(cls, **values)
            out[f"new {values}"] = see_instance(got) if how == "ok" else type(got).__name__
        return out


def see_instance(inst):
    out = {"assigned": sorted(n for n in inst), "is": type(inst).__name__}
    names = list(inst.__binobj_struct__.components)
    for name in names:
        how, got = attempt(getattr, inst, name)
        out["." + name] = plain(got) if how == "ok" else type(got).__name__
    for op in (inst.to_dict, inst.to_bytes, inst.__len__):
        how, got = attempt(op)
        out[op.__name__] = got if how == "ok" else type(got).__name__
    return out


def setter(name, value):
    return lambda w, i: setattr(i, name, copy.deepcopy(value))


def operations():
    """[(entity that changes or None, what happens)]"""
    ops = []

    def op(entity, label, fn):
        ops.append((entity, label, fn))

    def on(entity, label, fn):
        op(entity, f"{entity} {label}", lambda w: fn(w, w.e[entity]))

    for e in ("p1", "l1", "c1"):
        on(e, "b=7", setter("b", 7))
        on(e, "t=[8,9]", setter("t", [8, 9]))
        on(e, "del t", lambda w, i: i.__delitem__("t"))
    on("l3", "z='!'", setter("z", "!"))
    on("l4", "z='!'", setter("z", "!"))
    on("q1", "n={p,q}", setter("n", {"p": 70, "q": 71}))
    on("o3", "k=0", lambda w, i: (setattr(i, "k", 0), setattr(i, "many", [])))
    # Loaded containers belong to the instance they were loaded for.
    for e in ("l1", "l3", "c2", "p3"):
        on(e, "t[0]=90", lambda w, i: i.t.__setitem__(0, 90))
        on(e, "n.p=91", lambda w, i: setattr(i.n, "p", 91))
    on("l4", "t.append(1)", lambda w, i: i.t.append(1))
    on("o1", "one.t[1]=5", lambda w, i: i.one.t.__setitem__(1, 5))
    on("o1", "one.n.q=5", lambda w, i: setattr(i.one.n, "q", 5))
    on("o1", "many[0].p=5", lambda w, i: setattr(i.many[0], "p", 5))
    on("o1", "many.pop()", lambda w, i: (i.many.pop(), setattr(i, "k", 1)))
    on("o1", "u.p=5", lambda w, i: setattr(i.u, "p", 5))
    op("overrides", "overrides t", lambda w: w.overrides["t"].append(1))
    op("overrides", "overrides n", lambda w: setattr(w.overrides["n"], "q", 61))
    # What a factory made or a read returned is nobody's.
    op(None, "p1.t.append", lambda w: "t" in w.e["p1"] or w.e["p1"].t.append(5))
    op(None, "p2.n.p=", lambda w: setattr(w.e["p2"].n, "p", 5))
    op(None, "q1.t.clear", lambda w: w.e["q1"].t.clear())
    for e in ("p2", "l2", "o2", "o3", "c2"):
        op(None, f"{e}.to_dict() changed", lambda w, e=e: mess_up(w.e[e].to_dict()))
    op(None, "get_field t", lambda w: mess_up(w.P.get_field(io.BytesIO(w.data_p), "t")))
    op(None, "get_field n", lambda w: setattr(w.P.get_field(io.BytesIO(w.data_p), "n"), "p", 0))
    op(None, "another load", lambda w: mess_up_struct(w.P.from_bytes(w.data_p)))
    op(None, "another load O", lambda w: mess_up_struct(w.O.from_bytes(w.data_o)))
    op(None, "another", lambda w: mess_up_struct(w.P(b=1, t=[5, 5], n=w.In(p=5))))
    op(
        None,
        "load override",
        lambda w: mess_up_struct(w.P.from_bytes(w.data_p, init_kwargs=w.overrides)),
    )
    # Observations.
    for e in ("p1", "l1", "o1", "o3", "l4"):
        op(None, f"{e} dumped", lambda w, e=e: attempt(w.e[e].to_bytes))
        op(None, f"{e} partly", lambda w, e=e: attempt(w.e[e].partial_dump, io.BytesIO()))
    op(None, "p1==p2", lambda w: w.e["p1"] == w.e["p2"])
    op(None, "l1==o1.one", lambda w: w.e["l1"] == w.e["o1"].one)
    op(None, "bad load", lambda w: attempt(w.P.from_bytes, bytes([99]) + w.data_p[1:]))
    op(None, "bad dump", lambda w: attempt(w.P(b=13).to_bytes))
    op(None, "bad value", lambda w: attempt(w.P(b=70000).to_bytes))
    op(None, "bad name", lambda w: attempt(w.P, nope=1))
    # Extending classes.
    op("X", "child with field", lambda w: child(w, "X", "P", {"x": 1}))
    op("Y", "child of child", lambda w: child(w, "Y", "C", {"x": 1}, validate="b"))
    op("X", "child with checks", lambda w: child(w, "X", "P", {"x": 1}, validate="a"))
    op("Y", "child with options", lambda w: child(w, "Y", "P", {"x": 1, "y": 1}, options=True))
    op("X", "child of nested", lambda w: child(w, "X", "In", {"x": 1}, validate="p"))
    op("Y", "child struct check", lambda w: child(w, "Y", "Q", {"x": 1}, whole=True))
    op("X", "child of union", lambda w: child(w, "X", "O", {"x": 1}))
    for bad in ("redefined", "two parents", "two functions", "mixed"):
        op(None, f"bad class: {bad}", lambda w, bad=bad: bad_class(w, bad))
    return ops


def mess_up(thing):
    if isinstance(thing, dict):
        for v in list(thing.values()):
            mess_up(v)
        thing.clear()
    elif isinstance(thing, list):
        for v in thing:
            mess_up(v)
        thing.clear()


def mess_up_struct(inst):
    import binobj

    for name in [n for n in inst]:
        v = inst[name]
        if isinstance(v, binobj.Struct):
            mess_up_struct(v)
        elif isinstance(v, list):
            for e in v:
                if isinstance(e, binobj.Struct):
                    mess_up_struct(e)
            v.clear()
        del inst[name]


def child(w, slot, base, names, validate=None, options=False, whole=False):
    from binobj import decorators
    from binobj import fields as F

    extra = {}
    if validate:

        def check(self_, field, value):
            w.noted(f"{slot}.{validate}", 4)(value)

        extra["extra_check"] = decorators.validates(validate)(check)
    if whole:

        def check_whole(self_, values):
            w.noted(slot, None)(values["b"])

        extra["whole_check"] = decorators.validates_struct(check_whole)
    if options:
        extra["Meta"] = type("Meta", (), {"argument_defaults": {"endian": "little"}})
    fields = {n: F.UInt16(default=1) for n in names}
    cls = w.struct(slot, getattr(w, base), fields, extra)
    setattr(w, slot, cls)


def bad_class(w, how):
    from binobj import errors
    from binobj import fields as F

    try:
        if how == "redefined":
            w.struct("Bad", w.P, {"new": F.UInt8(), "b": F.UInt8()})
        elif how == "two parents":
            type(w.P)("Bad", (w.P, w.R), {"new": F.UInt8()})
        elif how == "two functions":
            w.P.s.computes(lambda f, v: 5)
        elif how == "mixed":
            import binobj

            @binobj.dataclass
            class Bad(w.P):
                new: F.UInt8
                other = F.UInt8()

    except errors.ConfigurationError:
        return
    fail(f"the class ({how}) isn't rejected")


ALONE = {}


def alone(annotated, entity, ops):
    """What an entity shows after only these operations."""
    key = (annotated, entity, tuple(label for _e, label, _f in ops))
    if key not in ALONE:
        w = World(annotated)
        for _e, _label, fn in ops:
            fn(w)
        ALONE[key] = w.observe(entity)
    return ALONE[key]


def worlds_body(depth):
    def worlds(ch, rec):
        ops = operations()
        picks = [ch.pick(len(ops)) for _ in range(depth)]
        history = [ops[i] for i in picks]
        annotated = ch.flag() if depth > 2 else sum(picks) % 2 == 1
        rec.case = lambda: f"{'annotated' if annotated else 'assigned'}: " + ", ".join(
            label for _e, label, _f in history
        )
        w = World(annotated)
        for n, (_e, _label, fn) in enumerate(history):
            fn(w)
            rec.step()
        before = list(w.made)
        for entity in w.entities():
            got = w.observe(entity)
            expected = alone(annotated, entity, [o for o in history if o[0] == entity])
            if got != expected:
                fail(f"{entity} shows {differences(got, expected)}")
            rec.step()
        if w.made[: len(before)] != before or len(w.made) <= len(before):
            fail("the factories aren't called for each use")
        rec.traced()
        rec.state(annotated, [o[1] for o in history])
        rec.sample([o[1] for o in history])

    return worlds


def differences(got, expected):
    if isinstance(got, dict) and isinstance(expected, dict):
        return {
            k: (got.get(k), "instead of", expected.get(k))
            for k in {**got, **expected}
            if got.get(k) != expected.get(k)
        }
    return f"{got!r} instead of {expected!r}"


################################################################################
# Factories


def factories(ch, rec):
    """Each use of an unset field calls the factory and gets what that call returned."""
    import binobj
    from binobj import fields as F

    counter = []

    def make():
        counter.append(len(counter))
        return [len(counter), 0]

    style = ch.choose(("factory", "callable default", "annotated", "nested"))
    if style == "annotated":

        @binobj.dataclass
        class S(binobj.Struct):
            t: F.Array(F.UInt8(), count=2, factory=make)

    elif style == "nested":

        class In(binobj.Struct):
            t = F.Array(F.UInt8(), count=2, factory=make)

        class S(In):
            pass

    elif style == "callable default":

        class S(binobj.Struct):
            t = F.Array(F.UInt8(), count=2, default=make)

    else:

        class S(binobj.Struct):
            t = F.Array(F.UInt8(), count=2, factory=make)

    one, two = S(), S()
    uses = ch.choose(("attribute", "dump", "dict", "field", "size"))
    rec.case = lambda: (style, uses, counter)
    seen = []
    for inst in (one, two, one, two, one):
        before = len(counter)
        if uses == "attribute":
            v = inst.t
        elif uses == "dump":
            v = list(inst.to_bytes())
        elif uses == "dict":
            v = inst.to_dict()["t"]
        elif uses == "field":
            v = list(S.t.to_bytes())
        else:
            len(inst)
            v = [len(counter), 0]
        if uses != "size" and len(counter) == before:
            fail("the factory isn't called")
        if not before < v[0] <= len(counter) and uses != "size":
            fail(f"gives {v}, which isn't what this use's calls returned")
        if v in seen and uses != "size":
            fail(f"gives {v} again")
        seen.append(list(v))
        v.append(3)
        if "t" in inst:
            fail("the field is assigned now")
        rec.step()
    rec.traced()
    rec.state(style, uses)


################################################################################
# Overrides


def load_with(spec, data, overrides):
    """The model's load, with some values already given."""
    env, pos = dict(overrides), 0
    out = {}
    for f in spec.fields():
        if f.present is not None and not spec._reads(f, data, pos, env, None):
            v = f.npv
        else:
            v, pos = spec._load_field(f, data, pos, env)
        env.setdefault(f.name, v)
        if not f.discard:
            out[f.name] = env[f.name]
    return out, pos


def judge_overrides(case, rec):
    spec = case.spec
    cls = spec.build()
    assigns = case.assigns[:2]
    raws = [spec.dump(a) for a in assigns]
    # Overrides come from another assignment (the last, which tends to be special).
    donor = case.assigns[-1]
    for f in spec.fields():
        if f.name not in donor or f.const is not _nope():
            continue
        value = donor[f.name]
        if value is ABSENT:
            continue
        for mode in (0, 1) if has_structs(f.kind) else (0,):
            for raw in raws:
                try:
                    expected, end = load_with(spec, raw, {f.name: value})
                except (Eof, BadData, KeyError, TypeError):
                    expected = None
                if expected is None:
                    continue
                real = spec.real_values({f.name: value}, mode)
                twin = spec.real_values({f.name: value}, mode)
                note(rec, spec, override={f.name: value}, data=raw, mode=mode)
                stream = stream_at(raw)
                inst = cls.from_stream(stream, init_kwargs=real)
                shown = {
                    g.name: plain(getattr(inst, g.name)) for g in spec.fields() if not g.discard
                }
                same_parts(shown, expected, "loading with an override")
                if stream.tell() != end:
                    fail(f"ends at {stream.tell()}, not {end}")
                for g in spec.fields():
                    if not f.discard and g.name == f.name:
                        given = real[f.name]
                        mine = inst[f.name]
                        if not isinstance(given, (int, str, bytes, float, type(None))):
                            mutable = isinstance(given, (list, dict)) or hasattr(
                                given, "__values__"
                            )
                            if mutable and mine is given:
                                fail("the override isn't copied")
                            if mutable:
                                mess_up_any(mine)
                if set(real) != {f.name}:
                    fail(f"the dictionary of overrides is changed to {real!r}")
                if plain(real[f.name]) != plain(twin[f.name]):
                    same(plain(real[f.name]), plain(twin[f.name]), "the override afterwards")
                rec.step()
                rec.traced()
                rec.state(repr(spec), f.name, mode, raw)


def same_parts(shown, expected, what):
    for name, want in expected.items():
        if isinstance(want, (list, dict)):
            # Given structures show only what's assigned; that's covered by comparing
            # dumps in other checks.
            if plain(shown[name]) != want and not partial_like(shown[name], want):
                same(shown[name], want, f"{what}: {name}")
        else:
            same(shown[name], want, f"{what}: {name}")


def partial_like(got, want):
    if isinstance(got, dict) and isinstance(want, dict):
        return all(n in want and partial_like(got[n], want[n]) for n in got)
    if isinstance(got, list) and isinstance(want, list):
        return len(got) == len(want) and all(map(partial_like, got, want))
    return got == want or (got != got and want != want)


def mess_up_any(thing):
    import binobj

    if isinstance(thing, binobj.Struct):
        mess_up_struct(thing)
    else:
        if isinstance(thing, (list, dict)):
            for e in thing.values() if isinstance(thing, dict) else thing:
                mess_up_any(e)
            thing.clear()


def _nope():
    from mc.model import NOPE

    return NOPE


def products_body(depth):
    """Every use of a factory gives a new object."""

    def body(ch, rec):
        import binobj
        from binobj import fields as F

        style = ch.choose(("assign", "annotated"))
        what = ch.choose(("list", "structs", "struct", "dict", "nested list"))
        old_fashioned = ch.flag()

        class In(binobj.Struct):
            p = F.UInt8(default=3)

        calls = []

        def make():
            calls.append(what)
            return {
                "list": lambda: [1, 2],
                "structs": lambda: [In(p=1)],
                "struct": lambda: In(p=1),
                "dict": lambda: {"p": 1},
                "nested list": lambda: [[1], [2]],
            }[what]()

        field = {
            "list": lambda **kw: F.Array(F.UInt8(), **kw),
            "structs": lambda **kw: F.Array(F.Nested(In), **kw),
            "struct": lambda **kw: F.Nested(In, **kw),
            "dict": lambda **kw: F.Nested(In, **kw),
            "nested list": lambda **kw: F.Array(F.Array(F.UInt8(), count=1), **kw),
        }[what]
        x = field(default=make) if old_fashioned else field(factory=make)
        ns = {"__module__": __name__}
        if style == "assign":
            P = type(binobj.Struct)("P", (binobj.Struct,), {**ns, "x": x})
        else:
            P = binobj.dataclass(
                type(binobj.Struct)("P", (binobj.Struct,), {**ns, "__annotations__": {"x": x}})
            )
        C = type(binobj.Struct)("C", (P,), dict(ns))
        insts = {"first": P(), "second": P(), "child": C()}
        ways = {
            "attribute": lambda i: i.x,
            "key": lambda i: i["x"],
            "exported": lambda i: i.to_dict()["x"],
            "of the field": lambda i: P.x.default,
        }
        pristine = plain(make())
        products = []
        log = []
        rec.case = lambda: f"{style} {what} {old_fashioned} {log!r}"
        raw = insts["first"].to_bytes()
        for _ in range(depth):
            who = ch.choose(sorted(insts))
            way = ch.choose(sorted(ways))
            spoil = ch.flag()
            log.append((who, way, "spoiling it" if spoil else ""))
            before = len(calls)
            got = ways[way](insts[who])
            if len(calls) == before:
                fail("the factory isn't called")
            for other in products:
                if other is got:
                    fail("the same object is given out twice")
            same(plain(got), pristine, "what the factory made")
            products.append(got)
            if spoil:
                # ... which is nobody else's business.
                spoiled = got[0] if what in ("structs", "nested list") else got
                if isinstance(spoiled, list):
                    spoiled.append(9)
                else:
                    spoiled["p"] = 9
                products.pop()
            for other in products:
                same(plain(other), pristine, "what the factory made earlier")
            for name, inst in insts.items():
                if inst.to_bytes() != raw or len(inst) != len(raw):
                    fail(f"{name} is dumped as {inst.to_bytes().hex()}, not {raw.hex()}")
                if [n for n in inst]:
                    fail("reading a default assigns it")
            rec.step(3)
        rec.traced()
        rec.state(style, what, old_fashioned, repr(log))

    return body


def bodies(tier, seed):
    out = {"worlds": worlds_body(3 if tier == "thorough" else 2), "factories": factories}
    out["products"] = products_body(3 if tier == "thorough" else 2)
    cases = families("quick")
    if tier != "thorough":
        cases.pop("triples")
    out.update(each_case(judge_overrides, cases))
    return out
