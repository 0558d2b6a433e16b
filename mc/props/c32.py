"""C32: structure classes are ordinary Python classes."""

import copy
import io
import pickle
import sys
import types

from mc.lib import attempt
from mc.lib import fail
from mc.model import plain

BOUNDS = {
    "quick": "37 features of classes (methods, properties, mixins, constructors with arguments,"
    " overridden operations, generics, class hooks, ways of making classes, copying, ...), all"
    " ordered pairs, on the parent, the child or both sides of an inheritance boundary, in 2"
    " styles of declarations, with 15 operations; all ordered pairs of 60 names of fields in 6"
    " kinds of structures",
    "thorough": "also all triples of features",
}
ASSUMPTIONS = [
    "names that are attributes of Struct itself can't be used for fields",
]

################################################################################
# Features: name -> (bases before, bases after, lines of the body, checks)

PRELUDE = '''
import abc, collections, dataclasses, enum, functools, typing
import binobj
from binobj import fields
T = typing.TypeVar("T")

class Plain:
    extra = 5
    def describe(self):
        return "plain"

class WithInit:
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.seen_by_mixin = True

class WithHook:
    made = []
    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)
        cls.hooked = cls.__name__

class Inspecting:
    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)
        cls.known_to_hook = list(cls.__binobj_struct__.components)

class WithSlots:
    __slots__ = ()
    def slotted(self):
        return "slots"

class Desc:
    def __get__(self, instance, owner):
        return 41 if instance is None else 42
    def __set_name__(self, owner, name):
        self.known = name

def tag(cls):
    cls.tagged = True
    return cls
'''


class Feature:
    def __init__(self, body="", before=(), after=(), decorators=(), check=None, make=None):
        self.body = body
        self.before = before
        self.after = after
        self.decorators = decorators
        self.check = check or (lambda cls, inst, values: None)
        self.make = make


def expect(what, got, wanted):
    if got != wanted:
        fail(f"{what}: {got!r}, it should be {wanted!r}")


def _inspected(cls, inst, values):
    """What's assigned is known to hooks of other bases, after Struct's own."""
    notes = vars(cls).get("__annotations__", {})
    wanted = [n for n in cls.__binobj_struct__.components if n not in notes]
    expect("fields known to a hook", cls.known_to_hook, wanted)


def _copied(cls, inst, values):
    """Copies have everything the original has."""
    inst = cls(**values)
    inst.unrelated = [1]
    for made in (copy.copy(inst), copy.deepcopy(inst), pickle.loads(pickle.dumps(inst))):
        expect("the copy's class", type(made), cls)
        expect("the copy's attributes", sorted(vars(made)), sorted(vars(inst)))
        expect("the copy's attributes", made.unrelated, [1])
        expect("the copy's bytes", made.to_bytes(), inst.to_bytes())
    expect("a shallow copy's attributes", copy.copy(inst).unrelated is inst.unrelated, True)
    del inst.unrelated


FEATURES = {
    "nothing": Feature(),
    "method": Feature(
        "def double(self):\n    return self.a * 2\n",
        check=lambda c, i, v: expect("method", i.double(), v["a"] * 2),
    ),
    "property": Feature(
        "@property\ndef alias(self):\n    return self.a\n"
        "@alias.setter\ndef alias(self, value):\n    self.a = value\n",
        check=lambda c, i, v: (
            expect("property", i.alias, v["a"]),
            setattr(i, "alias", 77),
            expect("field behind a property", i.a, 77),
            expect("bytes", i.to_bytes()[:1], b"\x4d"),
            setattr(i, "alias", v["a"]),
        ),
    ),
    "classmethod": Feature(
        "@classmethod\ndef build(cls, a):\n    return cls(a=a)\n"
        "@staticmethod\ndef helper(x):\n    return x + 1\n",
        check=lambda c, i, v: (
            expect("class method", type(c.build(3)), c),
            expect("class method", c.build(3).a, 3),
            expect("static method", i.helper(1), 2),
        ),
    ),
    "attributes": Feature(
        'LIMIT = 5\nNAMES = ["x"]\nfn = len\nlam = lambda self: 8\nnothing = None\n',
        check=lambda c, i, v: (
            expect("attribute", (c.LIMIT, i.NAMES, i.lam(), i.nothing), (5, ["x"], 8, None)),
        ),
    ),
    "mixin before": Feature(
        before=("Plain",),
        check=lambda c, i, v: expect("mixin", (i.describe(), c.extra), ("plain", 5)),
    ),
    "mixin after": Feature(
        after=("Plain",),
        check=lambda c, i, v: expect("mixin", (i.describe(), c.extra), ("plain", 5)),
    ),
    "mixin with constructor": Feature(
        before=("WithInit",),
        check=lambda c, i, v: expect("constructor of a mixin", i.seen_by_mixin, True),
    ),
    "mixin with hook": Feature(
        before=("WithHook",),
        check=lambda c, i, v: expect("hook", c.hooked, c.__name__),
    ),
    "mixin with inspecting hook before": Feature(before=("Inspecting",), check=_inspected),
    "mixin with inspecting hook after": Feature(after=("Inspecting",), check=_inspected),
    "mixin with slots": Feature(
        before=("WithSlots",), check=lambda c, i, v: expect("mixin", i.slotted(), "slots")
    ),
    "constructor": Feature(
        "def __init__(self, *args, **kw):\n    self.args = sorted(kw)\n"
        "    super().__init__(*args, **kw)\n"
        "    self.cache = {}\n",
        check=lambda c, i, v: expect("constructor", i.cache, {}),
    ),
    "constructor with argument": Feature(
        'def __init__(self, note="none", **kw):\n    super().__init__(**kw)\n'
        "    self.note = note\n",
        check=lambda c, i, v: (
            expect("argument", c("hello", **v).note, "hello"),
            expect("argument", c(note="hi", **v).to_bytes(), c(**v).to_bytes()),
            expect(
                "argument when loading",
                c.from_bytes(c(**v).to_bytes(), init_kwargs={"note": "loaded"}).note,
                "loaded",
            ),
            expect("argument when loading", c.from_bytes(c(**v).to_bytes()).note, "none"),
            expect("argument of a copy", copy.copy(c("hello", **v)).note, "hello"),
            expect("argument of a copy", copy.deepcopy(c("hello", **v)).note, "hello"),
            _copied(c, i, v),
        ),
    ),
    "overridden dump": Feature(
        "dumps = 0\ndef to_stream(self, stream, context=None):\n"
        "    type(self).dumps += 1\n    return super().to_stream(stream, context)\n",
        check=lambda c, i, v: expect("overridden", _more(c, "dumps", lambda: i.to_stream(io.BytesIO())), True),
    ),
    "overridden load": Feature(
        "loads = 0\n@classmethod\ndef from_stream(cls, stream, context=None, init_kwargs=None):\n"
        "    cls.loads += 1\n    return super().from_stream(stream, context, init_kwargs)\n",
        check=lambda c, i, v: expect(
            "overridden", _more(c, "loads", lambda: c.from_stream(io.BytesIO(i.to_bytes()))), True
        ),
    ),
    "overridden checks": Feature(
        "checks = 0\ndef validate_contents(self, context=None):\n    type(self).checks += 1\n"
        "    return super().validate_contents(context)\n",
        check=lambda c, i, v: (
            expect("overridden", _more(c, "checks", i.validate_contents), True),
        ),
    ),
    "text": Feature(
        'def __str__(self):\n    return "text"\ndef __repr__(self):\n    return "<repr>"\n',
        check=lambda c, i, v: expect("text", (str(i), repr(i)), ("text", "<repr>")),
    ),
    "hashable": Feature(
        "def __hash__(self):\n    return 5\n",
        check=lambda c, i, v: expect("hash", len({i, c(**v)}), 2 if i != c(**v) else 1),
    ),
    "bool": Feature(
        "def __bool__(self):\n    return False\n",
        check=lambda c, i, v: expect("bool", bool(i), False),
    ),
    "generic": Feature(
        after=("typing.Generic[T]",),
        check=lambda c, i, v: expect(
            "generic", (c[int] if c.__parameters__ else c)(**v).to_bytes(), i.to_bytes()
        ),
    ),
    "abstract": Feature(
        "def concrete(self):\n    return 1\n",
        after=("abc.ABC",),
        check=lambda c, i, v: expect("abstract base", i.concrete(), 1),
    ),
    "inner class": Feature(
        "class Kind(enum.IntEnum):\n    A = 1\n    B = 2\nclass Helper:\n    pass\n",
        check=lambda c, i, v: expect("inner class", int(c.Kind.B), 2),
    ),
    "inner struct": Feature(
        "class Part(binobj.Struct):\n    p = fields.UInt8()\n",
        check=lambda c, i, v: (
            expect("inner struct", c.Part(p=1).to_bytes(), b"\1"),
            expect("fields", "Part" in c.__binobj_struct__.components, False),
        ),
    ),
    "descriptor": Feature(
        "special = Desc()\n",
        check=lambda c, i, v: expect("descriptor", (c.special, i.special), (41, 42)),
    ),
    "cached property": Feature(
        "@functools.cached_property\ndef once(self):\n    return [self.a]\n",
        check=lambda c, i, v: (
            expect("cached property", i.once, [v["a"]]),
            expect("cached property", i.once is i.once, True),
        ),
    ),
    "plain annotations": Feature(
        'shared: typing.ClassVar[int] = 5\nremark: str = "n"\nbare: typing.Optional[list]\n',
        check=lambda c, i, v: expect("annotated attributes", (c.shared, i.remark), (5, "n")),
    ),
    "docstring": Feature(
        '"""The documentation."""\n',
        check=lambda c, i, v: None,
    ),
    "private names": Feature(
        "__secret = 9\ndef reveal(self):\n    return self.__secret\n",
        check=lambda c, i, v: expect("private name", i.reveal(), 9),
    ),
    "decorated": Feature(
        decorators=("@tag",), check=lambda c, i, v: expect("class decorator", c.tagged, True)
    ),
    "item access": Feature(
        "def __getattr__(self, name):\n"
        '    if name.startswith("dyn_"):\n        return name[4:]\n'
        "    raise AttributeError(name)\n",
        check=lambda c, i, v: expect("dynamic", i.dyn_x, "x"),
    ),
    "foreign attribute": Feature(
        check=lambda c, i, v: (
            setattr(i, "unrelated", 5),
            expect("attribute of an instance", i.unrelated, 5),
            expect("bytes", i.to_bytes(), c(**v).to_bytes()),
            expect("keys", "unrelated" in list(iter(i.to_dict())), False),
            setattr(c, "late", 6),
            expect("attribute of the class", i.late, 6),
            expect("bytes", i.to_bytes(), c(**v).to_bytes()),
        ),
    ),
    "copies": Feature(
        check=lambda c, i, v: (
            expect("copy", copy.copy(i).to_bytes(), i.to_bytes()),
            expect("deep copy", copy.deepcopy(i).to_bytes(), i.to_bytes()),
            expect("deep copy", type(copy.deepcopy(i)), c),
            expect("deep copy", copy.deepcopy(i) == i, True),
            expect("independence", _changed_copy(i), i.to_bytes()),
        ),
    ),
    "pickled": Feature(
        check=lambda c, i, v: (
            expect("pickle", pickle.loads(pickle.dumps(i)).to_bytes(), i.to_bytes()),
            expect("pickle", type(pickle.loads(pickle.dumps(i, 2))), c),
        ),
    ),
    "made by type()": Feature(make="type"),
    "made by new_class()": Feature(make="new_class"),
    "late fields": Feature(make="loop"),
}


def _more(cls, name, op):
    before = getattr(cls, name)
    op()
    return getattr(cls, name) > before


def _changed_copy(inst):
    other = copy.deepcopy(inst)
    other.a = 200
    other.items.append(1)
    return inst.to_bytes()


################################################################################
# Declarations

FIELDS = {
    # name: (constructor, annotation, default in the body)
    "a": ("fields.UInt8()", "fields.UInt8", None),
    "items": (
        "fields.Array(fields.UInt8(), factory=lambda: [1, 2], count=2)",
        "fields.Array(fields.UInt8(), factory=lambda: [1, 2], count=2)",
        None,
    ),
    "z": (
        'fields.StringZ(encoding="utf-8", default="z")',
        'fields.StringZ(encoding="utf-8")',
        '"z"',
    ),
    "n": ('fields.UInt16(endian="big", default=7)', 'fields.UInt16(endian="big", default=7)', None),
}
PARTS = {"parent": ("a", "items"), "child": ("z", "n")}


def indent(text):
    return "".join("    " + l for l in text.splitlines(True))


def lines_of(names, style):
    out = ""
    for n in names:
        made, annotation, default = FIELDS[n]
        if style == "assigned":
            out += f"{n} = {made}\n"
        else:
            out += f"{n}: {annotation}" + (f" = {default}" if default else "") + "\n"
    return out


def source(name, base, names, features, style):
    """The text of a class statement."""
    before = [b for f in features for b in f.before]
    after = [b for f in features for b in f.after]
    bases = list(dict.fromkeys([*before, base, *after]))
    body = "".join(f.body for f in features if f.body.startswith('"""'))
    rest = [f.body for f in features if f.body and not f.body.startswith('"""')]
    if rest:
        body += rest[0]
    body += lines_of(names, style)
    body += "".join(rest[1:])
    decorators = [d for f in features for d in f.decorators]
    if style != "assigned":
        decorators.append("@binobj.dataclass")
    makes = [f.make for f in features if f.make]
    head = "".join(d + "\n" for d in decorators)
    if not makes:
        return f"{head}class {name}({', '.join(bases)}):\n{indent(body)}"
    if makes[0] == "loop":
        loop = ""
        if style == "assigned":
            names_ = ", ".join(f"({n!r}, {FIELDS[n][0]})" for n in names)
            loop = f"for _name, _field in [{names_}]:\n    locals()[_name] = _field\n"
            loop += "del _name, _field\n"
            body = "".join(f.body for f in features) + loop
        return f"{head}class {name}({', '.join(bases)}):\n{indent(body)}"
    # The body is executed as a class of its own, and its contents are given to type().
    out = f"def _body():\n    class Body:\n{indent(indent(body or 'pass'))}"
    out += "    ns = dict(vars(Body))\n    ns.pop('__dict__'); ns.pop('__weakref__')\n"
    out += f"    ns['__qualname__'] = {name!r}\n    return ns\n"
    if makes[0] == "type":
        out += f"{name} = type(binobj.Struct)({name!r}, ({', '.join(bases)},), _body())\n"
    else:
        out += "import types\n"
        out += (
            f"{name} = types.new_class({name!r}, ({', '.join(bases)},), {{}},"
            " lambda ns: ns.update(_body()))\n"
        )
    for d in reversed(decorators):
        out += f"{name} = {d[1:]}({name})\n"
    return out


def compatible(features, style, split):
    """Can all of these be combined?"""
    makes = [f.make for f in features if f.make]
    if len(makes) > 1:
        return False
    if makes and makes[0] != "loop":
        # Python's own rules: these depend on the class statement.
        for f in features:
            if "super()" in f.body or "__secret" in f.body or f.after or "class " in f.body:
                return False
    names = [n for f in features for n in ("__init__", "def __init__") if n in f.body]
    return len(names) <= 2


VALUES = [
    {"a": 3, "items": [4, 5], "z": "hé", "n": 513},
    {"a": 200},
    {"a": 0, "items": [0, 9], "n": 0},
]
LAYOUT = [b"\3\4\5h\xc3\xa9\0\2\1", b"\xc8\1\2z\0\0\7", b"\0\0\x09z\0\0\0"]
FULL = [
    {"a": 3, "items": [4, 5], "z": "hé", "n": 513},
    {"a": 200, "items": [1, 2], "z": "z", "n": 7},
    {"a": 0, "items": [0, 9], "z": "z", "n": 0},
]


def judge(cls, features, rec):
    import binobj
    from binobj import errors
    from binobj import fields as F

    if tuple(cls.__binobj_struct__.components) != ("a", "items", "z", "n"):
        fail(f"the fields are {tuple(cls.__binobj_struct__.components)}")

    class Holder(binobj.Struct):
        h = F.UInt8(default=1)
        s = F.Nested(cls)
        l = F.Array(F.Nested(cls), count=1)

    for values, raw, full in zip(VALUES, LAYOUT, FULL):
        inst = cls(**values)
        expect("to_bytes", inst.to_bytes(), raw)
        expect("len", len(inst), len(raw))
        expect("to_dict", inst.to_dict(), full)
        expect("bytes", bytes(inst), raw)
        for n, v in full.items():
            expect(f"attribute {n}", getattr(inst, n), v)
            expect(f"key {n}", inst[n], v)
        out = io.BytesIO()
        inst.partial_dump(out, "items")
        expect("partial_dump", out.getvalue(), raw[:3])
        loaded = cls.from_bytes(raw)
        expect("the loaded object's class", type(loaded), cls)
        expect("loaded", loaded.to_dict(), full)
        expect("loaded == given", loaded == cls(**full), True)
        stream = io.BytesIO(raw + b"~")
        expect("partial_load", plain(cls.partial_load(stream, "z").z), full["z"])
        stream.seek(0)
        expect("get_field", cls.get_field(stream, "n"), full["n"])
        holder = Holder(s=inst, l=[values])
        expect("nested", holder.to_bytes(), b"\1" + raw + raw)
        holder = Holder.from_bytes(b"\1" + raw + raw)
        expect("nested", type(holder.s), cls)
        expect("in an array", holder.l[0].to_dict(), full)
        for cut in (1, len(raw) - 1):
            how, got = attempt(cls.from_bytes, raw[:cut])
            if how == "ok" or not isinstance(got, errors.UnexpectedEOFError):
                fail(f"cut at {cut}: {how} {got!r}")
        for f in features:
            f.check(cls, cls(**values), values if "items" in values else full)
            rec.step()
        expect("to_bytes", inst.to_bytes(), raw)
    how, got = attempt(lambda: cls(a=1, unknown=2).to_bytes())
    if how == "ok" or not isinstance(got, errors.UnexpectedValueError):
        fail(f"an unknown name: {how} {got!r}")
    expect("get_size", cls.get_size(), None)


def combined(count):
    def body(ch, rec):
        chosen = [ch.choose(tuple(FEATURES)) for _ in range(count)]
        if len(set(chosen)) < count:
            return
        style = ch.choose(("assigned", "annotated"))
        where = ch.choose(("alone", *(f"{i}" for i in range(2**count))))
        features = [FEATURES[c] for c in chosen]
        text = PRELUDE
        if where == "alone":
            if not compatible(features, style, False):
                return
            text += source("S", "binobj.Struct", (*PARTS["parent"], *PARTS["child"]), features, style)
        else:
            sides = [[], []]
            for i, f in enumerate(features):
                sides[int(where) >> i & 1].append(f)
            if not all(compatible(s, style, True) for s in sides):
                return
            text += source("P", "binobj.Struct", PARTS["parent"], sides[0], style)
            text += source("S", "P", PARTS["child"], sides[1], style)
        rec.case = lambda: f"{chosen} {style} {where}\n{text[len(PRELUDE):]}"
        module = types.ModuleType(f"mc_c32_{abs(hash(text))}")
        sys.modules[module.__name__] = module
        try:
            how, got = attempt(exec, compile(text, "<declaration>", "exec"), vars(module))
            if how == "err":
                # Some bases can't be combined, in Python.
                if isinstance(got, TypeError) and "MRO" in str(got):
                    return
                raise got
            judge(module.S, features, rec)
        finally:
            del sys.modules[module.__name__]
        rec.traced()
        rec.state(*chosen, style, where)

    return body


################################################################################
# Names of fields

NAMES = (
    "a", "_", "_a", "__a", "a_", "A", "a1", "ä", "名", "self_", "cls", "context", "stream", "data",
    "name", "values", "items", "keys", "get", "pop", "update", "const", "size", "default", "index",
    "offset", "field", "fields", "struct", "type", "id", "len", "list", "dict", "object", "int",
    "bytes", "str", "Meta_", "instance", "owner", "value", "exact", "init_kwargs", "last_field",
    "keep_discardable", "all_fields", "loaded_fields", "args", "kwargs", "kw", "binobj", "result",
    "count", "component", "choices", "validate", "present", "factory", "discard", "self",
)


def names(ch, rec):
    """It doesn't matter what fields are called."""
    import binobj
    from binobj import fields as F

    x = ch.choose(NAMES)
    y = ch.choose(NAMES)
    shape = ch.choose(("plain", "reference", "annotated", "nested", "union", "inherited"))
    if x == y:
        return
    rec.case = lambda: f"fields {x!r} and {y!r}, {shape}"
    if shape == "plain":
        ns = {x: F.UInt8(), y: F.StringZ(encoding="utf-8", default="d")}
        S = type(binobj.Struct)("S", (binobj.Struct,), ns)
        values, raw = {x: 3, y: "h"}, b"\3h\0"
    elif shape == "inherited":
        P = type(binobj.Struct)("P", (binobj.Struct,), {x: F.UInt8()})
        S = type(binobj.Struct)("S", (P,), {y: F.StringZ(encoding="utf-8", default="d")})
        values, raw = {x: 3, y: "h"}, b"\3h\0"
    elif shape == "reference":
        n = F.UInt8()
        ns = {
            x: n,
            y: F.Array(F.UInt8(), count=n, present=lambda f, c, s: f[x] != 9),
        }
        n.computes(lambda _self, f: len(f[y]))
        S = type(binobj.Struct)("S", (binobj.Struct,), ns)
        values, raw = {x: 2, y: [5, 6]}, b"\2\5\6"
    elif shape == "annotated":
        ns = {"__annotations__": {x: F.UInt8, y: F.UInt16(endian="big")}, y: 258}
        S = binobj.dataclass(type(binobj.Struct)("S", (binobj.Struct,), ns))
        values, raw = {x: 3, y: 258}, b"\3\1\2"
    elif shape == "nested":
        N = type(binobj.Struct)("N", (binobj.Struct,), {y: F.UInt8(), x: F.UInt8(default=1)})
        S = type(binobj.Struct)("S", (binobj.Struct,), {x: F.Nested(N), y: F.UInt8(default=6)})
        values, raw = {x: {y: 4, x: 5}, y: 6}, b"\4\5\6"
    else:
        N = type(binobj.Struct)("N", (binobj.Struct,), {x: F.UInt8(), y: F.UInt8(default=1)})
        pick = lambda *a: a[1][0]  # noqa: E731
        S = type(binobj.Struct)(
            "S",
            (binobj.Struct,),
            {x: F.UInt8(), y: F.Union(N, load_decider=pick, dump_decider=pick)},
        )
        values, raw = {x: 3, y: {x: 4, y: 5}}, b"\3\4\5"
    rec.step()
    expect("to_bytes", S(**values).to_bytes(), raw)
    expect("to_dict", S(**values).to_dict(), values)
    expect("len", len(S(**values)), len(raw))
    loaded = S.from_bytes(raw)
    expect("loaded", loaded.to_dict(), values)
    expect("loaded", plain(getattr(loaded, x)), values[x])
    expect("loaded", plain(loaded[y]), values[y])
    expect("to_bytes", loaded.to_bytes(), raw)
    expect("get_field", plain(S.get_field(io.BytesIO(raw), y)), values[y])
    expect("partial_load", plain(S.partial_load(io.BytesIO(raw))[x]), values[x])
    out = io.BytesIO()
    S(**values).partial_dump(out)
    expect("partial_dump", out.getvalue(), raw)
    expect("overridden", S.from_bytes(raw, init_kwargs={y: values[y]}).to_dict(), values)
    expect("equality", S(**values) == S.from_bytes(raw), True)
    inst = S(**values)
    if shape != "reference":
        inst[x] = values[x]
        setattr(inst, x, values[x])
    expect("keys", {n for n in iter(inst)}, {x, y})
    expect("to_bytes", inst.to_bytes(), raw)
    rec.traced()
    rec.state(x, y, shape)


def bodies(tier, seed):
    out = {"pairs": combined(2), "names": names}
    if tier == "thorough":
        out["triples"] = combined(3)
    return out
