"""C31: the library can be used within its own callbacks."""

import io

from mc.lib import attempt
from mc.lib import fail
from mc.model import plain

BOUNDS = {
    "quick": "13 sorts of callbacks in 4 places (in the structure itself, in a nested one, in the"
    " elements of an array, in an alternative) x 3 classes used in it (the same, its parent,"
    " an unrelated one) x 16 operations done in it (one of them failing) x 12 operations that"
    " call it, at each single call and at all calls; formats that contain themselves, by 4"
    " means: all trees of up to 6 nodes, with all cuts",
    "thorough": "also two levels of callbacks within callbacks; trees of up to 8 nodes",
}
ASSUMPTIONS = [
    "what a callback does ends: it doesn't start the operation that it's called from again",
]

SITES = (
    "present",
    "compute",
    "validate",
    "method",
    "struct",
    "load_decider",
    "dump_decider",
    "halt_check",
    "factory",
    "null-eq",
    "own-load",
    "own-dump",
    "own-size",
)
PLACES = ("top", "nested", "element", "alternative")


def world(site, place, hook):
    """A structure whose callback at ``site`` calls ``hook``, and the classes around it."""
    import binobj
    from binobj import decorators
    from binobj import fields as F

    def at(name, result):
        def callback(*args):
            if site == name:
                hook()
            return result(*args) if callable(result) else result

        return callback

    class Null:
        def __eq__(self, other):
            at("null-eq", None)()
            return other == 77

        def __hash__(self):
            return 1

    class Own(F.Field):
        def _do_load(self, stream, context, loaded_fields):
            n = stream.read(1)
            at("own-load", None)()
            if not n:
                self._read_exact_size(stream, loaded_fields)
            rest = stream.read(n[0])
            return rest.decode("ascii")

        def _do_dump(self, stream, data, context, all_fields):
            stream.write(bytes([len(data)]))
            at("own-dump", None)()
            stream.write(data.encode("ascii"))

        def _size_for_value(self, value):
            at("own-size", None)()
            return 1 + len(value)

    class Parent(binobj.Struct):
        n = F.UInt8()
        text = F.StringZ(encoding="utf-8", default="t")

    class Inner(Parent):
        items = F.Array(
            F.UInt16(endian="big"),
            count=Parent.n,
        )
        own = Own(default="own")
        flag = F.UInt8(
            present=at("present", lambda f, c, s: f["n"] > 1), default=9,
            validate=at("validate", None),
        )
        made = F.UInt8(factory=at("factory", 5))
        sometimes = F.UInt8(null_value=Null() if site == "null-eq" else 77, default=3)
        choice = F.Union(
            F.UInt8(), F.UInt16(endian="little"),
            load_decider=at("load_decider", lambda s, c, x, f: c[f["n"] % 2]),
            dump_decider=at("dump_decider", lambda d, c, x, f: c[f["n"] % 2]),
        )
        list_ = F.Array(
            F.UInt8(), halt_check=at("halt_check", lambda a, s, v, c, f: len(v) >= f["n"])
        )
        total = F.UInt8()

        @total.computes
        def _total(self, values):
            at("compute", None)()
            return sum(values["items"]) % 256

        @decorators.validates("made")
        def _made(self, field, value):
            at("method", None)()

        @decorators.validates_struct
        def _all(self, values):
            at("struct", None)()

    if place == "top":
        outer = Inner
    elif place == "nested":
        class outer(binobj.Struct):
            head = F.UInt8()
            part = F.Nested(Inner)
            tail = F.UInt8()
    elif place == "element":
        class outer(binobj.Struct):
            head = F.UInt8()
            part = F.Array(F.Nested(Inner), count=2)
            tail = F.UInt8()
    else:
        class outer(binobj.Struct):
            head = F.UInt8()
            part = F.Union(
                Parent, Inner, load_decider=lambda s, c, x, f: c[1],
                dump_decider=lambda d, c, x, f: c[1],
            )
            tail = F.UInt8()

    class Other(binobj.Struct):
        k = F.UInt8()
        z = F.StringZ(encoding="ascii")
        own = Own()

    return outer, Inner, Parent, Other


def inner_values(i):
    n = (2, 3, 1)[i]
    out = {
        "n": n,
        "text": ("hi", "", "wörd")[i],
        "items": [513 * j + i for j in range(n)],
        "own": ("abc", "", "z")[i],
        "choice": (7, 500, 400)[i],
        "list_": [9] * n,
        "made": 6 + i,
        "sometimes": (4, 5, 6)[i],
    }
    if n > 1:
        out["flag"] = 40 + i
    return out


def outer_values(place, i):
    v = inner_values(i)
    if place == "top":
        return v
    part = [v, inner_values(1)] if place == "element" else v
    return {"head": 3, "part": part, "tail": 4}


PARENT = ({"n": 4, "text": "pp"}, b"\4pp\0")
OTHER = ({"k": 8, "z": "zz", "own": "qqqq"}, b"\x08zz\0\4qqqq")


def see(op):
    """The result of an operation, to be compared with others."""
    how, got = attempt(op)
    if how == "err":
        return type(got).__name__
    return plain(got)


def dumped(cls, values, how, last=None):
    def op():
        inst = cls(**values)
        if how == "to_bytes":
            return inst.to_bytes()
        out = io.BytesIO()
        if how == "to_stream":
            inst.to_stream(out)
        else:
            inst.partial_dump(out, last)
        return out.getvalue()

    return op


def loaded(cls, data, how, last):
    def op():
        stream = io.BytesIO(b"ab" + data)
        stream.seek(2)
        if how == "from_bytes":
            got = cls.from_bytes(data)
        elif how == "from_stream":
            got = cls.from_stream(stream)
        elif how == "partial_load":
            got = cls.partial_load(stream)
        elif how == "partial_load to":
            got = cls.partial_load(stream, last)
        elif how == "get_field":
            return [cls.get_field(stream, last), stream.tell()]
        return [plain(got), stream.tell()]

    return op


def operations(cls, values, data, last):
    """All sorts of operations on new instances of a class."""
    out = {
        "to_bytes": dumped(cls, values, "to_bytes"),
        "to_stream": dumped(cls, values, "to_stream"),
        "partial_dump": dumped(cls, values, "partial_dump"),
        "partial_dump to": dumped(cls, values, "partial_dump", last),
        "len": lambda: len(cls(**values)),
        "to_dict": lambda: cls(**values).to_dict(keep_discardable=True),
        "validate": lambda: cls(**values).validate_contents(),
        "attributes": lambda: [
            see(lambda: getattr(cls(**values), f)) for f in cls.__binobj_struct__.components
        ],
        "equality": lambda: cls(**values) == cls(**values),
    }
    for how in ("from_bytes", "from_stream", "partial_load", "partial_load to", "get_field"):
        out[how] = loaded(cls, data, how, last)
    out["cut"] = lambda: cls.from_bytes(data[:-1])
    out["unfit"] = dumped(cls, {**values, next(iter(values)): "?"}, "to_bytes")
    return out


def nesting(ch, rec):
    """Operations within callbacks."""
    site = ch.choose(SITES)
    place = ch.choose(PLACES)
    state = {"left": None, "calls": 0, "do": None, "busy": False, "seen": []}

    def hook():
        if state["busy"]:
            return
        state["calls"] += 1
        if state["do"] is None or state["left"] not in (None, state["calls"]):
            return
        state["busy"] = True
        try:
            state["seen"].append(see(state["do"]))
        finally:
            state["busy"] = False

    outer, Inner, Parent, Other = world(site, place, hook)
    values = outer_values(place, 0)
    state["do"] = None
    raw = outer(**values).to_bytes()
    last = "own" if place == "top" else "part"
    within = {}
    v2 = inner_values(2)
    for label, cls, vs, d, name in (
        ("same", Inner, v2, Inner(**v2).to_bytes(), "choice"),
        ("parent", Parent, *PARENT, "text"),
        ("other", Other, *OTHER, "z"),
    ):
        for k, op in operations(cls, vs, d, name).items():
            within[label, k] = op
    around = operations(outer, values, raw, last)
    # What they give without each other
    state["busy"] = True
    alone_within = {k: see(op) for k, op in within.items()}
    alone_around = {k: see(op) for k, op in around.items()}
    state["busy"] = False

    what = ch.choose(tuple(within))
    for k, op in around.items():
        state.update(do=None, calls=0)
        see(op)
        n = state["calls"]
        for left in (None, *range(1, min(n, 4) + 1)) if n else ():
            state.update(do=within[what], calls=0, left=left, seen=[])
            rec.case = lambda: (
                f"{what} in a callback ({site}, {place}) during {k}, call {left} of {n}"
            )
            got = see(op)
            state["do"] = None
            rec.step()
            rec.state(site, place, what, k, left)
            if got != alone_around[k]:
                fail(f"{k} gives {got!r}, without it {alone_around[k]!r}")
            for s in state["seen"]:
                if s != alone_within[what]:
                    fail(f"{what} gives {s!r} in the callback, {alone_within[what]!r} alone")
            if not state["seen"]:
                fail("the callback isn't called any more")
    rec.traced()


def deeper(ch, rec):
    """Operations within callbacks within callbacks: each starts the next one."""
    site = ch.choose(SITES)
    place = ch.choose(PLACES)
    state = {"queue": [], "seen": {}}

    def hook():
        if not state["queue"]:
            return
        k, op = state["queue"].pop(0)
        state["seen"][k] = see(op)

    outer, Inner, Parent, Other = world(site, place, hook)
    values = outer_values(place, 0)
    raw = outer(**values).to_bytes()
    vs = [inner_values(i) for i in (2, 1)]
    ops = [
        operations(Inner, v, Inner(**v).to_bytes(), "choice") for v in vs
    ]
    around = operations(outer, values, raw, "own" if place == "top" else "part")
    names = tuple(ops[0])
    alone = [{k: see(op) for k, op in o.items()} for o in ops]
    alone_around = {k: see(op) for k, op in around.items()}
    a = ch.choose(names)
    b = ch.choose(names)
    for k, op in around.items():
        state["queue"] = [((0, a), ops[0][a]), ((1, b), ops[1][b])]
        state["seen"] = {}
        rec.case = lambda: f"{b} within {a} within {k} ({site}, {place})"
        got = see(op)
        state["queue"] = []
        rec.step()
        rec.state(site, place, a, b, k)
        if got != alone_around[k]:
            fail(f"{k} gives {got!r}, without them {alone_around[k]!r}")
        for (i, name), s in state["seen"].items():
            if s != alone[i][name]:
                fail(f"{name} gives {s!r} in there, {alone[i][name]!r} alone")
    rec.traced()


################################################################################
# Formats that contain themselves


def trees(n):
    """All ordered trees of ``n`` nodes, as lists of subtrees."""
    if n == 1:
        return [[]]
    return forests(n - 1)


def forests(n):
    if n == 0:
        return [[]]
    out = []
    for first in range(1, n + 1):
        for t in trees(first):
            for rest in forests(n - first):
                out.append([t, *rest])
    return out


def number(tree, counter):
    """Give each node a value that depends on its place."""
    label = counter[0]
    counter[0] += 1
    return label, [number(t, counter) for t in tree]


def encode(node, means):
    label, children = node
    head = bytes([label]) + b"n%d\0" % label + bytes([len(children)])
    return head + b"".join(
        (b"\1" if means == "union" else b"") + encode(c, means) for c in children
    )


def tree_class(means):
    import binobj
    from binobj import fields as F

    class Ref(F.Field):
        def _do_load(self, stream, context, loaded_fields):
            return Tree.from_stream(stream, context)

        def _do_dump(self, stream, data, context, all_fields):
            if not isinstance(data, Tree):
                data = Tree(**data)
            data.to_stream(stream, context)

    class Leaf(binobj.Struct):
        n = F.UInt8()

    if means == "own":
        part = Ref()
    elif means == "union":
        class Branch(binobj.Struct):
            tag = F.UInt8(const=1)
            tree = Ref()

        part = F.Nested(Branch)
    elif means == "decider":
        part = F.Union(
            Leaf,
            load_decider=lambda s, c, x, f: Tree,
            dump_decider=lambda d, c, x, f: Tree,
        )
    else:
        part = F.Union(
            F.UInt8(),
            load_decider=lambda s, c, x, f: F.Nested(Tree),
            dump_decider=lambda d, c, x, f: F.Nested(Tree),
        )

    class Tree(binobj.Struct):
        label = F.UInt8()
        name = F.StringZ(encoding="ascii")
        n = F.UInt8()
        parts = F.Array(part, count=n)

        @n.computes
        def _n(self, values):
            return len(values["parts"])

    return Tree


def model(node, means):
    label, children = node
    parts = [model(c, means) for c in children]
    if means == "union":
        parts = [{"tag": 1, "tree": p} for p in parts]
    return {"label": label, "name": f"n{label}", "n": len(children), "parts": parts}


def given(node, means, cls, as_instances):
    label, children = node
    parts = [given(c, means, cls, as_instances) for c in children]
    if means == "union":
        parts = [{"tree": p} for p in parts]
    out = {"label": label, "name": f"n{label}", "parts": parts}
    return cls(**out) if as_instances else out


def selfcontaining(size):
    def body(ch, rec):
        from binobj import errors

        means = ch.choose(("own", "union", "decider", "field"))
        n = 1 + ch.pick(size)
        shapes = trees(n)
        tree = ch.choose(tuple(range(len(shapes))))
        node = number(shapes[tree], [1])
        Tree = tree_class(means)
        raw = encode(node, means)
        expected = model(node, means)
        rec.case = lambda: f"{means}: {node}"
        for as_instances in (False, True):
            top = given(node, means, Tree, as_instances)
            inst = top if as_instances else Tree(**top)
            for what, got, want in (
                ("to_bytes", lambda: inst.to_bytes(), raw),
                ("len", lambda: len(inst), len(raw)),
                ("to_dict", lambda: inst.to_dict(), None),
                ("again", lambda: inst.to_bytes(), raw),
            ):
                how, r = attempt(got)
                rec.step()
                if how == "err":
                    fail(f"{what}: {r!r}")
                if want is not None and r != want:
                    fail(f"{what}: {r!r}, expected {want!r}")
        how, r = attempt(Tree.from_bytes, raw)
        if how == "err":
            fail(f"from_bytes: {r!r}")
        if r.to_dict() != expected:
            fail(f"loaded {r.to_dict()!r}, expected {expected!r}")
        if r.to_bytes() != raw or len(r) != len(raw):
            fail(f"the loaded one dumps {r.to_bytes()!r}")
        got = Tree.get_field(io.BytesIO(raw), "parts")
        if plain(got) != expected["parts"]:
            fail(f"get_field gives {plain(got)!r}")
        stream = io.BytesIO(raw + raw)
        if Tree.from_stream(stream) != Tree.from_stream(stream) or stream.tell() != 2 * len(raw):
            fail("two of them one after the other don't load")
        for cut in range(len(raw)):
            how, r = attempt(Tree.from_bytes, raw[:cut])
            rec.step()
            if how == "ok" or not isinstance(r, errors.UnexpectedEOFError):
                fail(f"cut at {cut}: {how} {r!r}")
        rec.traced()
        rec.state(means, repr(node))

    return body


def bodies(tier, seed):
    out = {"nesting": nesting}
    if tier == "thorough":
        out["deeper"] = deeper
    out["self-containing"] = selfcontaining(8 if tier == "thorough" else 6)
    return out
