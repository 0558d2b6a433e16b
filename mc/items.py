"""The catalogue of declarations the explorations are built from.

``KINDS`` is a wide list of single field kinds, ``WRAPPERS`` the places a field can be
put in, and ``ITEMS`` are small groups of fields (a length and what it measures, a flag
and what depends on it, ...) that are combined with each other in every order.
"""

import datetime

from mc.custom import OWN
from mc.custom import OwnPair
from mc.custom import OwnPascal
from mc.model import ABSENT
from mc.model import Arr
from mc.model import DEFAULT
from mc.model import Float
from mc.model import FS
from mc.model import Int
from mc.model import Nest
from mc.model import Raw
from mc.model import Spec
from mc.model import Stamp
from mc.model import Str
from mc.model import StrZ
from mc.model import UTC
from mc.model import Uni
from mc.model import Uuid
from mc.model import VarInt

ENCODINGS = (
    "iso-8859-1",
    "utf-8",
    "utf-16-le",
    "utf-16-be",
    "utf-32-le",
    "utf-16",
    "utf-8-sig",
    "cp037",
    "shift_jis",
)


def _kinds():
    import sys

    out = []
    for size in (1, 2, 3, 4, 5, 6, 7, 8, 9, 16):
        for signed in (True, False):
            for endian in ("big", "little"):
                out.append((lambda a=(size, signed, endian): Int(*a)))
    for size in (1, 2, 4, 8):
        for signed in (True, False):
            out.append(lambda a=(size, signed): Int(*a, sys.byteorder, native=True))
    out.append(lambda: Int(4, True, "big", generic=True))
    out.append(lambda: Int(2, False, "little", generic=True))
    for size in (2, 4, 8):
        for endian in ("big", "little"):
            out.append(lambda a=(size, endian): Float(*a))
        out.append(lambda a=size: Float(a, sys.byteorder, native=True))
    for fmt in ("vlq", "uleb", "leb", "compact"):
        for limit in (None, 1, 2, 3):
            out.append(lambda a=(fmt, limit): VarInt(*a))
    for size in (0, 1, 2, 5, 300):
        out.append(lambda a=size: Raw(a))
    for enc in ENCODINGS:
        unit = len("A".encode(enc))
        out.append(lambda a=(unit * 3, enc): Str(*a))
        pad = " ".encode("cp037") if enc == "cp037" else b" "
        if enc in ("iso-8859-1", "utf-8", "cp037", "shift_jis", "utf-8-sig"):
            out.append(lambda a=(6, enc, pad): Str(*a))
        if unit == 1 or enc.startswith("utf-"):
            out.append(lambda a=(8, enc, b"\0"): Str(*a))
        out.append(lambda a=enc: StrZ(a))
        out.append(lambda a=(enc, 12, b"\0"): StrZ(*a))
        out.append(lambda a=(enc, 12, b" "): StrZ(*a))
        out.append(lambda a=(enc, 4 * unit): StrZ(*a))
    for fmt in ("bin1", "bin2", "canon", "hex"):
        out.append(lambda a=fmt: Uuid(a))
    for size, res in ((4, "s"), (8, "s"), (8, "ms"), (8, "us"), (8, "ns"), (12, "us")):
        for aware in (True, False):
            for endian in ("big", "little"):
                out.append(lambda a=(size, res, aware, True, endian): Stamp(*a))
    out.append(lambda: Stamp(4, "s", True, False, "big"))
    out.append(lambda: Stamp(5, "ms", True, False, "little"))
    out.append(lambda: Stamp(7, "us", True, True, "big"))
    u16 = lambda: Int(2, False, "big")  # noqa: E731
    out.append(lambda: Arr(u16(), 3))
    out.append(lambda: Arr(Int(3, True, "little"), 0))
    out.append(lambda: Arr(StrZ("utf-16-le"), 2))
    out.append(lambda: Arr(StrZ(), ("stop", ""), values=[["a", ""], [""], ["x", "yz", ""]]))
    out.append(lambda: Arr(Int(1, False, "big"), ("stop", 0), values=[[5, 0], [0], [255, 1, 0]]))
    out.append(lambda: Arr(Arr(u16(), 2), 2))
    out.append(lambda: Arr(Uuid("bin2"), 2))
    out.append(lambda: Arr(VarInt("leb"), 4))
    out.append(lambda: Arr(Float(4, "big"), 2))
    out.append(lambda: Nest(*_fixed_struct("NF")))
    out.append(lambda: Nest(*_var_struct("NV")))
    out.append(lambda: Nest(*_cond_struct("NC")))
    out.append(lambda: Arr(Nest(*_fixed_struct("NG")), 2))
    out.append(lambda: Arr(Nest(*_cond_struct("NH")), 2))
    out.append(lambda: Str(0, "utf-8", values=[""]))
    out.append(lambda: Nest(Spec([], name="NE"), [{}]))
    out.append(lambda: Arr(Nest(Spec([], name="NE"), [{}]), 2))
    out.append(lambda: Arr(Nest(*_var_struct("NW")), 2))
    out.append(lambda: Arr(Arr(StrZ("utf-8"), 2), 2))
    out.append(lambda: Arr(Arr(u16(), 0), 2))
    out.append(lambda: Nest(*_ref_struct("NR")))
    out.append(lambda: Nest(*_deep_struct("ND")))
    out += OWN
    # (A cut in a date is found before the end of what stands for None is missed.)
    out += [lambda a=a: Arr(a(), 2) for a in OWN[1:]]
    return out


def _fixed_struct(name):
    spec = Spec([FS("p", Int(1, False, "big")), FS("q", Int(2, True, "little"))], name=name)
    return spec, [{"p": 200, "q": -2}, {"p": 0, "q": 0x0102}]


def _var_struct(name):
    spec = Spec([FS("s", StrZ("utf-8")), FS("t", Int(2, False, "big"), default=0x0A0B)], name=name)
    return spec, [
        {"s": "\u0416", "t": 1},
        {"s": "", "t": 0xFFFE},
        {"s": "ab", "t": 0x0A0B},
    ]


def on(flag):
    def present(values, context=None, stream=None):
        return values[flag] == 1

    return present


def _cond_struct(name):
    spec = Spec(
        [
            FS("f", Int(1, False, "big")),
            FS("o", Int(2, False, "big"), present=on("f"), npv=None),
            FS("e", Int(1, False, "big")),
        ],
        name=name,
    )
    return spec, [
        {"f": 1, "o": 0x0102, "e": 3},
        {"f": 0, "o": None, "e": 4},
    ]


def _ref_struct(name):
    count = FS("n", Int(1, False, "big"), computed=lambda env: len(env["r"]))
    spec = Spec([count, FS("r", Arr(StrZ("utf-8"), "n", values=[]))], name=name)
    return spec, [{"r": ["a", ""]}, {"r": []}]


def _deep_struct(name):
    inner, values = _cond_struct(name + "I")
    nest = Nest(inner, values)
    return (
        Spec([FS("d", nest), FS("g", Arr(nest, 1))], name=name),
        [{"d": values[0], "g": [values[1]]}, {"d": values[1], "g": [values[1]]}],
    )


KINDS = _kinds()


class Case:
    """A declaration together with value assignments to try on it."""

    def __init__(self, spec, assigns):
        self.spec, self.assigns = spec, assigns

    def __repr__(self):
        return repr(self.spec)


U8 = lambda: Int(1, False, "big")  # noqa: E731


def _around(before, kind, after, assigns_extra=None, **opts):
    fields = before + [FS("x", kind, **opts)] + after
    base = {"a": 0x5A, "z": "hi\u00e9", "b": 0xA5}
    names = {f.name for f in fields}
    base = {k: v for k, v in base.items() if k in names}
    return Case(Spec(fields), [{**base, "x": v} for v in kind.values])


def w_alone(k):
    return _around([], k, [])


def w_after_fixed(k):
    return _around([FS("a", U8())], k, [FS("b", U8())])


def w_after_var(k):
    return _around([FS("z", StrZ("utf-8"))], k, [FS("b", U8())])


def w_array(k):
    vs = k.values
    if not vs:
        return None
    arr = Arr(k, 2, values=[[vs[i], vs[(i + 1) % len(vs)]] for i in range(len(vs))])
    return _around([], arr, [FS("b", U8())])


def w_array_eof(k):
    vs = k.values
    if not vs or k.fixed == 0:
        return None
    arr = Arr(k, None, values=[[vs[0]], [], list(vs), [vs[-1]] * 2])
    return _around([FS("a", U8())], arr, [])


def w_array_ref(k):
    vs = k.values
    if not vs:
        return None
    spec = Spec(
        [
            FS("n", U8(), computed=lambda env: len(env["x"])),
            FS("x", Arr(k, "n", values=[])),
            FS("b", U8()),
        ]
    )
    return Case(
        spec, [{"x": xs, "b": 9} for xs in ([], [vs[0]], [vs[-1], vs[0]], list(vs))]
    )


def w_nested(k):
    inner = Spec([FS("i", k), FS("j", U8())], name="In")
    nest = Nest(inner, [{"i": v, "j": 7} for v in k.values])
    return _around([FS("a", U8())], nest, [FS("b", U8())])


def w_nested2(k):
    inner = Spec([FS("j", U8()), FS("i", k)], name="In")
    mid = Spec([FS("m", Nest(inner, []))], name="Mid")
    nest = Nest(mid, [{"m": {"i": v, "j": 7}} for v in k.values])
    return _around([FS("z", StrZ("utf-8"))], nest, [FS("b", U8())])


def w_union(k):
    spec = Spec([FS("t", U8()), FS("x", Uni([StrZ(), k], "t")), FS("b", U8())])
    return Case(
        spec,
        [{"t": 1, "x": v, "b": 3} for v in k.values] + [{"t": 0, "x": "uv", "b": 3}],
    )


def w_in_parent(k):
    parent = Spec([FS("a", U8()), FS("x", k)], name="P")
    spec = Spec([FS("b", U8())], parent=parent, name="C")
    return Case(spec, [{"a": 1, "x": v, "b": 2} for v in k.values])


def w_in_child(k):
    parent = Spec([FS("a", U8())], name="P")
    spec = Spec([FS("x", k), FS("b", U8())], parent=parent, name="C")
    return Case(spec, [{"a": 1, "x": v, "b": 2} for v in k.values])


def w_conditional(k):
    spec = Spec([FS("f", U8()), FS("x", k, present=on("f")), FS("b", U8())])
    out = [{"f": 1, "x": v, "b": 2} for v in k.values]
    out += [{"f": 0, "b": 2}, {"f": 0, "x": k.values[0], "b": 2}] if k.values else []
    return Case(spec, out)


def w_nullable(k):
    if not k.fixed or k.fixed > 40:
        return None
    null = b"\xee" * k.fixed
    c = _around([FS("a", U8())], k, [FS("b", U8())], null=null)
    c.assigns.insert(1, {"a": 1, "x": None, "b": 2})
    return c


def w_default(k):
    if not k.values or isinstance(k, (Arr, Nest)):
        return None
    c = _around([FS("a", U8())], k, [FS("b", U8())], default=k.values[-1])
    c.assigns.append({"a": 1, "b": 2})
    return c


def w_const(k):
    if not k.values or isinstance(k, (Arr, Nest, Uni)) or k.values[0] != k.values[0]:
        return None
    spec = Spec([FS("a", U8()), FS("x", k, const=k.values[0]), FS("b", U8())])
    return Case(spec, [{"a": 1, "b": 2}, {"a": 1, "x": k.values[0], "b": 2}])


def w_discard(k):
    return _around([FS("a", U8())], k, [FS("b", U8())], discard=True)


def w_annotated(k):
    spec = Spec([FS("a", U8()), FS("x", k), FS("b", U8())], style="instance")
    return Case(spec, [{"a": 1, "x": v, "b": 2} for v in k.values])


WRAPPERS = [
    w_alone,
    w_after_fixed,
    w_after_var,
    w_array,
    w_array_eof,
    w_array_ref,
    w_nested,
    w_nested2,
    w_union,
    w_in_parent,
    w_in_child,
    w_conditional,
    w_nullable,
    w_default,
    w_const,
    w_discard,
    w_annotated,
]

################################################################################
# Items: groups of fields for combining


class Item:
    def __init__(self, fields, assigns, last=False):
        self.fields, self.assigns, self.last = fields, assigns, last


def one(make, n=3, **opts):
    """An item of a single field."""

    def build(p):
        k = make()
        return Item([FS(p, k, **opts)], [{p: v} for v in list(k.values)[:n]])

    return build


def i_own(p):
    """Fields of user-defined types: a nullable one, and one with a default."""
    x, y = p + "x", p + "y"
    return Item(
        [
            FS(x, OwnPair(), null=b"\xee\xef\xee"),
            FS(y, OwnPascal(), default="d\0"),
        ],
        [{x: [1, -2], y: "\xe9"}, {x: None}, {x: [255, 0x0203], y: ""}],
    )


def i_ref_array(p):
    n, x = p + "n", p + "x"
    return Item(
        [
            FS(n, U8(), computed=lambda env: len(env[x])),
            FS(x, Arr(Int(2, False, "big"), n, values=[])),
        ],
        [{x: [1, 0x0203]}, {x: []}, {x: [0xFFFF, 0, 7]}],
    )


def i_ref_array_field(p):
    n, x = p + "n", p + "x"
    return Item(
        [FS(n, Int(2, False, "little")), FS(x, Arr(StrZ("utf-8"), n, values=[], by_field=True))],
        [{n: 2, x: ["\u20ac", ""]}, {n: 0, x: []}],
    )


def i_ref_text(p):
    n, x = p + "n", p + "x"
    return Item(
        [
            FS(n, Int(2, False, "big"), computed=lambda env: len(env[x].encode("utf-8"))),
            FS(x, Str(n, "utf-8", values=[])),
        ],
        [{x: "\u0416a"}, {x: ""}, {x: "zz\U0001f600"}],
    )


def i_ref_bytes_field(p):
    n, x = p + "n", p + "x"
    k = Raw(n, values=[b""])
    k.by_field = True
    return Item(
        [FS(n, U8()), FS(x, k)],
        [{n: 3, x: b"\1\0\xff"}, {n: 0, x: b""}],
    )


def i_ref_padded(p):
    n, x = p + "n", p + "x"
    return Item(
        [FS(n, U8()), FS(x, Str(n, "iso-8859-1", b".", values=[]))],
        [{n: 4, x: "ab"}, {n: 0, x: ""}, {n: 2, x: "\u00e9z"}],
    )


def i_ref_strz(p):
    n, x = p + "n", p + "x"
    return Item(
        [FS(n, U8()), FS(x, StrZ("utf-16-le", n, b"\0", values=[]))],
        [{n: 8, x: "\u0416"}, {n: 2, x: ""}],
    )


def i_vli_ref(p):
    n, x = p + "n", p + "x"
    return Item(
        [
            FS(n, VarInt("uleb"), computed=lambda env: len(env[x])),
            FS(x, Raw(n, values=[b""])),
        ],
        [{x: b"abc"}, {x: bytes(range(130))}],
    )


def i_magic(p):
    return Item([FS(p, Int(4, False, "big"), const=0xFEEDFACE)], [{}])


def i_magic_text(p):
    return Item([FS(p, StrZ("utf-8"), const="\u00e9!")], [{}])


def i_magic_raw(p):
    return Item([FS(p, Raw(3, values=[b"BM\0"]), const=b"BM\0")], [{}])


def i_default(p):
    return Item([FS(p, Int(2, True, "big"), default=-3)], [{}, {p: 9}])


def i_default_var(p):
    return Item([FS(p, StrZ("utf-8"), default="d\u0416")], [{}, {p: ""}])


def i_factory(p):
    return Item([FS(p, Raw(2, values=[b"f!"]), factory=lambda: b"f!")], [{}, {p: b"xy"}])


def i_null_bytes(p):
    return Item(
        [FS(p, Int(4, False, "big"), null=b"\xff\xff\xff\xff")],
        [{p: None}, {p: 0xFFFFFFFE}, {p: 3}],
    )


def i_null_default(p):
    return Item([FS(p, Raw(2, values=[b""]), null=DEFAULT)], [{p: None}, {p: b"\0\1"}])


def i_null_value(p):
    return Item(
        [FS(p, StrZ("utf-8"), null="\\N")], [{p: None}, {p: "\\n"}, {p: "\\NN"}, {p: ""}]
    )


def i_null_int_value(p):
    return Item([FS(p, Int(2, True, "little"), null=-1)], [{p: None}, {p: 255}, {p: -256}])


def i_null_default_null(p):
    return Item(
        [FS(p, Int(2, False, "big"), null=b"\x80\x80", default=None)], [{}, {p: 0x8081}]
    )


def i_discard_default(p):
    return Item([FS(p, Int(2, False, "big"), discard=True, default=0xABCD)], [{}, {p: 1}])


def i_discard(p):
    return Item([FS(p, StrZ("utf-8"), discard=True)], [{p: "gone"}, {p: ""}])


def i_discard_count(p):
    n, x = p + "n", p + "x"
    return Item(
        [
            FS(n, U8(), discard=True, computed=lambda env: len(env[x])),
            FS(x, Raw(n, values=[b""])),
        ],
        [{x: b"pq"}, {x: b""}],
    )


def i_optional(p):
    f, x = p + "f", p + "x"
    return Item(
        [FS(f, U8()), FS(x, Int(2, False, "big"), present=on(f))],
        [{f: 1, x: 0x0102}, {f: 0}, {f: 0, x: 5}],
    )


def i_optional_npv(p):
    f, x = p + "f", p + "x"
    return Item(
        [FS(f, U8()), FS(x, StrZ("utf-8"), present=on(f), npv=None)],
        [{f: 1, x: "yes"}, {f: 0, x: None}, {f: 0}],
    )


def i_optional_default(p):
    f, x = p + "f", p + "x"
    return Item(
        [FS(f, U8()), FS(x, Int(2, False, "little"), present=on(f), npv=77, default=300)],
        [{f: 1}, {f: 0}, {f: 1, x: 2}, {f: 0, x: 77}],
    )


def i_optional_const(p):
    f, x = p + "f", p + "x"
    return Item(
        [FS(f, U8()), FS(x, Int(2, False, "big"), present=on(f), const=0x1234)],
        [{f: 1}, {f: 0}],
    )


def i_optional_array(p):
    f, x = p + "f", p + "x"
    return Item(
        [FS(f, U8()), FS(x, Arr(U8(), 2), present=on(f))], [{f: 1, x: [1, 2]}, {f: 0}]
    )


def i_optional_discard(p):
    f, x = p + "f", p + "x"
    return Item(
        [FS(f, U8()), FS(x, Int(2, False, "big"), present=on(f), discard=True)],
        [{f: 1, x: 0x0102}, {f: 0}],
    )


def i_optional_nest(p):
    f, x = p + "f", p + "x"
    nest = Nest(*_var_struct("ON"))
    return Item(
        [FS(f, U8()), FS(x, nest, present=on(f))],
        [{f: 1, x: nest.values[0]}, {f: 0}],
    )


def i_sentinel(p):
    k = Arr(Int(2, False, "big"), ("stop", 0), values=[[7, 256, 0], [0]])
    return Item([FS(p, k)], [{p: v} for v in k.values])


def i_union(p):
    t, x = p + "t", p + "x"
    return Item(
        [FS(t, U8()), FS(x, Uni([Int(2, False, "little"), StrZ("utf-8")], t))],
        [{t: 0, x: 258}, {t: 1, x: "\u20ac"}],
    )


def i_union_struct(p):
    t, x = p + "t", p + "x"
    a = Spec([FS("ua", Int(2, False, "big"))], name="UA")
    b = Spec([FS("ub", StrZ()), FS("uc", U8(), default=4)], name="UB")
    return Item(
        [FS(t, U8()), FS(x, Uni([Nest(a, []), Nest(b, [])], t))],
        [{t: 0, x: {"ua": 5}}, {t: 1, x: {"ub": "q", "uc": 4}}],
    )


def i_checksum(p):
    a, b, c = p + "a", p + "b", p + "c"
    return Item(
        [
            FS(a, U8()),
            FS(b, Raw(2, values=[b""])),
            FS(c, U8(), computed=lambda env: (env[a] + sum(env[b])) % 256),
        ],
        [{a: 200, b: b"\x50\x05"}, {a: 0, b: b"\0\0"}],
    )


def i_chain(p):
    a, b, c = p + "a", p + "b", p + "c"
    return Item(
        [
            FS(a, U8(), computed=lambda env: len(env[c])),
            FS(b, U8(), computed=lambda env: env[a] * 2),
            FS(c, Raw(a, values=[b""])),
        ],
        [{c: b"xyz"}, {c: b""}],
    )


def i_nested_array(p):
    nest = Nest(*_cond_struct("NA"))
    return Item(
        [FS(p, Arr(nest, 2, values=[]))],
        [{p: [nest.values[0], nest.values[1]]}, {p: [nest.values[1]] * 2}],
    )


def i_nested_default(p):
    nest = Nest(*_var_struct("ND"))
    return Item([FS(p, nest)], [{p: {"s": "k", "t": 0x0A0B}}, {p: nest.values[0]}])


def i_nested_ref(p):
    inner = Spec(
        [
            FS("n", U8(), computed=lambda env: len(env["d"])),
            FS("d", Raw("n", values=[b""])),
        ],
        name="NR",
    )
    nest = Nest(inner, [])
    return Item([FS(p, nest)], [{p: {"n": 2, "d": b"ab"}}, {p: {"n": 0, "d": b""}}])


def i_nested_deep(p):
    mid = Spec([FS("m", Nest(*_fixed_struct("DF"))), FS("k", StrZ())], name="DM")
    return Item(
        [FS(p, Nest(mid, []))],
        [{p: {"m": {"p": 1, "q": 2}, "k": "v"}}, {p: {"m": {"p": 9, "q": -9}, "k": ""}}],
    )


def i_null_ref(p):
    n, x = p + "n", p + "x"
    return Item(
        [FS(n, U8()), FS(x, Raw(n, values=[b""]), null=DEFAULT)],
        [{n: 2, x: None}, {n: 3, x: b"ab\0"}, {n: 3, x: None}],
    )


def i_optional_null(p):
    f, x = p + "f", p + "x"
    return Item(
        [FS(f, U8()), FS(x, Int(2, False, "big"), present=on(f), null=b"\0\0", npv=7)],
        [{f: 1, x: None}, {f: 0}, {f: 1, x: 258}],
    )


def i_records(p):
    """A counted array of structures of different sizes."""
    n, x = p + "n", p + "x"
    nest = Nest(*_cond_struct("RC"))
    one, other = nest.values
    return Item(
        [
            FS(n, U8(), computed=lambda env: len(env[x])),
            FS(x, Arr(nest, n, values=[])),
        ],
        [{x: [one]}, {x: [other]}, {x: [other, one]}],
    )


def i_ref_pair(p):
    """Two things measured by the same number."""
    n, x, y = p + "n", p + "x", p + "y"
    return Item(
        [
            FS(n, U8()),
            FS(x, Str(n, "utf-8", b" ", values=[])),
            FS(y, Arr(VarInt("uleb"), n, values=[])),
        ],
        [{n: 2, x: "\u0416", y: [1, 300]}, {n: 3, x: "a", y: [0, 0, 5]}, {n: 0, x: "", y: []}],
    )


def i_eof(p):
    k = Arr(Int(2, False, "big"), None, values=[[1, 2], [], [65535]])
    return Item([FS(p, k)], [{p: v} for v in k.values], last=True)


def i_eof_strz(p):
    k = Arr(StrZ("utf-8"), None, values=[["\u0416", ""], [], ["a", "b", "c"]])
    return Item([FS(p, k)], [{p: v} for v in k.values], last=True)


ITEMS = [
    one(lambda: Int(2, False, "big")),
    one(lambda: Int(3, True, "little")),
    one(lambda: Float(4, "big"), n=2),
    one(lambda: VarInt("leb")),
    one(lambda: VarInt("compact")),
    one(lambda: VarInt("vlq", 2)),
    one(lambda: Raw(3)),
    one(lambda: Str(4, "utf-8", b" ")),
    one(lambda: StrZ("utf-16-le")),
    one(lambda: StrZ("utf-8", 6, b"\0")),
    one(lambda: Uuid("bin2"), n=1),
    one(lambda: Stamp(4), n=2),
    one(lambda: Arr(Int(2, True, "big"), 2)),
    one(lambda: Arr(StrZ(), 2)),
    i_ref_array,
    i_ref_array_field,
    i_ref_text,
    i_ref_bytes_field,
    i_ref_padded,
    i_ref_strz,
    i_vli_ref,
    i_magic,
    i_magic_text,
    i_magic_raw,
    i_default,
    i_default_var,
    i_factory,
    i_null_bytes,
    i_null_default,
    i_null_value,
    i_null_int_value,
    i_null_default_null,
    i_discard_default,
    i_discard,
    i_discard_count,
    i_optional,
    i_optional_npv,
    i_optional_default,
    i_optional_const,
    i_optional_array,
    i_optional_discard,
    i_optional_nest,
    i_sentinel,
    i_union,
    i_union_struct,
    i_checksum,
    i_own,
    i_chain,
    i_nested_array,
    i_nested_default,
    i_nested_ref,
    i_nested_deep,
    i_eof,
    i_eof_strz,
]

SMALL = [
    one(lambda: Int(2, False, "big"), n=2),
    one(lambda: StrZ("utf-8"), n=2),
    one(lambda: VarInt("uleb"), n=2),
    i_ref_bytes_field,
    i_ref_array,
    i_magic,
    i_default,
    i_discard_default,
    i_optional,
    i_optional_default,
    i_null_value,
    i_union,
    i_nested_default,
    i_discard_count,
    i_checksum,
]


def combine(makers, split=None, name="S", style="assign"):
    """A case with the fields of all the items; ``split``: how many items the parent has."""
    items = [m(f"{chr(97 + i)}{chr(97 + i)}") for i, m in enumerate(makers)]
    if any(it.last for it in items[:-1]):
        return None
    if split:
        head = [f for it in items[:split] for f in it.fields]
        tail = [f for it in items[split:] for f in it.fields]
        spec = Spec(tail, parent=Spec(head, name="P", style=style), name=name, style=style)
    else:
        spec = Spec([f for it in items for f in it.fields], name=name, style=style)
    assigns = []
    n = max(len(it.assigns) for it in items)
    # Each item's assignments in turn with the others' first ones, then in step.
    for i, it in enumerate(items):
        for j, a in enumerate(it.assigns):
            if j == 0 and i > 0:
                continue
            merged = {}
            for k, other in enumerate(items):
                merged.update(a if k == i else other.assigns[0])
            assigns.append(merged)
    for j in range(1, n):
        merged = {}
        for k, other in enumerate(items):
            merged.update(other.assigns[(j + k) % len(other.assigns)])
        if merged not in assigns:
            assigns.append(merged)
    return Case(spec, assigns)
