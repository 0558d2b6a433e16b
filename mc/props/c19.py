"""C19: I/O faults surface and never turn into data."""

import bz2
import gzip
import io
import lzma
import mmap
import os
import tempfile

from mc.lib import attempt
from mc.lib import fail
from mc.lib import note
from mc.lib import same
from mc.lib import short
from mc.model import plain
from mc.universe import each_case
from mc.universe import families

BOUNDS = {
    "quick": "every read, write, seek and tell made on the stream by every load, partial load"
    " (with and without a last field), single-field read, dump and partial dump fails, once or"
    " from there on, with one of 4 kinds of exceptions: every field kind in every position and all"
    " ordered pairs of items, one assignment each; 15 kinds of real streams at 5 start"
    " positions, complete, cut and followed by more data, for every field kind in 5 positions",
    "thorough": "all assignments, all four exceptions, and all triples of small items",
}
ASSUMPTIONS = [
    "a stream's read() returns less than asked for only at its end",
    "what was written before a failing write is unspecified",
]


class Odd(BaseException):
    """Something that isn't even an Exception, like KeyboardInterrupt."""


EXCEPTIONS = (
    lambda: OSError(5, "injected"),
    lambda: ValueError("injected: I/O operation on closed file"),
    lambda: Odd("injected"),
    lambda: EOFError("injected"),
)


class Faulty(io.BytesIO):
    """A stream whose operations fail when told to."""

    def __init__(self, data=b"", start=0):
        super().__init__(data)
        super().seek(start)
        self.log, self.fail_at, self.persistent = [], None, False
        self.raised = []
        self.make = None

    def _step(self, what):
        n = len(self.log)
        self.log.append(what)
        if self.fail_at is not None and (
            n == self.fail_at or (self.persistent and n > self.fail_at)
        ):
            exc = self.make()
            self.raised.append(exc)
            raise exc

    def read(self, *a):
        self._step("read")
        return super().read(*a)

    def read1(self, *a):
        self._step("read")
        return super().read1(*a)

    def readinto(self, *a):
        self._step("read")
        return super().readinto(*a)

    def readline(self, *a):
        self._step("read")
        return super().readline(*a)

    def write(self, *a):
        self._step("write")
        return super().write(*a)

    def seek(self, *a):
        self._step("seek")
        return super().seek(*a)

    def tell(self):
        self._step("tell")
        return super().tell()

    def where(self):
        return super().tell()


def attempt_all(fn, *args):
    try:
        return "ok", fn(*args)
    except (Exception, Odd) as exc:  # noqa: BLE001
        return "err", exc


def related(exc, raised):
    """Is one of the raised exceptions this one, or in its chain?"""
    seen, todo = set(), [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        if any(e is r for r in raised):
            return True
        seen.add(id(e))
        todo += [e.__cause__, e.__context__]
    return False


START = 3


def operations(cls, names, raw, inst):
    """(label, function of a stream, contents of the stream)"""
    data = b"\xee" * START + raw
    out = [
        ("from_stream", cls.from_stream, data),
        ("partial_load", cls.partial_load, data),
        ("partial_load cut", cls.partial_load, data[: START + len(raw) * 2 // 3]),
    ]
    for name in names:
        out.append((f"get_field {name}", lambda s, n=name: cls.get_field(s, n), data))
    out.append((f"partial_load {names[-1]}", lambda s: cls.partial_load(s, names[-1]), data))
    out.append(("to_stream", inst.to_stream, b"\xee" * START))
    out.append(("partial_dump", inst.partial_dump, b"\xee" * START))
    mid = names[len(names) // 2]
    out.append((f"partial_dump {mid}", lambda s: inst.partial_dump(s, mid), b"\xee" * START))
    return out


def result(how, got):
    if how == "err":
        return type(got).__name__
    return plain(got)


def judge_faults(n_assigns, n_exceptions):
    def judge(case, rec):
        spec = case.spec
        cls = spec.build()
        names = [f.name for f in spec.fields()]
        for i, assign in enumerate(case.assigns[:n_assigns]):
            raw = spec.dump(assign)
            inst = cls(**spec.real_values(assign, 0))
            values = {n: plain(inst[n]) for n in [x for x in inst]}
            for label, op, data in operations(cls, names, raw, inst):
                healthy = Faulty(data, START)
                normal = result(*attempt_all(op, healthy))
                contents, end = healthy.getvalue(), healthy.where()
                for at, what in enumerate(healthy.log):
                    for k in range(n_exceptions):
                        for persistent in (False, True):
                            s = Faulty(data, START)
                            s.fail_at, s.persistent = at, persistent
                            turn = at + i + len(label) + k
                            s.make = EXCEPTIONS[turn % len(EXCEPTIONS)]
                            note(
                                rec,
                                spec,
                                values=assign,
                                operation=label,
                                fails=f"{what}, call {at} of {healthy.log}",
                                persistent=persistent,
                            )
                            how, got = attempt_all(op, s)
                            if how == "ok":
                                fail(f"{label} gives {got!r} though the stream failed")
                            if not related(got, s.raised):
                                fail(f"{label} raises {got!r}, which hides {s.raised!r}")
                            if (
                                label.startswith("get_field")
                                and not persistent
                                and what == "read"
                                and s.where() != START
                            ):
                                fail(f"{label} leaves the stream at {s.where()}")
                            if s.getvalue()[: len(data)] != data:
                                fail(f"{label} changed what's in the stream")
                            rec.step()
                    again = Faulty(data, START)
                    same(result(*attempt_all(op, again)), normal, f"{label} again")
                    if again.getvalue() != contents or again.where() != end:
                        fail(f"{label} again: {short(again.getvalue())} at {again.where()}")
                    rec.traced()
                same({n: plain(inst[n]) for n in [x for x in inst]}, values, "the instance")
                rec.state(repr(spec), i, label)
                rec.maximum("stream operations", len(healthy.log))
        rec.sample(repr(spec))

    return judge


################################################################################
# Streams


def temp(data):
    fd, path = tempfile.mkstemp(dir=os.environ["MC_SCRATCH"])
    os.write(fd, data)
    os.close(fd)
    return path


def opener(mode, buffering):
    def make(data):
        path = temp(data)
        f = open(path, mode, buffering=buffering)
        return f, lambda: (f.close(), open(path, "rb").read(), os.unlink(path))[1]

    return make


def compressed(module):
    def make(data):
        f = module.open(io.BytesIO(module.compress(data)), "rb")
        return f, lambda: f.close()

    return make


def spooled(limit):
    def make(data):
        f = tempfile.SpooledTemporaryFile(max_size=limit, dir=os.environ["MC_SCRATCH"])
        f.write(data)

        def done():
            f.seek(0)
            out = f.read()
            f.close()
            return out

        return f, done

    return make


def mapped(data):
    m = mmap.mmap(-1, len(data) + 64)
    m.close()
    path = temp(data)
    with open(path, "r+b") as f:
        m = mmap.mmap(f.fileno(), len(data))

    def done():
        out = m[:]
        m.close()
        os.unlink(path)
        return out

    return m, done


class Raw(io.RawIOBase):
    """A hand-made raw stream."""

    def __init__(self, data):
        self.data, self.pos = bytearray(data), 0

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, b):
        got = self.data[self.pos : self.pos + len(b)]
        b[: len(got)] = got
        self.pos += len(got)
        return len(got)

    def write(self, b):
        self.data[self.pos : self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

    def seek(self, offset, whence=0):
        self.pos = {0: 0, 1: self.pos, 2: len(self.data)}[whence] + offset
        return self.pos

    def tell(self):
        return self.pos


def raw_stream(data):
    r = Raw(data)
    return r, lambda: bytes(r.data)


def buffered(cls, size):
    def make(data):
        r = Raw(data)
        f = cls(r, size)

        def done():
            f.detach() if cls is io.BufferedReader else (f.flush(), f.detach())
            return bytes(r.data)

        return f, done

    return make


def in_memory(data):
    s = io.BytesIO(data)
    return s, s.getvalue


READ_WRITE = {
    "BytesIO": in_memory,
    "FileIO": opener("r+b", 0),
    "file": opener("r+b", -1),
    "file, tiny buffer": opener("r+b", 3),
    "spooled": spooled(1 << 20),
    "spooled to disk": spooled(1),
    "raw": raw_stream,
    "BufferedRandom": buffered(io.BufferedRandom, 2),
}
READ_ONLY = {
    "rb": opener("rb", -1),
    "rb, tiny buffer": opener("rb", 5),
    "BufferedReader": buffered(io.BufferedReader, 4),
    "gzip": compressed(gzip),
    "bz2": compressed(bz2),
    "lzma": compressed(lzma),
}


def judge_streams(thorough):
    def judge(case, rec):
        spec = case.spec
        cls = spec.build()
        names = [f.name for f in spec.fields()]
        for i, assign in enumerate(case.assigns[: 3 if thorough else 1]):
            raw = spec.dump(assign)
            inst = cls(**spec.real_values(assign, 0))
            reads = [
                ("from_stream", cls.from_stream),
                ("partial_load", cls.partial_load),
                (f"partial_load {names[0]}", lambda s: cls.partial_load(s, names[0])),
            ]
            reads += [(f"get_field {n}", lambda s, n=n: cls.get_field(s, n)) for n in names]
            writes = [("to_stream", inst.to_stream), ("partial_dump", inst.partial_dump)]
            starts = (0, 1, 7, 4095, 8190)
            for j, (kind, make) in enumerate({**READ_WRITE, **READ_ONLY, "mmap": mapped}.items()):
                start = starts[(j + i + len(raw)) % 5]
                contents = {"complete": raw, "more": raw + b"\x01" * 5}
                if kind != "mmap":
                    contents["cut"] = raw[: len(raw) // 2]
                for state, data in contents.items():
                    data = b"\xee" * start + data
                    if not data and kind == "mmap":
                        continue
                    for label, op in reads:
                        note(rec, spec, values=assign, kind=kind, state=state, op=label, start=start)
                        ref = io.BytesIO(data)
                        ref.seek(start)
                        expected = result(*attempt(op, ref))
                        stream, done = make(data)
                        try:
                            stream.seek(start)
                            got = result(*attempt(op, stream))
                            where = stream.tell()
                        finally:
                            left = done()
                        same(got, expected, f"{label} from {kind}")
                        if expected_ok(expected) and where != ref.tell():
                            fail(f"{label} from {kind} ends at {where}, not {ref.tell()}")
                        if left is not None and left != data:
                            fail(f"{label} changed what's in the {kind}")
                        rec.step()
                        rec.traced()
                if kind in READ_WRITE:
                    for label, op in writes:
                        note(rec, spec, values=assign, kind=kind, op=label, start=start)
                        data = b"\xee" * start + b"\xdd" * (len(raw) // 2)
                        ref = io.BytesIO(data)
                        ref.seek(start)
                        expected = result(*attempt(op, ref))
                        stream, done = make(data)
                        stream.seek(start)
                        got = result(*attempt(op, stream))
                        where = stream.tell()
                        left = done()
                        same(got, expected, f"{label} to {kind}")
                        if left != ref.getvalue() or where != ref.tell():
                            fail(f"{label} to {kind}: {short(left)} at {where}")
                        rec.step()
                        rec.traced()
                rec.state(repr(spec), i, kind)

    return judge


def expected_ok(expected):
    return not isinstance(expected, str) or not expected.endswith("Error")


def few_positions(ch):
    from mc.items import KINDS
    from mc.items import w_after_var
    from mc.items import w_array_eof
    from mc.items import w_array_ref
    from mc.items import w_conditional
    from mc.items import w_nullable

    wrap = ch.choose((w_after_var, w_array_eof, w_array_ref, w_conditional, w_nullable))
    return wrap(ch.choose(KINDS)())


def bodies(tier, seed):
    thorough = tier == "thorough"
    cases = families("quick")
    if not thorough:
        cases.pop("triples")
    out = {}
    for name, body in each_case(
        judge_faults(9 if thorough else 1, 4 if thorough else 1), cases
    ).items():
        out[name] = body
    out.update(each_case(judge_streams(thorough), {"streams": few_positions}))
    return out
