"""The shared space of declarations, as choice trees."""

from mc.items import combine
from mc.items import ITEMS
from mc.items import KINDS
from mc.items import SMALL
from mc.items import WRAPPERS


def wide_case(ch):
    make = ch.choose(KINDS)
    return ch.choose(WRAPPERS)(make())


def pair_case(ch):
    first = ch.choose(ITEMS)
    second = ch.choose(ITEMS)
    return combine([first, second], ch.pick(2))


def triple_case(ch):
    makers = [ch.choose(SMALL) for _ in range(3)]
    return combine(makers, ch.choose((0, 1, 2)))


def quad_case(ch):
    makers = [ch.choose(SMALL) for _ in range(4)]
    return combine(makers, ch.choose((0, 2)))


def mid_triple_case(ch):
    makers = [ch.choose(ITEMS) for _ in range(3)]
    return combine(makers, ch.choose((0, 1)))


def each_case(judge, cases):
    """A body per family of declarations that judges every case in it."""

    def body_for(make):
        def body(ch, rec):
            case = make(ch)
            if case is not None:
                judge(case, rec)

        return body

    return {name: body_for(make) for name, make in cases.items()}


def families(tier):
    out = {"wide": wide_case, "pairs": pair_case, "triples": triple_case}
    if tier == "thorough":
        out["quads"] = quad_case
        out["mid-triples"] = mid_triple_case
    return out
