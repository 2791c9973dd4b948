"""Nested types: every composition of containers over leaves up to a depth.

A composite is (name, type, values).  Every record that holds one starts with a
field `sel: uint8` = 1 (conditions and look-back deciders read it) and ends
with a uint16, so nothing composite is ever at the very end of the data."""
import functools
import operator

from .kinds import (BOXED, CELSIUS, NAMED, POINT_BE, Boxed, Celsius, Kind)
from .model import (
    BASIC, I32, I64, U16, U32, U64, U8, Ahead, Arr, Back, Char, CharDyn,
    CharNET, CharTerm, Cond, Nest, Spec, Tup, Uni)

LEAVES = [
    ('u16', U16, [258, 65535]),
    ('i32', I32, [-2]),
    ('f64', BASIC['float64'], [0.1]),
    ('char3', Char(3), [b'abc']),
    ('cel', CELSIUS, [Celsius(-2), Celsius(515)]),
    ('box', BOXED, [Boxed(772)]),
    ('str16', CharDyn(U16), [b'', b'xyz']),
    ('term', CharTerm(b'\0'), [b'', b'abc']),
    ('net', CharNET(), [b'', b'dotnet']),
    ('uni32', Uni(CharDyn(U32), 'utf8'), ['', 'h\u00e9']),
    ('arr32', Arr(U16, U32), [[], [1, 65536]]),
    ('sized', Arr(2, U16, U32), [[1, 2]]),
    ('rec', Nest(NAMED), [NAMED.obj(1, b'nm')]),
    ('recbe', Nest(POINT_BE), [POINT_BE.obj(1, 513)]),
]

SEL = operator.attrgetter('sel')


def seq(vals, n):
    return [vals[i % len(vals)] for i in range(n)]


CONTAINERS = {
    'arr': lambda t, vs: (Arr(U16, t), [[], seq(vs, 1), seq(vs, 3)]),
    'arrs': lambda t, vs: (Arr(U8, t, U32), [[], seq(vs, 2)]),
    'fix': lambda t, vs: (Arr(2, t), [seq(vs, 2)]),
    'tup': lambda t, vs: (Tup(U8, t, U16), [(7, v, 258) for v in vs]),
    'tup1': lambda t, vs: (Tup(t), [(v,) for v in vs]),
    'rec': lambda t, vs: recs(t, vs, ''),
    'recbe': lambda t, vs: recs(t, vs, '>'),
    'lone': lambda t, vs: lone(t, vs),
    'cond': lambda t, vs: (Cond(SEL, t, 'absent'), vs),
    'back': lambda t, vs: (Back(SEL, {1: t, 2: I64}), vs),
    'backd': lambda t, vs: (Back(SEL, {9: I64}, t), vs),
    'ahead': lambda t, vs: (Ahead(U8, lambda o: -1, {-2: I64}, t), vs),
    # the member type starts at what was peeked
    'ahead2': lambda t, vs: (Ahead(U16, lambda o: 258, {258: Tup(U16, t)}, I64),
                             [(258, v) for v in vs]),
}


def recs(t, vs, bo):
    s = Spec('Inner' + bo.replace('>', 'BE'), [('sel', U8), ('v', t), ('w', U8)], bo)
    return Nest(s), [s.obj(1, v, 3) for v in vs]


def lone(t, vs):
    """A record class with a single field (its serializer is that field's)."""
    if not own_sel(t):
        s = Spec('Lone', [('v', t)], '<')
        return Nest(s), [s.obj(v) for v in vs]
    return None


def own_sel(t):
    """Does the type consult `sel` of the record that holds it?"""
    if isinstance(t, Nest):
        return False
    if isinstance(t, (Cond,)):
        return True
    if isinstance(t, Back) and not isinstance(t, Ahead):
        return True
    if isinstance(t, Ahead):
        return any(own_sel(x) for x in t._all())
    if isinstance(t, Arr):
        return own_sel(t.item)
    if isinstance(t, Tup):
        return any(map(own_sel, t.items))
    return False


@functools.cache
def composites(depth):
    """All composites of exactly `depth` containers."""
    if depth == 0:
        return LEAVES
    out = []
    for name, t, vs in composites(depth - 1):
        for c, fn in CONTAINERS.items():
            r = fn(t, vs)
            if r is not None:
                out.append((f'{c}({name})', r[0], r[1]))
    return out


class CKind(Kind):
    pass


def as_kind(name, t, vs):
    return CKind(name, lambda p: [('sel', U8), (p, t), ('z', U16)],
                 [(1, v, 772) for v in vs])


@functools.cache
def kinds(depth):
    return [as_kind(*c) for c in composites(depth)]
