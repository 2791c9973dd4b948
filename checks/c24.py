"""C24 User-written serializers work wherever a hint is allowed."""
import itertools
import operator
import typing
from typing import Annotated, Generic, TypeVar

from mc.kinds import NAMED, POINT_BE
from mc.lib import BO, L, Serializer, StructSerializer
from mc.model import (
    BASIC, I64, U16, U32, U8, Ahead, Arr, Back, Bad, Char, CharDyn, CharTerm, Cond, Nest, Spec, T,
    Tup, build_class, diff, retarget, to_lib)
from mc.ops import attempt, check_packs, check_record, check_unpacks
from mc.space import ALL_BO

ID = 'C24'
LEVEL = 'model_checking'
RULE = ('a family of user-written Serializer subclasses, one or more per freedom the documented '
        'API gives (what unpack returns, several or no values, only prepack or only preunpack, '
        'another serializer returned from them, a byte order, wrapping any other type, joining '
        'with its neighbour, reading to the end) x every composition of containers up to a depth x '
        'byte order; all sequences of up to 3 fields; subclasses, generics, annotation forms, '
        're-targeting. state = (class, instance), transition = operation of a class; every call '
        'of the user serializers is checked against the API')
ASSUMPTIONS = ['a class whose only field returns another serializer from prepack reports the size '
               'of neither', 'serializers of several or no values are only put into tuples']


# ------------------------------------------------- what a user would write
class User(Serializer):
    """A user's serializer: enc(*values) -> bytes, dec(take) -> values."""
    num_values = 1
    style = tuple

    def __init__(self):
        self.size = 0

    def enc(self, *values):
        raise NotImplementedError

    def dec(self, take):
        raise NotImplementedError

    def pack(self, *values):
        if len(values) != self.num_values:
            raise AssertionError(f'{self}: pack called with {values}')
        data = self.enc(*values)
        self.size = len(data)
        return data

    def pack_into(self, buffer, offset, *values):
        data = self.pack(*values)
        if not isinstance(offset, int) or offset < 0 or offset + len(data) > len(buffer):
            raise ValueError('does not fit')
        buffer[offset:offset + len(data)] = data

    def pack_write(self, writable, *values):
        writable.write(self.pack(*values))

    def _give(self, take, done):
        if self.style == 'lazy':        # nothing is done before the values are asked for,
            def gen():                  # and the size is only known afterwards
                yield from self.dec(take)
                self.size = done()
            return gen()
        values = self.dec(take)
        self.size = done()
        if self.style == 'iter':
            return iter(values)
        if self.style == 'map':
            return map(lambda x: x, values)
        return self.style(values)

    def unpack(self, buffer):
        return self.unpack_from(buffer)

    def unpack_from(self, buffer, offset=0):
        pos = offset

        def take(n):
            nonlocal pos
            data = bytes(buffer[pos:] if n < 0 else buffer[pos:pos + n])
            if len(data) < n:
                raise ValueError('truncated')
            pos += len(data)
            return data
        return self._give(take, lambda: pos - offset)

    def unpack_read(self, readable):
        count = 0

        def take(n):
            nonlocal count
            data = readable.read(n) if n >= 0 else readable.read()
            if len(data) < n:
                raise ValueError('truncated')
            count += len(data)
            return data
        return self._give(take, lambda: count)


def leb(n):
    out = b''
    while True:
        n, low = n >> 7, n & 127
        out += bytes([low | 128 * (n > 0)])
        if not n:
            return out


class VlqS(User):
    def __init__(self, style=tuple):
        super().__init__()
        self.style = style

    def enc(self, v):
        return leb(v)

    def dec(self, take):
        v = shift = 0
        while True:
            b = take(1)[0]
            v |= (b & 127) << shift
            shift += 7
            if b < 128:
                return (v,)


class WideS(User):
    """A three-byte integer."""
    size = 3

    def __init__(self, bo=''):
        self.bo = bo

    size = property(lambda self: 3, lambda self, v: None)

    def with_byte_order(self, byte_order):
        return type(self)(byte_order.value)

    def enc(self, v):
        return v.to_bytes(3, order(self.bo))

    def dec(self, take):
        return [int.from_bytes(take(3), order(self.bo))]


class Prepared(User):
    """Hands over what prepack/preunpack were given to exactly one operation."""
    armed = None

    def arm(self, o):
        self.armed = o
        return self

    def used(self):
        o, self.armed = self.armed, None
        if o is None:
            raise AssertionError(f'{self} was not prepared')
        return o


class KeyedS(Prepared):
    def prepack(self, partial_object):
        return self.arm((1, partial_object))

    def preunpack(self, partial_object):
        return self.arm((2, partial_object))

    def key(self, what):
        w, o = self.used()
        if w != what:
            raise AssertionError('prepared for the other direction')
        return o.key

    def enc(self, v):
        return bytes([v ^ self.key(1), 7])

    def dec(self, take):
        k = self.key(2)
        a, b = take(2)
        return (a ^ k,)


class DirectedS(Prepared):
    """Only looks at the record itself, and tells the two directions apart."""
    def prepack(self, partial_object):
        if not isinstance(partial_object, L.Structured):
            raise AssertionError(f'packing {partial_object!r}')
        return self.arm('pack')

    def preunpack(self, partial_object):
        return self.arm('unpack')

    def enc(self, v):
        if self.used() != 'pack':
            raise AssertionError('was prepared for unpacking')
        return v.to_bytes(2, 'big')

    def dec(self, take):
        if self.used() != 'unpack':
            raise AssertionError('was prepared for packing')
        return [int.from_bytes(take(2), 'big')]


class LenS(Prepared):
    """Bytes whose number is in an earlier field: only preunpack is needed."""
    def preunpack(self, partial_object):
        return self.arm(partial_object)

    def enc(self, v):
        return v

    def dec(self, take):
        return (take(self.used().key),)


class MirrorS(Prepared):
    """Only prepack is overridden."""
    def prepack(self, partial_object):
        return self.arm(partial_object)

    def enc(self, v):
        return bytes([self.used().key ^ self.mask]) + v

    mask = 0x55

    def dec(self, take):
        take(1)
        return (take(2),)


class SwitchS(Serializer):
    """Another serializer does the work."""
    num_values = 1
    size = 0

    def __init__(self, inner):
        self.inner = inner

    def with_byte_order(self, byte_order):
        return type(self)([s.with_byte_order(byte_order) for s in self.inner])

    def prepack(self, partial_object):
        return self.inner[partial_object.key % 3].prepack(partial_object)

    def preunpack(self, partial_object):
        return self.inner[partial_object.key % 3].preunpack(partial_object)


class CheckedS(Serializer):
    """Any other serializer, followed by a checksum."""
    num_values = 1

    def __init__(self, inner):
        self.inner, self.size, self.o = inner, 0, None

    def with_byte_order(self, byte_order):
        return CheckedS(self.inner.with_byte_order(byte_order))

    def prepack(self, partial_object):
        new = CheckedS(self.inner.prepack(partial_object))
        new.up = self
        return new

    def preunpack(self, partial_object):
        new = CheckedS(self.inner.preunpack(partial_object))
        new.up = self
        return new

    up = None

    def done(self, n):
        self.size = n
        if self.up is not None:
            self.up.size = n

    def pack(self, v):
        data = self.inner.pack(v)
        self.done(len(data) + 1)
        return data + bytes([sum(data) & 255])

    def pack_into(self, buffer, offset, v):
        self.inner.pack_into(buffer, offset, v)
        n = self.inner.size
        buffer[offset + n] = sum(bytes(buffer[offset:offset + n])) & 255
        self.done(n + 1)

    def pack_write(self, writable, v):
        writable.write(self.pack(v))

    def unpack(self, buffer):
        return self.unpack_from(buffer)

    def unpack_from(self, buffer, offset=0):
        values = tuple(self.inner.unpack_from(buffer, offset))
        n = self.inner.size
        if sum(bytes(buffer[offset:offset + n])) & 255 != buffer[offset + n]:
            raise ValueError('checksum')
        self.done(n + 1)
        return values

    def unpack_read(self, readable):
        start = readable.tell()
        yield from self.inner.unpack_read(readable)
        n = readable.tell() - start
        readable.seek(start)
        data, check = readable.read(n), readable.read(1)
        if check != bytes([sum(data) & 255]):
            raise ValueError('checksum')
        self.done(n + 1)


class RestS(User):
    def get_final(self):
        return self

    def enc(self, v):
        return v[::-1]

    def dec(self, take):
        return (take(-1)[::-1],)


class TwoS(User):
    """Two values in one operation."""
    num_values = 2

    def __init__(self, style=tuple, bo=''):
        super().__init__()
        self.style, self.bo = style, bo

    def with_byte_order(self, byte_order):
        return type(self)(self.style, byte_order.value)

    def enc(self, a, b):
        return a.to_bytes(2, order(self.bo)) + leb(b)

    def dec(self, take):
        a = int.from_bytes(take(2), order(self.bo))
        return (a, *VlqS().dec(take))


class MagicS(User):
    """No value, only bytes."""
    num_values = 0

    def __init__(self, bo=''):
        super().__init__()
        self.bo = bo

    def with_byte_order(self, byte_order):
        return type(self)(byte_order.value)

    def enc(self):
        return b'MAGIC' if order(self.bo) == 'big' else b'CIGAM'

    def dec(self, take):
        if take(5) != self.enc():
            raise ValueError('bad magic')
        return ()


class NibS(User):
    """Half a byte: two neighbours share one."""
    num_values = 1

    def enc(self, v):
        if not 0 <= v < 16:
            raise ValueError('not a nibble')
        return bytes([v])

    def dec(self, take):
        return (take(1)[0] & 15,)

    def __add__(self, other):
        if type(other) is NibS:
            return NibPairS()
        return super().__add__(other)


class NibPairS(User):
    num_values = 2

    def enc(self, a, b):
        return bytes([NibS.enc(self, a)[0] << 4 | NibS.enc(self, b)[0]])

    def dec(self, take):
        b = take(1)[0]
        return (b >> 4, b & 15)


def order(bo):
    import sys
    return {'<': 'little', '>': 'big', '!': 'big'}.get(bo, sys.byteorder)


# ----------------------------------------------------------- and their models
class U(T):
    """A user type: its hint carries one serializer, shared by all its uses."""
    keyed = False       # consults `key` of the record it is in
    needs = False       # cannot be the only field
    py = object

    def __init__(self, name, ser):
        self.name, self.ser = name, ser

    def mkhint(self):
        return Annotated[self.py, self.ser]

    def __repr__(self):
        return self.name


def cut(buf, pos, n):
    if pos + n > len(buf):
        raise Bad('truncated')
    return bytes(buf[pos:pos + n]), pos + n


def unleb(buf, pos):
    v = shift = 0
    while True:
        (b,), pos = cut(buf, pos, 1)
        v |= (b & 127) << shift
        shift += 7
        if b < 128:
            return v, pos


def env_of(t):
    """Does the type consult the record that holds it?"""
    if isinstance(t, U):
        return t.keyed
    if isinstance(t, Ahead):
        return any(map(env_of, t._all()))
    if isinstance(t, (Cond, Back)):
        return True
    return (isinstance(t, Arr) and env_of(t.item) or
            isinstance(t, Tup) and any(map(env_of, t.items)))


class Vlq(U):
    py = int

    def enc(self, v, bo, env):
        return leb(v)

    def dec(self, buf, pos, bo, env):
        return unleb(buf, pos)


class Wide(U):
    py = int

    def enc(self, v, bo, env):
        return v.to_bytes(3, order(bo))

    def dec(self, buf, pos, bo, env):
        b, pos = cut(buf, pos, 3)
        return int.from_bytes(b, order(bo)), pos


class Directed(U):
    def enc(self, v, bo, env):
        return v.to_bytes(2, 'big')

    def dec(self, buf, pos, bo, env):
        b, pos = cut(buf, pos, 2)
        return int.from_bytes(b, 'big'), pos


class Keyed(U):
    keyed = True

    def enc(self, v, bo, env):
        return bytes([v ^ env.key, 7])

    def dec(self, buf, pos, bo, env):
        b, pos = cut(buf, pos, 2)
        return b[0] ^ env.key, pos


class Len(U):
    keyed = True

    def enc(self, v, bo, env):
        return v

    def dec(self, buf, pos, bo, env):
        return cut(buf, pos, env.key)


class Mirror(U):
    keyed = True

    def enc(self, v, bo, env):
        return bytes([env.key ^ 0x55]) + v

    def dec(self, buf, pos, bo, env):
        b, pos = cut(buf, pos, 3)
        return b[1:], pos


class Switch(U):
    keyed = True
    needs = True

    def __init__(self, name, *inner):
        self.inner = inner
        super().__init__(name, SwitchS([serializer(t) for t in inner]))

    def enc(self, v, bo, env):
        return self.inner[env.key % 3].enc(v, bo, env)

    def dec(self, buf, pos, bo, env):
        return self.inner[env.key % 3].dec(buf, pos, bo, env)


class Checked(U):
    def __init__(self, inner):
        self.inner, self.keyed = inner, env_of(inner)
        super().__init__(f'checked({inner})', CheckedS(serializer(inner)))

    def enc(self, v, bo, env):
        data = self.inner.enc(v, bo, env)
        return data + bytes([sum(data) & 255])

    def dec(self, buf, pos, bo, env):
        v, end = self.inner.dec(buf, pos, bo, env)
        (c,), after = cut(buf, end, 1)
        if sum(bytes(buf[pos:end])) & 255 != c:
            raise Bad('checksum')
        return v, after


class Rest(U):
    final = True

    def enc(self, v, bo, env):
        return v[::-1]

    def dec(self, buf, pos, bo, env):
        return bytes(buf[pos:])[::-1], len(buf)


class Two(U):
    nvals = 2

    def enc(self, v, bo, env):
        return v[0].to_bytes(2, order(bo)) + leb(v[1])

    def dec(self, buf, pos, bo, env):
        a, pos = cut(buf, pos, 2)
        a = int.from_bytes(a, order(bo))
        b, pos = unleb(buf, pos)
        return [a, b], pos


class Magic(U):
    nvals = 0

    def enc(self, v, bo, env):
        return b'MAGIC' if order(bo) == 'big' else b'CIGAM'

    def dec(self, buf, pos, bo, env):
        b, pos = cut(buf, pos, 5)
        if b != self.enc(v=None, bo=bo, env=env):
            raise Bad('bad magic')
        return None, pos


class Nib(U):
    def enc(self, v, bo, env):
        if not 0 <= v < 16:
            raise Bad('not a nibble')
        return bytes([v])

    def dec(self, buf, pos, bo, env):
        b, pos = cut(buf, pos, 1)
        return b[0] & 15, pos

    def joins(self, other):
        return NIBPAIR if type(other) is Nib else None


class NibPair(U):
    nvals = 2

    def enc(self, v, bo, env):
        if not (0 <= v[0] < 16 and 0 <= v[1] < 16):
            raise Bad('not a nibble')
        return bytes([v[0] << 4 | v[1]])

    def dec(self, buf, pos, bo, env):
        b, pos = cut(buf, pos, 1)
        return [b[0] >> 4, b[0] & 15], pos


NIBPAIR = NibPair('nibbles', NibPairS())


def serializer(t):
    """The serializer object behind a type's hint."""
    if isinstance(t, U):
        return t.ser
    if isinstance(t, Nest):
        return build_class('Probe', [('x', t.hint())]).serializer
    found = []

    def walk(h):
        if typing.get_origin(h) is Annotated:
            for x in typing.get_args(h):
                walk(x)
        elif isinstance(h, Serializer):
            found.append(h)
    walk(t.hint())
    if not found:       # tuples, ...
        found = [build_class('Probe', [('x', t.hint())]).serializer]
    return found[-1]


VLQ = Vlq('vlq', VlqS())
KEYED = Keyed('keyed', KeyedS())
NIB = Nib('nib', NibS())

WIDE = Wide('wide', WideS())
LAZY = Vlq('lazy', VlqS('lazy'))
HANDS = Switch('hands', U16, VLQ, WIDE)

# name -> (type, [(key, value), ...])
LEAVES = {
    'vlq': (VLQ, [(1, 0), (2, 300), (1, 2 ** 40)]),
    'lazy': (Vlq('lazy', VlqS('lazy')), [(1, 5), (2, 70000)]),
    'list': (Vlq('list', VlqS(list)), [(1, 200)]),
    'iter': (Vlq('iter', VlqS('iter')), [(1, 129), (1, 0)]),
    'map': (Vlq('map', VlqS('map')), [(1, 129)]),
    'wide': (Wide('wide', WideS()), [(1, 66051), (1, 255)]),
    'directed': (Directed('directed', DirectedS()), [(1, 259), (2, 1)]),
    'keyed': (KEYED, [(1, 200), (2, 200), (255, 1)]),
    'len': (Len('len', LenS()), [(0, b''), (3, b'abc')]),
    'mirror': (Mirror('mirror', MirrorS()), [(1, b'ab'), (2, b'cd')]),
    'switch': (Switch('switch', U16, CharDyn(U16), VLQ), [(3, 513), (1, b'xyz'), (2, 300)]),
    'switchk': (Switch('switchk', KEYED, Arr(U8, U16), Nest(NAMED)),
                [(3, 77), (4, [1, 2]), (5, NAMED.obj(1, b'q'))]),
    'chk_u16': (Checked(U16), [(1, 513)]),
    'chk_dyn': (Checked(CharDyn(U16)), [(1, b''), (1, b'hello')]),
    'chk_arr': (Checked(Arr(U8, Nest(POINT_BE))), [(1, [POINT_BE.obj(1, 513)]), (1, [])]),
    'chk_keyed': (Checked(KEYED), [(9, 200), (4, 3)]),
    'chk_chk': (Checked(Checked(VLQ)), [(1, 300)]),
    'chk_tup': (Checked(Tup(VLQ, U16, KEYED)), [(8, (300, 258, 9))]),
    'nib': (NIB, [(1, 15), (1, 3)]),
}
INTUPLE = {
    'two': (Two('two', TwoS()), (9, 300)),
    'twolazy': (Two('twolazy', TwoS('lazy')), (8, 70000)),
    'magic': (Magic('magic', MagicS()), ()),
    'nib': (NIB, (5,)),
    'vlq': (VLQ, (300,)),
    'lazy': (LEAVES['lazy'][0], (301,)),
    'keyed': (KEYED, (77,)),
    'u16': (U16, (513,)),
    'dyn': (CharDyn(U8), (b'dd',)),
}
INTUPLE['ctwo'] = (Cond(lambda o: o.sel, INTUPLE['twolazy'][0], 1, 2), (3, 400))
INTUPLE['notwo'] = (Cond(lambda o: not o.sel, INTUPLE['two'][0], 5, 6), (5, 6))
INTUPLE['cmagic'] = (Cond(lambda o: o.sel, INTUPLE['magic'][0]), ())
SEL = operator.attrgetter('sel')


def by_key(vs):
    """Lists of values that go with the same key."""
    out = {}
    for k, v in vs:
        out.setdefault(k, []).append(v)
    return out.items()


def cyc(vals, n):
    return [vals[i % len(vals)] for i in range(n)]


def rec(t, vs, bo):
    s = Spec('Inner', [('sel', U8), ('key', U8), ('v', t), ('w', U8)], bo)
    return Nest(s), [(k ^ 3, s.obj(1, k, v, 3)) for k, v in vs]


def lone(t, vs):
    if env_of(t):
        return None
    s = Spec('Lone', [('v', t)], '>')
    return Nest(s), [(k, s.obj(v)) for k, v in vs]


CONTAINERS = {
    'arr': lambda t, vs: (Arr(U16, t), [(k, cyc(v, n)) for k, v in by_key(vs) for n in (0, 3)]),
    'arrs': lambda t, vs: (Arr(U8, t, U32), [(k, cyc(v, 2)) for k, v in by_key(vs)]),
    'fix': lambda t, vs: (Arr(2, t), [(k, cyc(v, 2)) for k, v in by_key(vs)]),
    'tup': lambda t, vs: (Tup(U8, t, U16), [(k, (7, v, 258)) for k, v in vs]),
    'tup1': lambda t, vs: (Tup(t), [(k, (v,)) for k, v in vs]),
    'tup2': lambda t, vs: (Tup(t, t), [(k, tuple(cyc(v, 2))) for k, v in by_key(vs)]),
    'rec': lambda t, vs: rec(t, vs, ''),
    'recbe': lambda t, vs: rec(t, vs, '>'),
    'lone': lone,
    'cond': lambda t, vs: (Cond(SEL, t, 'absent'), vs),
    'back': lambda t, vs: (Back(SEL, {1: t, 2: I64}), vs),
    'backd': lambda t, vs: (Back(SEL, {9: I64}, t), vs),
    'ahead': lambda t, vs: (Ahead(U8, lambda o: -1, {-2: I64}, t), vs),
    'ahead2': lambda t, vs: (Ahead(U16, lambda o: 258, {258: Tup(U16, t)}, I64),
                             [(k, (258, v)) for k, v in vs]),
    # a user serializer is what is peeked
    'aheadu': lambda t, vs: (Ahead(VLQ, lambda o: 300, {300: Tup(VLQ, t)}, I64),
                             [(k, (300, v)) for k, v in vs]),
    # ... one which looks at the record, one which hands over to others, a lazy one
    'aheadk': lambda t, vs: (Ahead(KEYED, lambda o: 200, {200: Tup(KEYED, t)}, I64),
                             [(k, (200, v)) for k, v in vs]),
    'aheads': lambda t, vs: (Ahead(HANDS, lambda o: 300, {300: Tup(HANDS, t)}, I64),
                             [(k, (300, v)) for k, v in vs]),
    'aheadl': lambda t, vs: (Ahead(LAZY, lambda o: 302, {301: Tup(U8, LAZY, t)},
                                   Tup(LAZY, t)), [(k, (302, v)) for k, v in vs]),
    'checked': lambda t, vs: (Checked(t), vs),
}


def composites(depth):
    if depth == 0:
        for n, (t, vs) in LEAVES.items():
            yield n, t, vs
        return
    for n, t, vs in composites(depth - 1):
        for c, fn in CONTAINERS.items():
            if c == 'checked' and (isinstance(t, (Checked, Switch)) or not env_free(t)):
                continue
            r = fn(t, vs)
            if r is not None:
                yield f'{c}({n})', *r


def env_free(t):
    return not env_of(t)


def one_field(t, vs, bo, limit):
    def run(ctx):
        for fields, make in (
                ([('sel', U8), ('key', U8), ('v', t), ('z', U16)], lambda k, v: (1, k, v, 772)),
                ([('sel', U8), ('key', U8), ('s', CharDyn(U16)), ('v', t)],
                 lambda k, v: (1, k, b'str', v))):
            spec = Spec('R', fields, bo)
            for k, v in vs[:limit]:
                if not check_record(ctx, spec, spec.obj(*make(k, v))):
                    return
        if not env_of(t):
            spec = Spec('Only', [('v', t)], bo)
            for k, v in vs[:limit]:
                if not check_record(ctx, spec, spec.obj(v), sub='only'):
                    return
        # one after another: sizes left over from the other records do not matter
        spec = Spec('R', [('sel', U8), ('key', U8), ('v', t), ('z', U16)], bo)
        datas = [spec.enc(spec.obj(1, k, v, 772)) for k, v in vs[:limit]]
        for a, b in itertools.product(datas, repeat=2):
            for d in (a, b):
                if not check_unpacks(ctx, spec, d, sub='sequence'):
                    return
        # the truncated record is refused, and refusing it leaves everything usable
        spec = Spec('R', [('sel', U8), ('key', U8), ('v', t)], bo)
        k, v = vs[-1]
        m = spec.obj(1, k, v)
        data = spec.enc(m)
        for n in range(len(data)):
            if not check_unpacks(ctx, spec, data[:n], lambda: to_lib(m), post=b'', sub='cut'):
                return
        check_record(ctx, spec, m, sub='after')
    return run


def retargeted(t, vs, bo):
    def run(ctx):
        spec = Spec('R', [('sel', U8), ('key', U8), ('v', t), ('z', U16)], bo)
        for k, v in vs[:2]:
            m = spec.obj(1, k, v, 772)
            data = spec.enc(m)
            for b in ALL_BO:
                new = retarget(m, b)
                if not check_packs(ctx, new._spec, new, sub=b):
                    return
                o = to_lib(new)
                o.unpack(new._spec.enc(new))
                ctx.op(2)
                d = diff(o, new._spec.dec(new._spec.enc(new))[0])
                if d or to_lib(m).pack() != data:
                    return ctx.fail(f'{spec} re-targeted to {b!r}: {d}', b)
        # inherited, re-declared, overridden
        base = spec.cls()
        sub = Spec('Sub', spec.fields + [('more', t)], bo)
        sub._cls = build_class('Sub', [('more', t.hint())], bo, (base,))
        k, v = vs[0]
        if not check_record(ctx, sub, sub.obj(1, k, v, 5, v), sub='sub'):
            return
        red = Spec('Red', spec.fields[:3] + [('z', t)], bo)
        red._cls = build_class('Red', [('z', t.hint())], bo, (base,))
        if not check_record(ctx, red, red.obj(1, k, v, v), sub='red'):
            return
        back = Spec('Back', spec.fields[:2] + [('v', U32), ('z', t)], bo)
        back._cls = build_class('Back', [('v', L.uint32)], bo, (red.cls(),))
        if not check_record(ctx, back, back.obj(1, k, 70000, v), sub='back'):
            return
        for b in ALL_BO:
            over = Spec('Over', spec.fields, b)
            over._cls = build_class('Over', [], b, (base,), byte_order_mode=L.ByteOrderMode.OVERRIDE)
            if not check_record(ctx, over, over.obj(1, k, v, 5), sub='over' + b):
                return
        check_record(ctx, spec, spec.obj(1, k, v, 6), sub='base')
        # every way to write the hint
        h, py = t.hint(), object
        if typing.get_origin(h) is Annotated:
            py = typing.get_args(h)[0]
        for n, hint in {
                'doc': Annotated[h, 'documentation'],
                **({} if typing.get_origin(h) is not Annotated else {
                    'first': Annotated[py, 'doc', *typing.get_args(h)[1:]],
                    'nested': Annotated[py, Annotated[h, 1], 2]})}.items():
            form = Spec('Form', spec.fields, bo)
            form._cls = build_class('Form', [('sel', L.uint8), ('key', L.uint8), ('v', hint),
                                             ('z', L.uint16)], bo)
            if not check_record(ctx, form, form.obj(1, k, v, 6), sub=n):
                return
        # a generic argument
        if not isinstance(t, (Cond, Back)) or True:
            g = build_class('G', [('sel', L.uint8), ('key', L.uint8), ('v', TV),
                                  ('l', L.array[L.Header[L.uint8], TV]),
                                  ('t', typing.Tuple[TV, L.uint16])], bo, (Generic[TV], L.Structured))
            gs = Spec('GS', [('sel', U8), ('key', U8), ('v', t), ('l', Arr(U8, t)), ('t', Tup(t, U16))], bo)
            gs._cls = build_class('GS', [], bo, (g[h],))
            check_record(ctx, gs, gs.obj(1, k, v, [v, v], (v, 5)), sub='generic')
    return run


TV = TypeVar('TV')


def sequence(names, bo):
    """Fields of several user types next to each other."""
    def run(ctx):
        fields, vals = [('sel', U8), ('key', U8)], [1, 6]
        for i, n in enumerate(names):
            t, vs = FIELDS[n]
            fields.append((f'f{i}', t))
            ok = [v for k, v in vs if k in (6, None)] or [v for k, v in vs]
            vals.append(ok[i % len(ok)])
        spec = Spec('R', fields, bo)
        m = spec.obj(*vals)
        if not check_record(ctx, spec, m):
            return
        if any(t.final for _, t in fields):
            return
        # the same spread over a base and a subclass
        for cut_ in range(2, len(fields)):
            base = build_class('B', [(n, t.hint()) for n, t in fields[:cut_]], bo)
            sub = Spec('S', fields, bo)
            sub._cls = build_class('S', [(n, t.hint()) for n, t in fields[cut_:]], bo, (base,))
            if not check_record(ctx, sub, sub.obj(*vals), sub=f'split{cut_}'):
                return
    return run


# key 6 throughout (6 % 3 == 0: the first of a switch)
FIELDS = {n: (t, vs) for n, (t, vs) in LEAVES.items()}
FIELDS['len'] = (LEAVES['len'][0], [(6, b'sixsix')])
FIELDS['switch'] = (LEAVES['switch'][0], [(6, 513)])
FIELDS['switchk'] = (LEAVES['switchk'][0], [(6, 77)])
FIELDS.update(
    u16=(U16, [(None, 513)]), dyn=(CharDyn(U16), [(None, b'dyn')]), term=(CharTerm(b'\0'), [(None, b't')]),
    cond=(Cond(SEL, U16, 0), [(None, 5)]), arr=(Arr(U8, U32), [(None, [1, 2])]),
    back=(Back(SEL, {1: VLQ}, U16), [(None, 300)]), rec=(Nest(NAMED), [(None, NAMED.obj(1, b'r'))]))
CORE = ['vlq', 'lazy', 'wide', 'keyed', 'len', 'mirror', 'switch', 'chk_dyn', 'nib', 'u16', 'dyn',
        'cond', 'arr']


def in_tuple(names, bo):
    def run(ctx):
        items = [INTUPLE[n][0] for n in names]
        value = tuple(x for n in names for x in INTUPLE[n][1])
        tup = Tup(*items)
        inner = Spec('In', [('sel', U8), ('key', U8), ('t', tup)], '>')
        for name, t, v in (('tuple', tup, value), ('array', Arr(U8, tup, U16), [value, value]),
                           ('nested', Tup(tup, U16), (value, 7)),
                           ('record', Nest(inner), inner.obj(1, 4, value)),
                           ('cond', Cond(SEL, tup, None), value),
                           ('union', Back(SEL, {1: tup}, U16), value)):
            spec = Spec('R', [('sel', U8), ('key', U8), ('t', t), ('z', U16)], bo)
            if not check_record(ctx, spec, spec.obj(1, 9, v, 772), sub=name):
                return
    return run


def final(ctx):
    """A user serializer that must be last."""
    rest = Rest('rest', RestS())
    for bo in ALL_BO:
        for t, v in ((rest, b'the rest'), (Tup(U8, rest), (1, b'abc')), (Checked2(rest), b'xy')):
            spec = Spec('R', [('a', U8), ('s', CharDyn(U8)), ('v', t)], bo)
            if not check_record(ctx, spec, spec.obj(1, b's', v), sub='last'):
                return
            for after in (U8, CharDyn(U8), VLQ, NIB, KEYED):
                ctx.op()
                ctx.state()
                r = attempt(build_class, 'R', [('v', t.hint()), ('key', after.hint())])
                if r[0] == 'ok' or not isinstance(r[1], TypeError):
                    return ctx.fail(f'{t} followed by {after}: {r[1]!r}', 'followed')
        ctx.op()
        r = attempt(lambda: L.array[L.Header[2], rest.hint()])
        if r[0] == 'ok' or not isinstance(r[1], TypeError):
            return ctx.fail(f'an array of {rest}: {r[1]!r}', 'array')
    # custom types can only be packed as basic types
    for t in (VLQ, KEYED, NIB):
        r = attempt(L.SerializeAs, t.hint())
        ctx.op()
        if r[0] == 'ok' or not isinstance(r[1], TypeError):
            return ctx.fail(f'SerializeAs({t}): {r[1]!r}', 'as')
    # several values cannot be one union member
    for n in ('two', 'magic'):
        r = attempt(lambda: L.LookbackDecider(SEL, {1: INTUPLE[n][0].hint()}, L.uint8))
        ctx.op()
        if r[0] == 'ok' or not isinstance(r[1], ValueError):
            return ctx.fail(f'union of {n}: {r[1]!r}', 'union')


def Checked2(t):
    return Cond(lambda o: o.a, t, b'')


def registered(bo):
    """Serializers found through a registered transform."""
    def run(ctx):
        from structured.type_checking import annotated

        class Marker:
            def __init__(self, n):
                self.n = n

        class Money(int):
            pass
        sers = {n: StructSerializer(f) for n, f in ((1, 'b'), (2, 'h'), (4, 'i'))}
        active = True

        def transform(base, hint):
            if not active:
                return
            if isinstance(hint, Marker):
                return sers[hint.n]
            if base is Money:
                return VLQ.ser
        annotated.register_transform(transform)
        try:
            money = L.array[L.Header[L.uint8], Money]
            cls = build_class('R', [
                ('a', Annotated[int, Marker(2)]), ('m', Money), ('l', money),
                ('t', typing.Tuple[Money, Annotated[int, Marker(4)]]),
                ('c', Annotated[Money, L.Condition(SEL2, 0)])], bo)
        finally:
            active = False      # there is no way to take it back
        i16, i32 = BASIC['int16'], BASIC['int32']
        spec = Spec('R', [('a', i16), ('m', VLQ), ('l', Arr(U8, VLQ)), ('t', Tup(VLQ, i32)),
                          ('c', Cond(SEL2, VLQ, 0))], bo)
        spec._cls = cls
        for a in (0, -2):
            check_record(ctx, spec, spec.obj(a, 300, [1, 300], (129, -5), 7 if a else 0), sub=str(a))
    return run


SEL2 = operator.attrgetter('a')


def cases(tier):
    quick = tier == 'quick'
    for d in (0, 1, 2) if quick else (0, 1, 2, 3):
        for i, (name, t, vs) in enumerate(composites(d)):
            for j, bo in enumerate(ALL_BO):
                if d == 2 and (i + j) % 6 and quick or d == 3 and (i + j) % 6:
                    continue
                yield f'{name}:{bo}', one_field(t, vs, bo, None if d < 3 else 2)
            if d == 0 or d == 1 or not quick and d == 2:
                for j, bo in enumerate(ALL_BO):
                    if d and (i + j) % 6:
                        continue
                    yield f'retarget:{name}:{bo}', retargeted(t, vs, bo)
    for j, names in enumerate(itertools.product(FIELDS, repeat=2)):
        yield f'seq:{"+".join(names)}', sequence(names, ALL_BO[j % 6])
    for j, names in enumerate(itertools.product(CORE if quick else FIELDS, repeat=3)):
        yield f'seq:{"+".join(names)}', sequence(names, ALL_BO[j % 6])
    if not quick:
        for j, names in enumerate(itertools.product(CORE, repeat=4)):
            yield f'seq:{"+".join(names)}', sequence(names, ALL_BO[j % 6])
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        for j, names in enumerate(itertools.product(INTUPLE, repeat=n)):
            if set(names) <= {'magic', 'cmagic'}:
                continue
            yield f'tuple:{"+".join(names)}', in_tuple(names, ALL_BO[j % 6])
    yield 'final', final
    for bo in ALL_BO:
        yield f'registered:{bo}', registered(bo)
