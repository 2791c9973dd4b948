"""C06 The class byte order governs every multi-byte quantity."""
import copy
import io

from typing import Annotated

from mc.kinds import KINDS, REP, Kind, getter
from mc.lib import BO, ByteOrderMode, StructSerializer
from mc.model import (
    I16, U16, U32, U8, Ahead, Arr, Back, Basic, CharDyn, Cond, Nest, Spec, Tup,
    build_class, diff, to_lib)
from mc.ops import JUNK, model_decode, unpackers
from mc.space import ALL_BO, Shape, nested, pairs, rotate, singles, long_shapes, wide

ID = 'C06'
LEVEL = 'model_checking'
RULE = ('every kind and every composition of containers under all six byte orders; for '
        'each, all 36 re-targetings of an instance, subclass overrides, and a byte-wise '
        'check that the order matters where it must; state = (class, instance, byte '
        'order or re-targeting), transition = one real operation')
ASSUMPTIONS = ['.NET length prefixes and single bytes have no byte order']


def layout(shape, limit):
    """Packed and unpacked in the order of the class."""
    def run(ctx):
        spec = shape.spec()
        cls = spec.cls()
        if cls.byte_order is not BO[shape.bo]:
            return ctx.fail(f'{spec}: class byte order is {cls.byte_order!r}')
        for m in shape.instances(spec, limit):
            data = spec.enc(m)
            obj = to_lib(m)
            ctx.state()
            ctx.op(3)
            ctx.trace()
            got = obj.pack()
            if got != data:
                return ctx.fail(f'{spec}: {m} packs to {got!r}, expected {data!r}')
            want = model_decode(spec, data)[1]
            for o in (cls.create_unpack(data), cls.create_unpack_read(io.BytesIO(data))):
                d = diff(o, want)
                if d:
                    return ctx.fail(f'{spec}: {data!r} unpacked: {d}')
            ctx.outcome('order visible' if data != swapped(spec, m) else 'order-free')
    return run


class Pin(Basic):
    """A basic field whose hint holds a serializer made for some byte order;
    the order of the class replaces it."""

    def __init__(self, fmt, bo):
        self.name, self.fmt, self.bo = f'{fmt}@{bo}', fmt, bo

    def mkhint(self):
        return Annotated[int, StructSerializer(self.fmt, BO[self.bo])]


def pins():
    """Groups of fields around serializers made for each byte order."""
    for bo in ALL_BO:
        h, q, b = Pin('H', bo), Pin('q', bo), Pin('B', bo)
        rec = Spec('PinRec', [('a', h), ('s', CharDyn(U16)), ('b', q)], '>')
        for name, fields, *vals in (
                ('one', lambda p: [(p, h)], (258,)),
                ('two', lambda p: [(p, h), (p + 'b', q)], (258, -2)),
                ('dyn', lambda p: [(p, h), (p + 's', CharDyn(U16))], (258, b'ab')),
                ('dyns', lambda p: [(p + 's', CharDyn(U16)), (p, h), (p + 't', CharDyn(U32)),
                                    (p + 'q', q)], (b'ab', 258, b'', 7)),
                ('byte', lambda p: [(p, b), (p + 's', CharDyn(U32)), (p + 't', Arr(U16, I16))],
                 (5, b'x', [1, -2])),
                ('arr', lambda p: [(p, Arr(2, h)), (p + 'd', Arr(U16, q)), (p + 's', Arr(U8, h, U32))],
                 ([1, 258], [7], [258, 1])),
                ('tup', lambda p: [(p, Tup(h, CharDyn(U16), q)), (p + 't', Tup(h, b))],
                 ((258, b'z', -5), (515, 1))),
                ('rec', lambda p: [(p, Nest(rec)), (p + 'x', h)], (rec.obj(258, b'r', 9), 772)),
                ('cond', lambda p: [(p + 'c', b), (p, Cond(getter(p + 'c'), h, 0)),
                                    (p + 's', CharDyn(U16))], (1, 258, b'c'), (0, 0, b'')),
                ('back', lambda p: [(p + 'c', b), (p, Back(getter(p + 'c'), {0: h, 1: q}, U32)),
                                    (p + 's', Arr(U16, U16))],
                 (0, 258, [1]), (1, -9, []), (7, 65538, [2, 3])),
                ('ahead', lambda p: [(p, Ahead(h, lambda o: getattr(o, p)[0],
                                               {258: Tup(h, q), 513: Tup(U16, U8)}))],
                 ((258, 3),), ((513, 4),))):
            yield Kind(f'pin{name}@{bo}', fields, vals)


def swapped(spec, m):
    other = Spec(spec.name, spec.fields, {'>': '<', '!': '<'}.get(spec.bo, '>'))
    from mc.model import enc_fields
    return enc_fields(other.types, m._values(), other.bo, m)


def retarget(kind, limit):
    """obj.with_byte_order(b) for all pairs of orders, then a second time."""
    def run(ctx):
        for a in ALL_BO:
            shape = Shape((kind,), a)
            spec = shape.spec()
            cls = spec.cls()
            for m in shape.instances(spec, limit, product=False):
                data_a = spec.enc(m)
                for b in ALL_BO:
                    spec_b = Spec(spec.name, spec.fields, b)
                    spec_b._cls = cls       # same class, other wire order
                    # same values, laid out in order b
                    from mc.model import enc_fields
                    data_b = enc_fields(spec.types, m._values(), b, m)
                    obj = to_lib(m)
                    new = obj.with_byte_order(BO[b])
                    ctx.state()
                    ctx.trace()

                    def bad(what):
                        ctx.fail(f'{spec}: {m} with_byte_order({b!r}): {what}')
                    if type(new) is not cls or not (new == obj):
                        return bad(f'gives {new!r}')
                    if new.byte_order != BO[b]:
                        return bad(f'has byte order {new.byte_order!r}')
                    for _ in range(2):
                        if new.pack() != data_b:
                            return bad(f'packs to {new.pack()!r}, expected {data_b!r}')
                        if new.serializer.size != len(data_b):
                            return bad(f'size {new.serializer.size} after packing {len(data_b)}')
                        if obj.pack() != data_a:
                            return bad(f'original now packs to {obj.pack()!r}')
                        ctx.op(2)
                    buf = bytearray(len(data_b) + 2)
                    new.pack_into(buf, 1)
                    size1 = new.serializer.size
                    s = io.BytesIO()
                    new.pack_write(s)
                    if (size1, new.serializer.size) != (len(data_b),) * 2:
                        return bad(f'sizes {size1}, {new.serializer.size} after packing {len(data_b)}')
                    ctx.op(2)
                    if bytes(buf[1:-1]) != data_b or s.getvalue() != data_b:
                        return bad('pack_into/pack_write use another order')
                    want = model_decode(spec_b, data_b)[1]
                    # fill a re-targeted instance from data in its order
                    for name in ('unpack', 'unpack_from', 'unpack_read'):
                        tgt = to_lib(m).with_byte_order(BO[b])
                        if name == 'unpack':
                            tgt.unpack(data_b)
                        elif name == 'unpack_from':
                            tgt.unpack_from(JUNK[:3] + data_b, 3)
                        else:
                            tgt.unpack_read(io.BytesIO(data_b))
                        ctx.op()
                        d = diff(tgt, want)
                        if d:
                            return bad(f'{name} of {data_b!r}: {d}')
                        if name == 'unpack' and tgt.serializer.size != len(data_b):
                            return bad(f'size {tgt.serializer.size}, used {len(data_b)}')
                    # the class itself is unchanged
                    d = diff(cls.create_unpack(data_a), model_decode(spec, data_a)[1])
                    ctx.op()
                    if d or cls.byte_order is not BO[a]:
                        return bad(f'changed the class: {d or cls.byte_order!r}')
                    # and back again, and on to a third order
                    if new.with_byte_order(BO[a]).pack() != data_a:
                        return bad('cannot be re-targeted back')
                    c = ALL_BO[(ALL_BO.index(b) + 2) % 6]
                    data_c = enc_fields(spec.types, m._values(), c, m)
                    if new.with_byte_order(BO[c]).pack() != data_c or new.pack() != data_b:
                        return bad(f're-targeted to {c!r} again is wrong')
                    ctx.op(3)
                    ctx.outcome('re-targeted')
    return run


def override(kind, limit):
    """A subclass with another byte order repacks inherited fields in it."""
    def run(ctx):
        for a in ALL_BO:
            shape = Shape((kind,), a)
            spec = shape.spec()
            base = spec.cls()
            for b in ALL_BO:
                sub = build_class('Sub', [], b, (base,),
                                  byte_order_mode=ByteOrderMode.OVERRIDE)
                spec_b = Spec('Sub', spec.fields, b)
                spec_b._cls = sub
                for m in shape.instances(spec, limit, product=False):
                    mb = spec_b.obj(*m._values())
                    data = spec_b.enc(mb)
                    got = to_lib(mb).pack()
                    ctx.op(3)
                    ctx.state()
                    ctx.trace()
                    if got != data:
                        return ctx.fail(f'{spec} overridden with {b!r}: {mb} packs to {got!r}, '
                                        f'expected {data!r}')
                    d = diff(sub.create_unpack(data), model_decode(spec_b, data)[1])
                    if d:
                        return ctx.fail(f'{spec} overridden with {b!r}: {d}')
                    if to_lib(m).pack() != spec.enc(m):
                        return ctx.fail(f'{spec}: base changed by a subclass with order {b!r}')
                    ctx.outcome('overridden')
    return run


def cases(tier):
    quick = tier == 'quick'
    for s in singles(ALL_BO):
        yield 'kind:' + s.key, layout(s, None)
    for s in (*long_shapes('thorough'), *wide(tier)):
        yield 'long:' + s.key, layout(s, 2)
    for s in nested(2 if quick else 3, ALL_BO):
        yield 'nest:' + s.key, layout(s, 4)
    for s in pairs(ALL_BO, *((REP, REP) if quick else ())):
        yield 'pair:' + s.key, layout(s, 3)
    for k in pins():
        for bo in ALL_BO:
            yield f'pin:{k}:{bo}', layout(Shape((k,), bo), None)
        yield f'retarget:{k}', retarget(k, None)
        yield f'override:{k}', override(k, None)
    from mc import compose
    for k in KINDS:
        yield f'retarget:{k}', retarget(k, None)
        yield f'override:{k}', override(k, None)
    for d in (1,) if quick else (1, 2):
        for k in compose.kinds(d):
            yield f'retarget:{k}', retarget(k, 2 if quick else None)
            if d == 1:
                yield f'override:{k}', override(k, 1)
