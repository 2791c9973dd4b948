"""C05 The reported size equals the bytes used."""
import io

from mc.kinds import BY_NAME, NONFINAL
from mc.ops import JUNK, accepted, model_decode, to_lib, unpackers, uses_pre
from mc.space import ALL_BO, pack_only, pairs, records, rotate, singles

ID = 'C05'
LEVEL = 'model_checking'
RULE = ('every class of the record space; for every ordered pair of its instances the '
        'sequence of all pack and unpack methods alternating between the two; and every short input '
        'over an alphabet of boundary bytes which is a record, through every method; after '
        'each, class serializer size == bytes used. state = (class, pair, operation), '
        'transition = one real operation')
ASSUMPTIONS = []


def explore(shape, limit):
    def run(ctx):
        spec = shape.spec()
        cls = spec.cls()
        ms = [(m, spec.enc(m)) for m in shape.instances(spec, limit, product=limit is None)]
        libs = [to_lib(m) for m, _ in ms]

        def operations(i):
            m, data = ms[i]
            obj = libs[i]
            end = model_decode(spec, data)[2]
            tail = b'' if spec.final else JUNK[:5]
            yield 'pack', len(data), obj.pack
            yield 'create_unpack', end, lambda: cls.create_unpack(data + tail)
            yield 'pack_into', len(data), lambda: obj.pack_into(bytearray(len(data) + 3), 2)
            yield 'unpack_from', end, lambda: to_lib(m).unpack_from(JUNK[:3] + data + tail, 3)
            yield 'pack_write', len(data), lambda: obj.pack_write(io.BytesIO())
            s = io.BytesIO(JUNK[:4] + data + tail)
            s.seek(4)
            yield 'create_unpack_read', end, lambda: cls.create_unpack_read(s)
            yield 'create_unpack_from', end, lambda: cls.create_unpack_from(JUNK[:1] + data + tail, 1)
            yield 'unpack', end, lambda: to_lib(m).unpack(bytearray(data + tail))
            s2 = io.BytesIO(data + tail)
            yield 'unpack_read', end, lambda: to_lib(m).unpack_read(s2)

        for i in range(len(ms)):
            for j in range(len(ms)):
                ctx.trace()
                for a, b in zip(operations(i), operations(j)):
                    for name, want, fn in (a, b):
                        fn()
                        got = cls.serializer.size
                        ctx.op()
                        ctx.state()
                        if got != want:
                            return ctx.fail(f'{spec}: after {name} of {ms[i][0]}/{ms[j][0]} the '
                                            f'size is {got}, but {want} bytes were used', name)
                        ctx.outcome('nonzero' if want else 'zero')
    return run


def packing(shape):
    """Values of which only the packed form is defined: sizes after packing."""
    def run(ctx):
        spec = shape.spec()
        cls = spec.cls()
        for m in shape.instances(spec):
            data = spec.enc(m)
            ctx.trace()
            for name, fn in (('pack', lambda o: o.pack()),
                             ('pack_into', lambda o: o.pack_into(bytearray(len(data) + 3), 2)),
                             ('pack_write', lambda o: o.pack_write(io.BytesIO()))):
                fn(to_lib(m))
                got = cls.serializer.size
                ctx.op()
                ctx.state()
                if got != len(data):
                    return ctx.fail(f'{spec}: after {name} of {m} the size is {got}, but '
                                    f'{len(data)} bytes were used', name)
                ctx.outcome('nonzero')
    return run


def arbitrary(shape, length):
    """Every short input that is a record, whether or not a value packs to it."""
    def run(ctx):
        spec = shape.spec()
        cls = spec.cls()
        m0 = next(iter(shape.instances(spec)))
        methods = unpackers(cls, lambda: to_lib(m0))
        ctx.bound('input_length', length)
        for data, _ in accepted(spec, length):
            ctx.trace()
            for name, fn in methods.items():
                if 'bytearray' in name or name.endswith('_read(duck)'):
                    continue
                fn(JUNK[:3] if uses_pre(name) else b'', data, b'' if spec.final else JUNK[:4])
                got = cls.serializer.size
                ctx.op()
                ctx.state()
                if got != len(data):
                    return ctx.fail(f'{spec}: after {name} of {data!r} the size is {got}, but '
                                    f'{len(data)} bytes were used', name)
                ctx.outcome('arbitrary input')
    return run


def cases(tier):
    quick = tier == 'quick'
    for s in pack_only(tier):
        yield 'pack:' + s.key, packing(s)
    for s in records(tier, light=True):
        n = len(s.kinds)
        yield s.key, explore(s, None if n == 1 else 2 if quick else 3)
    length = 5 if quick else 6
    for s in singles(('',) if quick else ALL_BO):
        yield 'any:' + s.key, arbitrary(s, length)
    for s in pairs(rotate(ALL_BO), NONFINAL, [BY_NAME['uint8']]):
        yield 'any:' + s.key, arbitrary(s, length)
