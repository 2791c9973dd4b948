"""C04 All unpack methods agree and consume exactly the record."""
from mc.ops import BUFFERS, JUNK, accepted, diff, model_decode, to_lib, unpackers, uses_pre
from mc.kinds import BY_NAME, NONFINAL
from mc.space import ALL_BO, pairs, records, rotate, singles

ID = 'C04'
LEVEL = 'model_checking'
RULE = ('every class and instance of the record space x every unpack method x every '
        'buffer and stream type x surrounding bytes; and every byte string up to a length over an '
        'alphabet of boundary bytes which is a record, alone and before another field; state = (class, instance, method, context), '
        'transition = one real unpack')
ASSUMPTIONS = ['offsets are non-negative and within the input']


def explore(shape, limit, contexts):
    def run(ctx):
        spec = shape.spec()
        cls = spec.cls()
        olds = list(shape.instances(spec, 6, product=False))
        for n, m in enumerate(shape.instances(spec, limit)):
            data = spec.enc(m)
            old = olds[(n + 1) % len(olds)]
            methods = unpackers(cls, lambda: to_lib(old))
            ctx.trace()
            for pre, post in contexts:
                for name, fn in methods.items():
                    if pre and not uses_pre(name):
                        continue
                    if spec.final and post:
                        want = model_decode(spec, data + post)
                        if want[0] != 'ok':
                            continue
                        _, value, end = want
                    else:
                        value, end = model_decode(spec, data)[1:]
                    ctx.state()
                    ctx.op()
                    obj, stream = fn(pre, data, post)
                    d = diff(obj, value)
                    if d:
                        return ctx.fail(f'{spec}: {name} of {data!r} between {pre!r} and '
                                        f'{post!r}: {d}', name)
                    if stream is not None and (stream.closed or
                                               stream.tell() != len(pre) + end):
                        return ctx.fail(f'{spec}: {name} of {data!r} between {pre!r} and '
                                        f'{post!r} ended at {stream.tell()}, the record ends '
                                        f'at {len(pre) + end}', name)
                    ctx.outcome('stream' if stream is not None else 'buffer')
            # the input is not modified, and the result does not alias it
            for pre in (b'', JUNK[:3]):
                src = bytearray(pre + data)
                value = model_decode(spec, data)[1]
                for alias in (src, memoryview(src)):
                    a = cls.create_unpack_from(alias, len(pre))
                    b = to_lib(old)
                    b.unpack_from(alias, len(pre))
                    objs = [a, b]
                    if not pre:
                        objs.append(cls.create_unpack(alias))
                        c = to_lib(old)
                        c.unpack(alias)
                        objs.append(c)
                    ctx.op(len(objs))
                    ctx.state()
                    if bytes(src) != pre + data:
                        return ctx.fail(f'{spec}: unpacking modified its input', 'input')
                    src[:] = bytes([0x5A]) * len(src)
                    for o in objs:
                        d = diff(o, value)
                        if d:
                            return ctx.fail(f'{spec}: value changed with its input buffer: {d}',
                                            'alias')
                    if alias is src:
                        src[:] = pre + data
                    ctx.outcome('alias')
    return run


def arbitrary(shape, length):
    """Every short input that is a record, whether or not a value packs to it."""
    def run(ctx):
        spec = shape.spec()
        cls = spec.cls()
        m0 = next(iter(shape.instances(spec)))
        methods = unpackers(cls, lambda: to_lib(m0))
        ctx.bound('input_length', length)
        for data, value in accepted(spec, length):
            ctx.trace()
            post = b'' if spec.final else JUNK[:4]
            for name, fn in methods.items():
                pre = JUNK[:3] if uses_pre(name) else b''
                ctx.state()
                ctx.op()
                obj, stream = fn(pre, data, post)
                d = diff(obj, value)
                if d:
                    return ctx.fail(f'{spec}: {name} of {data!r} between {pre!r} and {post!r}: '
                                    f'{d}', name)
                if stream is not None and stream.tell() != len(pre) + len(data):
                    return ctx.fail(f'{spec}: {name} of {data!r} between {pre!r} and {post!r} '
                                    f'ended at {stream.tell()}', name)
                ctx.outcome('arbitrary input')
    return run


SMALL = ((b'', b''), (JUNK[:5], JUNK[:7]))
FULL = ((b'', b''), (b'', JUNK), (JUNK[:1], b''), (JUNK[:3], b'\0\0\0\0\0'),
        (b'\0' * 8, b'\xff' * 9))


def cases(tier):
    quick = tier == 'quick'
    for s in records(tier, light=True):
        n = len(s.kinds)
        yield s.key, explore(s, None if n == 1 else (3 if quick else 8) if n == 2 else 2,
                             FULL if n == 1 or not quick else SMALL)
    length = 5 if quick else 6
    for s in singles(('',) if quick else ALL_BO):
        yield 'any:' + s.key, arbitrary(s, length)
    for s in pairs(rotate(ALL_BO), NONFINAL, [BY_NAME['uint8']]):
        yield 'any:' + s.key, arbitrary(s, length)
