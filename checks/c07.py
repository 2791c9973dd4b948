"""C07 Truncated input is always refused."""
from mc.ops import JUNK, Endless, Stream, attempt, diff, model_decode, to_lib
from mc.space import cuts, records

ID = 'C07'
LEVEL = 'fault_enumeration'
RULE = ('every class and instance of the record space, its encoding cut at every byte, '
        'given to every unpack method; distinct_nontrivial counts the distinct (class, '
        'input prefix) pairs, evaluations the real unpack calls. A cut is non-trivial '
        'because the reference decoder itself judges the prefix (only read-to-end '
        'fields accept one)')
ASSUMPTIONS = ['records over 200 bytes (400 thorough) are cut at the ends, around multiples '
               'of 128 and at every 41st (7th) byte only',
               'the stream returns what it holds (short reads are C21)']


def explore(shape, limit, tier):
    def run(ctx):
        spec = shape.spec()
        cls = spec.cls()
        seen = set()
        for m in shape.instances(spec, limit, product=limit is None):
            data = spec.enc(m)
            for cut in cuts(len(data), tier):
                part = data[:cut]
                if part in seen:
                    continue
                seen.add(part)
                want = model_decode(spec, part)
                if want[0] == 'big':
                    ctx.skip('count above the item bound')
                    continue
                ctx.state()
                s = Stream(JUNK[:2] + part)
                s.seek(2)
                s2 = Stream(part)

                def inplace(name, *args):
                    def go():
                        o = to_lib(m)
                        getattr(o, name)(*args)
                        return o
                    return go
                for name, fn in (
                        ('create_unpack', lambda: cls.create_unpack(part)),
                        ('create_unpack(bytearray)', lambda: cls.create_unpack(bytearray(part))),
                        ('create_unpack(memoryview)', lambda: cls.create_unpack(memoryview(part))),
                        ('create_unpack_from', lambda: cls.create_unpack_from(JUNK[:3] + part, 3)),
                        ('create_unpack_read', lambda: cls.create_unpack_read(s)),
                        ('unpack', inplace('unpack', part)),
                        ('unpack_from', inplace('unpack_from', JUNK[:1] + part, 1)),
                        ('unpack_read', inplace('unpack_read', s2))):
                    try:
                        res = attempt(fn)
                    except Endless as e:
                        return ctx.fail(f'{spec}: {m} is {data!r}; cut to {part!r}, {name} '
                                        f'never ends: {e}', name)
                    ctx.op()
                    if want[0] == 'bad':
                        if res[0] == 'ok':
                            return ctx.fail(f'{spec}: {m} is {data!r}; cut to {part!r}, {name} '
                                            f'returns {res[1]!r}', name)
                        ctx.outcome('refused')
                    else:
                        d = repr(res[1]) if res[0] == 'exc' else diff(res[1], want[1])
                        if d:
                            return ctx.fail(f'{spec}: read-to-end field on {part!r}: {name}: {d}', name)
                        ctx.outcome('shorter read-to-end')
    return run


def cases(tier):
    quick = tier == 'quick'
    for s in records(tier, light=True):
        n = len(s.kinds)
        yield s.key, explore(s, None if n == 1 or not quick and n == 2 else 2,
                             tier)
