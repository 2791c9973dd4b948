"""C02 Packed bytes follow the documented wire layout (both directions)."""
import io
import itertools

from mc.kinds import KINDS, NONFINAL, REP
from mc.ops import attempt, diff, dressed, model_decode, packers, to_lib
from mc.space import ALL_BO, Shape, pack_only, pairs, records, rotate, singles, triples, wide

ID = 'C02'
LEVEL = 'model_checking'
RULE = ('encode: every class and instance of the record space, packed bytes compared '
        'with the reference encoder. decode: for every single kind all byte strings up '
        'to the length bound over an alphabet of boundary bytes, and every single-byte '
        'mutation of every valid encoding, each decoded by bytes, buffer and stream and '
        'compared with the reference decoder (same values, or refused by both). '
        'state = one (class, instance or input), transition = one real pack/unpack')
ASSUMPTIONS = ['inputs whose counts ask for more than 2000 array items are not decoded',
               'stdlib struct is the reference for the basic formats']

ALPHABET = (0x00, 0x01, 0x02, 0x80, 0xFF)


def encode(shape, limit):
    def run(ctx):
        spec = shape.spec()
        cls = spec.cls()
        for m in shape.instances(spec, limit):
            want = spec.enc(m)
            got = to_lib(m).pack()
            ctx.state()
            ctx.op()
            ctx.trace()
            if got != want or type(got) is not bytes:
                ctx.fail(f'{spec}: {m} packs to {got!r}, documented layout is {want!r}')
                return
            ctx.outcome('encoded')
    return run


def subtypes(shape, limit):
    """Values that are instances of subtypes (an IntEnum, a str subclass...)."""
    def run(ctx):
        spec = shape.spec()
        spec.cls()
        for m in shape.instances(spec, limit):
            want = spec.enc(m)
            ctx.state()
            for name, fn in packers(dressed(m)).items():
                res = attempt(fn, len(want))
                ctx.op()
                if res != ('ok', want):
                    ctx.fail(f'{spec}: {name} of {m} made of subtypes gives {res[1]!r}, '
                             f'documented layout is {want!r}')
                    return
            ctx.outcome('encoded subtypes')
    return run


def decode_one(ctx, spec, cls, data):
    ctx.state()
    want = model_decode(spec, data)
    if want[0] == 'big':
        ctx.skip('count above the item bound')
        return True
    for how, res in (
            ('create_unpack', attempt(cls.create_unpack, data)),
            ('create_unpack_from', attempt(cls.create_unpack_from, b'\x7f' + data, 1)),
            ('create_unpack_read', attempt(cls.create_unpack_read, io.BytesIO(data)))):
        ctx.op()
        if want[0] == 'bad':
            if res[0] == 'ok':
                ctx.fail(f'{spec}: {how} of {data!r} gives {res[1]!r}, but the input is '
                         f'invalid: {want[1]}')
                return False
        elif res[0] == 'exc':
            ctx.fail(f'{spec}: {how} of {data!r} raises {res[1]!r}, expected {want[1]}')
            return False
        else:
            d = diff(res[1], want[1])
            if d:
                ctx.fail(f'{spec}: {how} of {data!r} gives {res[1]!r}, expected '
                         f'{want[1]}: {d}')
                return False
    ctx.trace()
    ctx.outcome('accepted' if want[0] == 'ok' else 'refused')
    return True


def decode_all(shape, length):
    """All byte strings over the alphabet, plus bytes taken from the kind's own
    valid encodings (terminators, tags)."""
    def run(ctx):
        spec = shape.spec()
        cls = spec.cls()
        ctx.bound('input_length', length)
        for n in range(length + 1):
            for bs in itertools.product(ALPHABET, repeat=n):
                if not decode_one(ctx, spec, cls, bytes(bs)):
                    return
    return run


def mutate(shape, limit, values, maxlen):
    """Every single-byte mutation of every valid encoding."""
    def run(ctx):
        spec = shape.spec()
        cls = spec.cls()
        for m in shape.instances(spec, limit, product=False):
            data = spec.enc(m)
            if not decode_one(ctx, spec, cls, data):
                return
            if len(data) > maxlen:
                pos = list(range(maxlen // 2)) + list(range(len(data) - maxlen // 2, len(data)))
            else:
                pos = range(len(data))
            for i in pos:
                for v in values(data[i]):
                    if v != data[i]:
                        if not decode_one(ctx, spec, cls, data[:i] + bytes([v]) + data[i + 1:]):
                            return
    return run


def near(b):
    """Boundary neighbours of a byte."""
    return {0, 1, 2, 0x7F, 0x80, 0xFF, (b + 1) & 255, (b - 1) & 255, b ^ 0x80, ord('x')}


def cases(tier):
    quick = tier == 'quick'
    for s in records(tier):
        yield 'enc:' + s.key, encode(s, (12 if quick else 30) if len(s.kinds) < 3 else 3)
    for s in itertools.chain(singles(ALL_BO), wide(tier), pairs(rotate(ALL_BO), REP, REP)):
        yield 'sub:' + s.key, subtypes(s, 12 if quick else 30)
    for s in pack_only(tier):
        yield 'enc:' + s.key, encode(s, None)
    for s in singles(ALL_BO):
        yield 'dec:' + s.key, decode_all(s, (4 if s.bo in ('', '>') else 3) if quick else 6)
    for s in singles(('', '>') if quick else ALL_BO):
        yield 'mut:' + s.key, mutate(s, None, lambda b: range(256), 24 if quick else 64)
    for s in pairs(rotate(ALL_BO), REP, REP) if quick else pairs(rotate(ALL_BO)):
        yield 'mut2:' + s.key, mutate(s, 2 if quick else 6, near, 24)
    if not quick:
        for s in pairs(rotate(ALL_BO), REP, REP):
            yield 'dec2:' + s.key, decode_all(s, 5)
        for s in triples(rotate(ALL_BO), REP):
            yield 'mut3:' + s.key, mutate(s, 3, near, 32)
