"""C08 Array length and data-size headers are exact and enforced."""
import itertools

from mc.compose import LEAVES, seq
from mc.kinds import (BOXED, CEL32, NAMED, NODE, POINT, Boxed, Celsius, P, getter)
from mc.model import (
    BASIC, I16, U16, U32, U64, U8, Arr, Back, Bad, Char, CharDyn, CharTerm, Cond,
    Nest, Pad, Pascal, SelfT, Spec, Tup, Uni, spack)
from mc.ops import attempt, check_packs, check_record, check_unpacks, to_lib
from mc.space import ALL_BO

ID = 'C08'
LEVEL = 'model_checking'
RULE = ('item types x fixed/counted header x no/each data-size word x byte order x '
        'placement; packing every list length up to the bound and around every header '
        'limit; tuples of every length up to the bound; unpacking every (count, size) header around the true ones. state = '
        '(class, list or input), transition = one real operation')
ASSUMPTIONS = ['counts above 2000 items are only packed, and unpacked at 65535 once per header']

SIZES = {'8': U8, '16': U16, '32': U32, '64': U64}

ITEMS = LEAVES + [
    ('bool', BASIC['bool8'], [True, False]),
    ('u8', U8, [7, 255]),
    ('i64', BASIC['int64'], [-2]),
    ('f16', BASIC['float16'], [1.5]),
    ('char0', Char(0), [b'']),
    ('pascal', Pascal(4), [b'ab']),
    ('cel32', CEL32, [Celsius(-9)]),
    ('uni4', Uni(Char(4), 'utf8'), ['ab', '']),
    ('point', Nest(POINT), [P(1, 2), P(-3, 4)]),
    ('tup', Tup(U8, U32), [(1, 2)]),
    ('tuppad', Tup(U8, Pad(1), CharDyn(U8)), [(1, b'z')]),
    ('tupstr', Tup(CharDyn(U8), U16), [(b'', 1), (b'abc', 2)]),
    ('arr', Arr(U8, U16), [[], [1, 2]]),
    ('arrfix', Arr(2, CharTerm(b'\0')), [[b'', b'x']]),
    ('node', Nest(NODE), [NODE.obj(1, [NODE.obj(2, [])])]),
]

PLACES = {
    'alone': lambda a: ([('a', a)], lambda v: (v,)),
    'mid': lambda a: ([('s', CharTerm(b'\0')), ('x', U8), ('a', a), ('y', U16)],
                      lambda v: (b'pq', 1, v, 515)),
    'tup': lambda a: ([('x', U8), ('t', Tup(U8, a, U16)), ('y', U8)],
                      lambda v: (1, (2, v, 772), 3)),
    'arr': lambda a: ([('x', U8), ('t', Arr(U8, a)), ('y', U8)],
                      lambda v: (1, [v, v], 3)),
    'rec': lambda a: inner(a),
    'cond': lambda a: ([('x', U8), ('a', Cond(getter('x'), a, [])), ('y', U8)],
                       lambda v: (1, v, 3)),
    'back': lambda a: ([('x', U8), ('a', Back(getter('x'), {1: a, 2: U8})), ('y', U8)],
                       lambda v: (1, v, 3)),
}


def inner(a):
    s = Spec('Inner', [('p', U8), ('a', a)], '>')
    return [('x', U8), ('r', Nest(s)), ('y', U8)], lambda v: (1, s.obj(9, v), 3)


def lengths(item, count, size, place, bo, ns):
    """Pack and unpack every length; wrong lengths of fixed arrays refused."""
    _, t, vals = item

    def run(ctx):
        fields, wrap = PLACES[place](Arr(count, t, size))
        spec = Spec('A', fields, bo)
        spec.cls()
        for n in ns:
            m = spec.obj(*wrap(seq(vals, n)))
            if not check_record(ctx, spec, m, sub=str(n)):
                return
            if isinstance(count, int) and n != count:
                for method in ('pack', 'pack_into', 'pack_write'):
                    import io
                    args = {'pack': (), 'pack_into': (bytearray(99999),),
                            'pack_write': (io.BytesIO(),)}[method]
                    res = attempt(getattr(to_lib(m), method), *args)
                    ctx.op()
                    if res[0] == 'ok' or not isinstance(res[1], ValueError):
                        return ctx.fail(f'{spec}: {method} with {n} items for {count}: '
                                        f'{res[1]!r} instead of ValueError')
            # other multiplicities of the same class are unaffected
            good = count if isinstance(count, int) else 1
            if not check_packs(ctx, spec, spec.obj(*wrap(seq(vals, good))), sub='again'):
                return
    return run


def headers(item, count, size, bo, ns):
    """Every (count word, size word) near the true ones."""
    _, t, vals = item

    def run(ctx):
        spec = Spec('A', [('a', Arr(count, t, size)), ('z', U8)], bo)
        spec.cls()
        fixed = isinstance(count, int)
        cfmt = '' if fixed else count.fmt
        for n in ([count] if fixed else ns):
            body = Arr(n, t).enc(seq(vals, n), bo, None)
            counts = [None] if fixed else sorted({0, 1, n - 1, n, n + 1, n + 2, 255} - {-1})
            sizes = [None] if size is None else sorted(
                {0, 1, len(body) - 1, len(body), len(body) + 1, len(body) + 256,
                 len(body) * 2} - {-1})
            for c, s in itertools.product(counts, sizes):
                try:
                    hdr = spack(bo + cfmt + (size.fmt if size else ''),
                                *[x for x in (c, s) if x is not None])
                except Bad:
                    continue
                data = hdr + body + b'\x11' * 9
                # the only thing wrong is the size word: must be a ValueError
                wrong = (ValueError if size is not None and (fixed or c == n)
                         and s != len(body) else None)
                old = spec.obj(seq(vals, count if fixed else 1), 5)
                if not check_unpacks(ctx, spec, data, lambda: to_lib(old), exc=wrong,
                                     sub=f'{c},{s}'):
                    return
                ctx.outcome('wrong size word' if wrong else 'header')
    return run


def limits(count, size, item, bo, ns, place):
    """Lists around the limits of the count and size words."""
    _, t, vals = item

    def run(ctx):
        fields, wrap = PLACES[place](Arr(count, t, size))
        spec = Spec('A', fields, bo)
        spec.cls()
        for n in ns:
            m = spec.obj(*wrap(seq(vals, n)))
            ctx.bound('items', n)
            if not check_packs(ctx, spec, m, sub=str(n)):
                return
            try:
                data = spec.enc(m)
            except Bad:
                ctx.outcome('does not fit the header')
                continue
            if n <= 2000:
                if not check_unpacks(ctx, spec, data, sub=str(n)):
                    return
            else:
                o = spec.cls().create_unpack(data)
                ctx.op()
                if not (o == to_lib(m)):
                    return ctx.fail(f'{spec}: {n} items do not survive', str(n))
    return run


def tuples(items, place, bo):
    """A tuple value of any other length than its hint is refused."""
    def run(ctx):
        t = Tup(*[i[1] for i in items])
        fields, wrap = PLACES[place](t)
        spec = Spec('A', fields, bo)
        spec.cls()
        vals = [v for i, v in zip(items, seq([0, 1], len(items))) for v in [i[2][v % len(i[2])]]
                if i[1].nvals]
        good = spec.obj(*wrap(tuple(vals)))
        wrong = [tuple(vals[:n]) for n in range(len(vals))]
        wrong += [(*vals, vals[0]), (*vals, *vals), (vals[0], *vals), (*vals, None)]
        for v in wrong:
            if not check_packs(ctx, spec, spec.obj(*wrap(v)), sub=repr(v)):
                return
            ctx.outcome('wrong tuple length')
            if not check_record(ctx, spec, good, sub='right length'):
                return
    return run


def cases(tier):
    quick = tier == 'quick'
    bos = ('', '>') if quick else ALL_BO
    counts = {'0': 0, '1': 1, '3': 3, **SIZES}
    if not quick:
        counts.update({'2': 2, '5': 5})
    for it in ITEMS:
        for (cn, c), (sn, s) in itertools.product(
                counts.items(), [('-', None), *SIZES.items()]):
            for i, place in enumerate(PLACES):
                for bo in bos:
                    if quick and place != 'alone' and (
                            (len(cn) + len(sn) + i + (bo == '>')) % 3):
                        continue
                    yield (f'len:{it[0]}:{cn}:{sn}:{place}:{bo or "default"}',
                           lengths(it, c, s, place, bo,
                                   (0, 1, 2, 3, 4) if quick else range(8)))
            for bo in bos:
                yield (f'hdr:{it[0]}:{cn}:{sn}:{bo or "default"}',
                       headers(it, c, s, bo, (0, 1, 3) if quick else range(6)))
    skipped = ('skipped', Cond(lambda o: False, U16, 7), [7])
    for n, tup in enumerate([*itertools.product(ITEMS + [skipped], repeat=1),
                             *itertools.product(ITEMS + [skipped], repeat=2)]):
        for i, place in enumerate(PLACES):
            if not quick or len(tup) == 1 or (n + i) % 4 == 0:
                yield (f'tuple:{"+".join(t[0] for t in tup)}:{place}',
                       tuples(tup, place, bos[(n + i) % len(bos)]))
    items = {i[0]: i for i in ITEMS}
    for bo in bos:
        for place in ('alone', 'mid', 'rec') if quick else PLACES:
            for iname in ('u8', 'u16', 'str16', 'point', 'tup', 'char0', 'cel32', 'uni4'):
                for sn, s in [('-', None), *SIZES.items()]:
                    yield (f'lim8:{iname}:{sn}:{place}:{bo or "default"}',
                           limits(U8, s, items[iname], bo, (254, 255, 256, 257, 511, 512), place))
            # data size limits of a one-byte size word
            for iname in ('u8', 'char3', 'u16', 'i32', 'arrfix', 'tuppad', 'recbe'):
                item = items[iname]
                one = len(Arr(4, item[1]).enc(seq(item[2], 4), bo, None)) / 4
                n = int(255 / one)
                for cn, c in (('16', U16), ('32', U32), (str(n), n), (str(n + 1), n + 1)):
                    yield (f'size8:{iname}:{cn}:{place}:{bo or "default"}',
                           limits(c, U8, item, bo, sorted({n - 1, n, n + 1, n + 2}), place))
        # counts between: fixed and counted, every method, wrong counts too
        for iname in ('u8', 'u16', 'char3', 'cel32', 'str16', 'point', 'recbe', 'tup', 'arrfix'):
            for sn, s in [('-', None), ('16', U16), ('32', U32)]:
                for cn, c in (('8', U8), ('16', U16)):
                    yield (f'mid:{iname}:{cn}:{sn}:{bo or "default"}',
                           lengths(items[iname], c, s, 'mid', bo,
                                   (5, 7, 8, 10, 16, 17, 33, 64, 100, 129, 250) + (
                                       (257, 300, 999, 1000) if c is U16 else ())))
                for n in (10, 16, 17, 33, 64, 100, 129, 255, 256, 257, 1000):
                    yield (f'midfix:{iname}:{n}:{sn}:{bo or "default"}',
                           lengths(items[iname], n, s, 'alone', bo,
                                   (0, 1, n - 1, n, n + 1, 2 * n)))
        for iname in ('u16', 'str16', 'point'):
            for n in (10, 100, 255, 256, 1000):
                yield (f'midhdr:{iname}:{n}:{bo or "default"}',
                       headers(items[iname], n, U16, bo, ()))
            yield (f'midhdr:{iname}:16:{bo or "default"}',
                   headers(items[iname], U16, U16, bo, (10, 100, 257, 1000)))
        yield (f'lim16:{bo or "default"}',
               limits(U16, None, items['u8'], bo, (65534, 65535, 65536, 65537), 'mid'))
        yield (f'lim16s:{bo or "default"}',
               limits(U16, U32, items['u8'], bo, (65535, 65536), 'alone'))
        yield (f'size16:{bo or "default"}',
               limits(U32, U16, items['u8'], bo, (65535, 65536, 65537), 'alone'))
        yield (f'size16b:{bo or "default"}',
               limits(U32, U16, items['term'], bo, (24576, 26215, 32767), 'alone'))
