"""C09 Variable-length strings are framed exactly at every length."""
import itertools

from mc.kinds import getter
from mc.lib import L
from mc.model import (
    U16, U32, U64, U8, Arr, Back, Char, CharDyn, CharEnd, CharNET, CharTerm, Cond,
    Nest, Pascal, Spec, Tup, Uni, Upside)
from mc.ops import check_packs, check_record, check_unpacks, to_lib
from mc.space import ALL_BO

ID = 'C09'
LEVEL = 'model_checking'
RULE = ('every framing (4 length prefixes, terminators, .NET, fixed, read-to-end) x every '
        'length in the bound plus every length around an internal boundary x contents x '
        'text encodings x placement x position in the stream; and every length word with '
        'every amount of data. state = (class, value or input), transition = operation')
ASSUMPTIONS = ['uint32/uint64 prefixes are not driven to their overflow (needs 4 GB)']


class Instance(L.EncoderDecoder):
    """A codec used as an instance, with state of its own."""
    def __init__(self, key):
        self.key = key
        self.__name__ = f'Instance{key}'

    def encode(self, s):
        return bytes((ord(c) + self.key) & 255 for c in s)

    def decode(self, b):
        return ''.join(chr((c - self.key) & 255) for c in bytes(b))


PLUS1, PLUS2 = Instance(1), Instance(2)


def content(n, term=None, seed=0):
    """n position-dependent bytes, none of which is the terminator."""
    out = bytes((i * 7 + seed) % 251 + 1 for i in range(n))
    if term:
        out = out.replace(term, b'\0' if term != b'\0' else b'\x01')
    return out


def mid(t):
    return [('a', U8), ('s', t), ('b', U16)]


PLACES = {
    'alone': (lambda t: [('s', t)], lambda v: (v,)),
    'mid': (mid, lambda v: (1, v, 515)),
    'twice': (lambda t: [('s', t), ('t', t), ('b', U8)], lambda v: (v, v[:1], 5)),
    'tup': (lambda t: [('x', Tup(U8, t, U16)), ('b', U8)], lambda v: ((1, v, 515), 5)),
    'arr': (lambda t: [('x', Arr(U8, t)), ('b', U8)], lambda v: ([v, v[1:], v], 5)),
    'arrs': (lambda t: [('x', Arr(U8, t, U32)), ('b', U8)], lambda v: ([v, v[1:]], 5)),
    'cond': (lambda t: [('a', U8), ('s', Cond(getter('a'), t, None)), ('b', U8)],
             lambda v: (1, v, 5)),
    'back': (lambda t: [('a', U8), ('s', Back(getter('a'), {2: U64}, t)), ('b', U8)],
             lambda v: (1, v, 5)),
    'rec': (lambda t: [('a', U8), ('r', Nest(rec(t))), ('b', U8)],
            lambda v, _c={}: (1, v, 5)),
}
_RECS = {}


def rec(t):
    if t not in _RECS:
        _RECS[t] = Spec('Inner', [('p', U16), ('s', t)], '>')
    return _RECS[t]


def record(t, place, bo):
    make, wrap = PLACES[place]
    spec = Spec('S', make(t), bo)
    if place == 'rec':
        return spec, lambda v: spec.obj(1, rec(t).obj(258, v), 5)
    return spec, lambda v: spec.obj(*wrap(v))


def values(t, place, bo, vals, contexts):
    def run(ctx):
        spec, wrap = record(t, place, bo)
        spec.cls()
        for v in vals():
            m = wrap(v)
            if not check_packs(ctx, spec, m, sub=str(len(v))):
                return
            try:
                data = spec.enc(m)
            except Exception:
                ctx.outcome('too long')
                continue
            ctx.bound('length', len(v))
            for pre, post in contexts:
                if not check_unpacks(ctx, spec, data, lambda: to_lib(m),
                                     pre=bytes(pre), post=b'\xEE' * post, sub=str(len(v))):
                    return
    return run


def words(t, place, bo, inputs):
    """Raw inputs: length words that say more or less than there is."""
    def run(ctx):
        spec, _ = record(t, place, bo)
        spec.cls()
        for data in inputs():
            if not check_unpacks(ctx, spec, data, pre=b'\1\2', post=b''):
                return
    return run


CTX = ((0, 0), (3, 4))
WIDE = ((0, 0), (1, 0), (255, 300), (256, 1), (257, 600))
EDGE = (126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 383, 384, 385, 511, 512, 513,
        514, 767, 768, 769, 1023, 1024, 1025)


def cases(tier):
    quick = tier == 'quick'
    bos = ('', '>', '<') if quick else ALL_BO
    small = range(12) if quick else range(300)

    def lens(*extra):
        return sorted({*small, *EDGE, *extra})

    prefixed = [CharDyn(s) for s in (U8, U16, U32, U64)]
    terms = [CharTerm(b) for b in (b'\0', b'x', b'\xff', b'\n', b'\x80')]
    terms += [CharTerm(b'\0', 'null_char')]
    everything = prefixed + terms + [CharNET()]
    for t, place, bo in itertools.product(everything, PLACES, bos):
        term = getattr(t, 'term', None)
        if place in ('arr', 'arrs', 'twice') and term is None and quick and bo == '<':
            continue

        def vals(t=t, term=term):
            for n in lens():
                yield content(n, term)
        yield (f'len:{t}{getattr(t, "alias", None) or ""}:{place}:{bo or "default"}',
               values(t, place, bo, vals, CTX))
    # contents that look like framing: terminators and NULs at every position
    for t, bo in itertools.product(everything, ('', '>')):
        def specials(t=t):
            c = getattr(t, 'term', b'\0')
            for n in range(4 if quick else 6):
                for bs in itertools.product([c, b'\0', b'a', b'\x80'], repeat=n):
                    yield b''.join(bs)
            for n in (254, 255, 256, 257):
                base = content(n, c)
                for i in (0, 1, 254, 255, 256):
                    if i < n:
                        yield base[:i] + c + base[i + 1:]
        for place in ('alone', 'mid', 'arr'):
            yield f'content:{t}{getattr(t, "alias", None) or ""}:{place}:{bo or "default"}', \
                values(t, place, bo, specials, CTX)
    # every length around a terminated string's read chunks, at many positions
    top = 700 if quick else 2100
    for t in terms[:3]:
        for place in ('alone', 'mid', 'tup'):
            for lo in range(0, top, 100):
                def chunk(t=t, lo=lo):
                    for n in range(lo, lo + 100):
                        yield content(n, t.term)
                yield f'chunk:{t}:{place}:{lo}', values(t, place, '', chunk, WIDE)
    # .NET: every length up to its maximum, and beyond
    for lo in range(0, 0x8000, 512):
        def net(lo=lo):
            ns = range(lo, lo + 512)
            if quick and lo > 1024:
                ns = sorted({*ns[:3], *ns[126:130], *ns[-3:], *ns[::37]})
            for n in ns:
                yield content(n)
        yield f'net:{lo}', values(CharNET(), 'mid', '>' if lo % 1024 else '', net, CTX[1:])
    for place in PLACES:
        def toolong():
            for n in (0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x10000):
                yield content(n)
        yield f'net-long:{place}', values(CharNET(), place, '', toolong, CTX[1:])
    # prefix overflow
    for place, bo in itertools.product(PLACES, bos):
        def over8():
            for n in (253, 254, 255, 256, 257, 300, 511, 512, 65536):
                yield content(n)

        def over16():
            for n in (65534, 65535, 65536, 65537):
                yield content(n)
        yield f'over8:{place}:{bo or "default"}', values(CharDyn(U8), place, bo, over8, CTX[1:])
        yield f'over16:{place}:{bo or "default"}', values(CharDyn(U16), place, bo, over16, CTX[1:])

        def big():
            yield content(65536)
            yield content(65540)
            yield content(70001)
            yield content(131073)
        yield f'big:{place}:{bo or "default"}', values(CharDyn(U32), place, bo, big, CTX[1:])
    # fixed widths and Pascal strings: padded or cut
    for n in range(9 if quick else 40):
        for bo in bos:
            def fixed(n=n):
                for k in {*range(n + 3), 2 * n}:
                    yield content(k)
                    yield b'\0' * k
                    yield b'a' * (k // 2) + b'\0' * (k - k // 2)
            for place in ('alone', 'mid', 'tup', 'arr', 'cond'):
                yield f'fixed:{n}:{place}:{bo or "default"}', \
                    values(Char(n), place, bo, fixed, CTX[1:])
                if n:
                    yield f'pascal:{n}:{place}:{bo or "default"}', \
                        values(Pascal(n), place, bo, fixed, CTX[1:])
    for n in (255, 256, 257, 300):
        def longfix(n=n):
            for k in (0, 1, 254, 255, 256, 257, n - 1, n, n + 1):
                yield content(k)
        yield f'fixed:{n}', values(Char(n), 'mid', '', longfix, CTX)
        yield f'pascal:{n}', values(Pascal(n), 'mid', '', longfix, CTX)
    # read to the end
    for bo in bos:
        def ends():
            for n in lens(5000):
                yield content(n)
                yield b'\0' * n
            for n in (65536, 65537, 131073, 1048577):
                yield content(n)
        for pname, fields, wrap in (
                ('alone', lambda t: [('s', t)], lambda v: (v,)),
                ('after', lambda t: [('q', CharTerm(b'\0')), ('a', U16), ('s', t)],
                 lambda v: (b'qq', 7, v)),
                ('tup', lambda t: [('a', U8), ('s', Tup(U16, t))], lambda v: (1, (7, v)))):
            for t in (CharEnd(), Uni(CharEnd(), 'latin-1')):
                def run(ctx, fields=fields, wrap=wrap, t=t, bo=bo):
                    spec = Spec('E', fields(t), bo)
                    spec.cls()
                    for v in ends():
                        m = spec.obj(*wrap(v if isinstance(t, CharEnd) else v.decode('latin-1')))
                        if not check_packs(ctx, spec, m, sub=str(len(v))):
                            return
                        data = spec.enc(m)
                        for pre in (0, 1, 256):
                            if not check_unpacks(ctx, spec, data, lambda: to_lib(m),
                                                 pre=bytes(pre), sub=str(len(v))):
                                return
                yield f'end:{t}:{pname}:{bo or "default"}', run
    # text: encodings x framings x lengths x places
    encs = ['utf8', 'utf-8', 'utf-16', 'utf-16-le', 'utf-16-be', 'utf-32-le', 'latin-1', 'ascii',
            'cp1252', None, Upside, PLUS1, PLUS2]
    texts = ['', 'a', 'ab\0', '\0', 'a\0b', 'abc', 'h\u00e9llo', '\u20ac', '\U0001F600', 'x' * 63,
             'x' * 64, 'y' * 127, 'y' * 128, '\u00e9' * 64, '\u00e9' * 127, '\u00e9' * 128,
             'z' * 255, 'z' * 256, 'w' * 300]
    frames = [CharDyn(U8), CharDyn(U16), CharDyn(U32), CharDyn(U64), CharNET(), CharTerm(b'\0'),
              CharTerm(b'x'), Char(0), Char(4), Char(6), Char(300), CharEnd()]
    for e, f, bo in itertools.product(encs, frames, bos):
        ename = e if isinstance(e, str) or e is None else e.__name__
        for place in ('alone', 'mid') if quick else PLACES:
            if f.final and place != 'alone':
                continue

            def txt():
                yield from texts
            yield f'text:{ename}:{f}:{place}:{bo or "default"}', \
                values(Uni(f, e), place, bo, txt, CTX[1:])
    # raw length words against every amount of data
    top = 6 if quick else 12
    for t, bo in itertools.product(prefixed + [CharNET(), Uni(CharDyn(U16), 'utf8')], bos):
        st = getattr(t, 'length', None) or getattr(getattr(t, 'inner', None), 'length', None)

        def raw(t=t, bo=bo, st=st):
            import struct
            heads = []
            if st is not None:
                mx = 256 ** struct.calcsize(st.fmt) - 1
                for n in {*range(top + 2), 127, 128, 255, mx & 0x7FFFFFFF, mx >> 1, mx,
                          256 & mx, 257 & mx}:
                    heads.append(struct.pack(bo + st.fmt, n))
            else:
                heads = [bytes([a]) for a in range(256)]
                heads += [bytes([a, b]) for a in (127, 128, 129, 130, 255)
                          for b in (0, 1, 2, 127, 128, 255)]
            for h in heads:
                for k in range(top):
                    yield h + b'abcdefghijklmnop'[:k]
        yield f'raw:{t}:{bo or "default"}', words(t, 'alone', bo, raw)
    if not quick:
        # the decoder's view: all inputs of a .NET length word
        for a in range(0, 256, 8):
            def allnet(a=a):
                for x in range(a, a + 8):
                    for y in range(256):
                        n = x if x < 128 else x & 127 | y << 7
                        body = content(n)
                        h = bytes([x]) if x < 128 else bytes([x, y])
                        yield h + body
                        if n:
                            yield h + body[:-1]
            yield f'netword:{a}', words(CharNET(), 'alone', '', allnet)
