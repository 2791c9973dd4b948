"""The alphabet of field kinds the record space is built from."""
import enum
import functools
import operator

from .model import (
    BASIC, I8, I16, I32, I64, U8, U16, U32, U64, Ahead, Arr, Back, Char,
    CharDyn, CharEnd, CharNET, CharTerm, Cond, Nest, Obj, Pad, Pascal, SelfT,
    SerAs, Spec, T, Tup, Uni, Upside, retarget,
)
from .lib import BO


class Celsius(int):
    """A custom int type (the type itself is the factory)."""
    def __repr__(self):
        return f'Celsius({int(self)})'

    def __eq__(self, o):
        return type(o) is Celsius and int(o) == int(self)

    __hash__ = int.__hash__


class Tag(bytes):
    def __repr__(self):
        return f'Tag({bytes(self)!r})'

    def __eq__(self, o):
        return type(o) is Tag and bytes(o) == bytes(self)

    __hash__ = bytes.__hash__


class Color(enum.IntEnum):
    RED = 1
    BLUE = 2


class Boxed:
    """Made by a factory; packed through __index__."""
    def __init__(self, n):
        self.n = n

    def __index__(self):
        return self.n

    def __eq__(self, o):
        return type(o) is Boxed and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f'Boxed({self.n})'


def box(n):
    if type(n) is not int:      # the factory must see the decoded basic value
        raise AssertionError(f'factory called with {n!r}')
    return Boxed(n)


CELSIUS = SerAs(I16, Celsius)
CEL32 = SerAs(I32, Celsius)
COLOR = SerAs(U8, Color)
BOXED = SerAs(U16, Boxed, box)
TAG = SerAs(Char(3), Tag)

# nested records used as field types (some share a name: it must not matter)
POINT = Spec('Point', [('x', I8), ('y', I16)], '')
POINT_BE = Spec('Point', [('x', I8), ('y', U16)], '>')
EMPTY = Spec('Empty', [], '')
NAMED = Spec('Point', [('n', U8), ('s', CharDyn(U8))], '<')
MIXED = Spec('Mixed', [('a', CharTerm(b'\0')), ('b', U32), ('c', Arr(U8, U16))], '!')
LONE = Spec('Lone', [('s', CharTerm(b'\0'))], '')
LONECOND = Spec('Lone', [('s', Cond(lambda o: True, U16, 0))], '>')
LONEARR = Spec('LoneArr', [('s', Arr(U8, CharDyn(U8)))], '')
LONETUP = Spec('LoneTup', [('t', Tup(U8, CharDyn(U8), U16))], '')
DEEP = Spec('Deep', [('p', Nest(NAMED)), ('q', Arr(2, Nest(POINT)))], '=')
NODE = Spec('Mixed', [('v', U8), ('kids', Arr(U8, SelfT()))], '')
LINK = Spec('Link', [('has', U8), ('next', Cond(lambda o: o.has, SelfT(), None))], '>')


def P(x, y):
    return POINT.obj(x, y)


class Kind:
    """One alphabet symbol: a group of fields and joint values for them."""

    def __init__(self, name, make, vals, tags=()):
        self.name, self.make_, self.vals, self.tags = name, make, vals, set(tags)
        self.cache = {}

    def make(self, p):
        if p not in self.cache:
            self.cache[p] = self.make_(p)
        return self.cache[p]

    @functools.cached_property
    def final(self):
        return any(t.final for _, t in self.make('k'))

    def __repr__(self):
        return self.name


KINDS = []


def one(name, t, *vals, tags=()):
    """A kind of a single field of type t."""
    KINDS.append(Kind(name, lambda p: [(p, t)], [(v,) for v in vals], tags))


def group(name, make, *vals, tags=()):
    KINDS.append(Kind(name, make, list(vals), tags))


RANGES = {'int8': (-128, 127), 'uint8': (0, 255), 'int16': (-32768, 32767),
          'uint16': (258, 65535), 'int32': (-2**31, 2**31 - 1),
          'uint32': (16909060, 2**32 - 1), 'int64': (-2**63, 2**63 - 1),
          'uint64': (72623859790382856, 2**64 - 1),
          'bool8': (True, False), 'float16': (1.5, -0.0),
          'float32': (-2.5, float('inf')), 'float64': (1e300, 0.1)}
for n, t in BASIC.items():
    one(n, t, *RANGES[n], tags=('basic',))

group('pad3', lambda p: [('_', Pad(3))], (), tags=('basic',))
group('pad0', lambda p: [('_', Pad(0))], (), tags=('basic',))
one('char4', Char(4), b'abcd', b'\0x', tags=('basic',))
one('char0', Char(0), b'', tags=('basic',))
one('pascal5', Pascal(5), b'abcd', b'', tags=('basic',))
one('celsius', CELSIUS, Celsius(-2), Celsius(300), tags=('basic', 'as'))
one('color', COLOR, Color.RED, Color.BLUE, tags=('basic', 'as'))
one('boxed', BOXED, Boxed(513), tags=('basic', 'as'))
one('tag3', TAG, Tag(b'xyz'), tags=('basic', 'as'))

one('chardyn8', CharDyn(U8), b'', b'a', b'hello\0')
one('chardyn32', CharDyn(U32), b'', b'xyz')
one('chardyn16', CharDyn(U16), b'ab')
one('chardyn64', CharDyn(U64), b'q')
one('null_char', CharTerm(b'\0', 'null_char'), b'', b'hello')
one('charterm_x', CharTerm(b'x'), b'ab\0c', b'')
one('charnet', CharNET(), b'', b'net', b'n' * 128)
one('charinf', CharEnd(), b'', b'rest\0', tags=('final',))
one('uni8', Uni(Char(8), None), '', 'text')
one('unidyn16', Uni(CharDyn(U16), 'utf8'), '', 'h\u00e9\u20ac')
one('unidyn8_16', Uni(CharDyn(U8), 'utf-16-be'), 'ab')
one('null_unicode', Uni(CharTerm(b'\0'), 'utf8', 'null_unicode'), '', 'abc')
one('uninet', Uni(CharNET(), 'latin-1'), 'caf\u00e9', 'm' * 130)
one('unicustom', Uni(CharDyn(U8), Upside), 'abc', '')
one('uniinf', Uni(CharEnd(), 'utf8'), 'end', '', tags=('final',))

one('arr3u16', Arr(3, U16), [1, 2, 65535])
one('arr0', Arr(0, U8), [])
one('arr2u8s', Arr(2, U8, U8), [7, 8])
one('arrdyn_u8', Arr(U8, U8), [], [1, 2, 3])
one('arrdyn_i32', Arr(U8, I32), [], [-1, 5])
one('arrdyn_u16s', Arr(U16, U16, U16), [], [1, 2])
one('arrdyn_char', Arr(U8, Char(2)), [b'ab', b'cd'])
one('arrdyn_bool', Arr(U32, BASIC['bool8']), [True, False, True])
one('arrdyn_cel', Arr(U8, CEL32), [Celsius(1), Celsius(-1)], tags=('as',))
one('arr2box', Arr(2, BOXED), [Boxed(1), Boxed(2)], tags=('as',))
one('arrdyn_str', Arr(U8, CharDyn(U8)), [], [b'', b'ab'])
one('arr2_term', Arr(2, CharTerm(b'\0')), [b'a', b''])
one('arr2_uni', Arr(2, Uni(CharDyn(U16), 'utf8')), ['a', '\u20ac'])
one('arr_pt', Arr(U8, Nest(POINT)), [], [P(1, 2), P(-3, 4)])
one('arr_pt_s', Arr(U8, Nest(POINT), U16), [], [P(1, 2)])
one('arr2_named', Arr(2, Nest(NAMED)), [NAMED.obj(1, b'x'), NAMED.obj(2, b'')])
one('arr_tup', Arr(U8, Tup(U8, U16)), [(1, 2), (3, 4)])
one('arr_tupd', Arr(U16, Tup(CharDyn(U8), U16), U32), [], [(b'a', 1), (b'', 2)])
one('arr_arr', Arr(2, Arr(U8, U16)), [[], [1, 2]])

one('tup2', Tup(U8, U32), (1, 2))
one('tuppad', Tup(U8, Pad(2), I16), (1, -2))
one('tupdyn', Tup(U16, CharDyn(U8), U16), (1, b'hey', 2), (0, b'', 3))
one('tupnest', Tup(Tup(U8, CharTerm(b'\0')), U16), ((1, b'z'), 2))
one('tuparr', Tup(Arr(U8, U8), Nest(NAMED)), ([1, 2], NAMED.obj(3, b'k')))
one('tupas', Tup(U16, CELSIUS, U16), (1, Celsius(2), 3), tags=('as',))
one('tup1', Tup(I64, typing_tuple=True), (-5,))

one('point', Nest(POINT), P(5, -6))
one('pointbe', Nest(POINT_BE), POINT_BE.obj(5, 6))
one('empty', Nest(EMPTY), EMPTY.obj())
one('named', Nest(NAMED), NAMED.obj(9, b''), NAMED.obj(9, b'nm'))
one('mixed', Nest(MIXED), MIXED.obj(b'q', 77, [1, 2]))
one('lone', Nest(LONE), LONE.obj(b'lo'))
one('lonecond', Nest(LONECOND), LONECOND.obj(258))
one('lonearr', Nest(LONEARR), LONEARR.obj([b'', b'z']))
one('lonetup', Nest(LONETUP), LONETUP.obj((1, b'x', 2)))
one('deep', Nest(DEEP), DEEP.obj(NAMED.obj(1, b'd'), [P(1, 1), P(2, 2)]))
one('node', Nest(NODE), NODE.obj(1, []),
    NODE.obj(1, [NODE.obj(2, [NODE.obj(3, [])]), NODE.obj(4, [])]))
one('link', Nest(LINK), LINK.obj(0, None), LINK.obj(2, LINK.obj(1, LINK.obj(0, None))))


# --- kinds whose fields depend on each other
def getter(n):
    return operator.attrgetter(n)


def cond(name, inner, present, default, tags=()):
    def make(p):
        d = () if inner.nvals == 0 else (default,)
        return [(p + 'c', U8), (('_' if not inner.nvals else p), Cond(getter(p + 'c'), inner, *d))]
    if inner.nvals == 0:
        vals = [(2,), (0,)]
    else:
        vals = [(2, present), (0, default)]
    group(name, make, *vals, tags=('cond',) + tags)


cond('cond_u16', U16, 513, -1)
cond('cond_pad', Pad(3), None, None)
cond('cond_str', CharDyn(U16), b'here', b'')
cond('cond_uni', Uni(CharDyn(U16), 'utf8'), '\u20ac', 'none')
cond('cond_term', CharTerm(b'\0'), b'tt', None)
cond('cond_arr', Arr(U8, Nest(POINT)), [P(1, 2)], None)
cond('cond_arrb', Arr(2, U16), [1, 2], None)
cond('cond_tup', Tup(U8, CharDyn(U8)), (1, b'x'), (0, b''))
cond('cond_rec', Nest(NAMED), NAMED.obj(1, b'z'), None)
cond('cond_as', CELSIUS, Celsius(4), None, tags=('as',))
cond('cond_inf', CharEnd(), b'tail', b'dflt', tags=('final',))


def union(name, members, default, vals, tags=()):
    def make(p):
        return [(p + 'k', U8), (p, Back(getter(p + 'k'), dict(members), default))]
    group(name, make, *vals, tags=('union',) + tags)


union('back_basic', {0: U16, 1: I32, 2: CharDyn(U8)}, None,
      [(0, 513), (1, -2), (2, b'uu')])
union('back_default', {1: CharTerm(b'\0')}, U32, [(1, b't'), (9, 70000)])
union('back_rec', {0: Nest(NAMED), 1: Nest(POINT)}, Nest(EMPTY),
      [(0, NAMED.obj(1, b'q')), (1, P(1, 2)), (3, EMPTY.obj())])
union('back_cpx', {0: Arr(U8, Nest(POINT)), 1: Tup(U8, CharDyn(U16))},
      Uni(CharDyn(U16), 'utf8'), [(0, [P(1, 1)]), (1, (1, b'x')), (7, 'd\u00e9')])
union('back_as', {0: CELSIUS, 1: BOXED}, U16,
      [(0, Celsius(3)), (1, Boxed(4)), (2, 5)], tags=('as',))


def arr_union(p):
    return [(p + 'k', U8), (p, Arr(U8, Back(getter(p + 'k'), {0: U8, 1: CharDyn(U8)})))]


group('arr_back', arr_union, (0, [1, 2]), (1, [b'a', b'']), tags=('union',))
group('tup_back',
      lambda p: [(p + 'k', U8), (p, Tup(U8, Back(getter(p + 'k'), {0: U8, 1: CharDyn(U8)}), U16))],
      (0, (1, 2, 3)), (1, (1, b'zz', 3)), tags=('union',))
group('cond_back',
      lambda p: [(p + 'k', U8), (p, Cond(lambda o: getattr(o, p + 'k') > 0,
                                         Back(getter(p + 'k'), {1: U16, 2: CharDyn(U8)}), None))],
      (0, None), (1, 700), (2, b'cb'), tags=('union', 'cond'))
group('arr_cond',
      lambda p: [(p + 'c', U8), (p, Arr(2, Cond(getter(p + 'c'), U16, 9)))],
      (0, [9, 9]), (1, [1, 2]), tags=('cond',))
group('tup_cond',
      lambda p: [(p + 'c', U8), (p, Tup(Cond(getter(p + 'c'), CharDyn(U8), b''), U16))],
      (0, (b'', 1)), (1, (b'cc', 1)), tags=('cond',))


# look-ahead: the discriminator is the start of the member itself
def first_of(name, get):
    def fn(o):
        return get(getattr(o, name))
    return fn


group('ahead_u8',
      lambda p: [(p, Ahead(U8, first_of(p, lambda v: v[0]),
                           {1: Tup(U8, U16), 2: Tup(U8, CharDyn(U8))}, Tup(U8)))],
      ((1, 258),), ((2, b'ab'),), ((5,),), tags=('union', 'ahead'))
group('ahead_u16',
      lambda p: [(p, Ahead(U16, first_of(p, lambda v: v if isinstance(v, int) else v[0]),
                           {0x0102: Tup(U16, U8), 0x0304: U16}))],
      ((0x0102, 9),), (0x0304,), tags=('union', 'ahead'))
AAA = Spec('AAA', [('tag', Char(4)), ('v', U8)], '')
BBB = Spec('BBB', [('tag', Char(4)), ('s', CharTerm(b'\0'))], '')
CCC = Spec('CCC', [('tag', CharTerm(b'\0')), ('v', U8)], '')
DDD = Spec('DDD', [('tag', CharTerm(b'\0')), ('s', Arr(U8, U16))], '')
group('ahead_char',
      lambda p: [(p, Ahead(Char(4), first_of(p, lambda v: v.tag),
                           {b'AAAA': Nest(AAA), b'BBBB': Nest(BBB)}))],
      (AAA.obj(b'AAAA', 5),), (BBB.obj(b'BBBB', b'str'),), tags=('union', 'ahead'))
group('ahead_term',
      lambda p: [(p, Ahead(CharTerm(b'\0'), first_of(p, lambda v: v.tag),
                           {b'c': Nest(CCC), b'ddd': Nest(DDD)}))],
      (CCC.obj(b'c', 5),), (DDD.obj(b'ddd', [1, 2]),), tags=('union', 'ahead'))
group('ahead_tup',
      lambda p: [(p, Ahead(Tup(U8, U16), first_of(p, lambda v: v[:2]),
                           {(1, 2): Tup(U8, U16, U8), (3, 4): Tup(U8, U16, CharDyn(U16))}))],
      ((1, 2, 3),), ((3, 4, b'four'),), tags=('union', 'ahead'))
group('arr_ahead',
      lambda p: [(p + 'k', U8), (p, Arr(U8, Ahead(U8, lambda o: getattr(o, p + 'k'),
                           {1: Tup(U8, U16), 2: Tup(U8, CharDyn(U8))})))],
      (1, [(1, 2), (1, 3)]), (2, [(2, b'x')]), tags=('union', 'ahead'))

BY_NAME = {k.name: k for k in KINDS}
assert len(BY_NAME) == len(KINDS)
NONFINAL = [k for k in KINDS if not k.final]
FINAL = [k for k in KINDS if k.final]

# A small representative alphabet: one kind per serializer shape.
REP = [BY_NAME[n] for n in (
    'uint8', 'int32', 'pad3', 'char4', 'celsius', 'chardyn16', 'null_char',
    'charnet', 'unidyn16', 'arr3u16', 'arrdyn_i32', 'arr_pt_s', 'tup2',
    'tupdyn', 'point', 'named', 'node', 'cond_u16', 'cond_arr', 'back_cpx',
    'ahead_u8', 'charinf')]

def make_spec(kinds, bo='', name='R'):
    """A record class whose fields are the given kinds in order."""
    fields = []
    for i, k in enumerate(kinds):
        fields.extend(k.make(f'f{i}'))
    return Spec(name, fields, bo)


def instances(kinds, spec, limit=None, product=True):
    """Model instances: the product of the kinds' values (or, with
    product=False, enough instances to use every value once)."""
    import itertools
    if product:
        it = itertools.product(*[k.vals for k in kinds])
    else:
        n = max((len(k.vals) for k in kinds), default=1)
        it = (tuple(k.vals[j % len(k.vals)] for k in kinds) for j in range(n))
    for combo in itertools.islice(it, limit):
        yield spec.obj(*[v for vs in combo for v in vs])


# Values beyond every internal boundary (read chunks, one-byte lengths, ...);
# kept apart from KINDS so that they are not multiplied into all pairs.
LONG = []


def long(name, make, *vals, tags=()):
    LONG.append(Kind('long_' + name, make if callable(make) else lambda p: [(p, make)],
                     [v if isinstance(v, tuple) and callable(make) else (v,) for v in vals], tags))


def body(n, skip=()):
    """n bytes without the skipped ones, with a period coprime to powers of two."""
    al = [b for b in range(1, 252) if b not in skip]
    return bytes(al[(i * 7 + i // 251) % len(al)] for i in range(n))


def text(n):
    """About n characters of one to four bytes, so that chunk ends fall inside."""
    return ''.join('a\u00e9\u20ac\U0001f600'[i % 4] if i % 3 else 'z' for i in range(n))


TERM_LENS = (254, 255, 256, 257, 511, 512, 513, 1030)
long('term', CharTerm(b'\0', 'null_char'), *[body(n) for n in TERM_LENS])
long('termx', CharTerm(b'x'), *[body(n, b'x') for n in (255, 256, 700)])
long('uterm', Uni(CharTerm(b'\0'), 'utf8', 'null_unicode'), text(100), text(120), text(400),
     'q' * 255 + '\u20ac')
long('dyn8', CharDyn(U8), body(255), body(254), b'\0' * 255)
long('dyn16', CharDyn(U16), body(256), body(1000))
long('udyn32', Uni(CharDyn(U32), 'utf-16'), text(200))
long('net', CharNET(), *[body(n) for n in (127, 128, 129, 255, 256, 257, 2000)])
long('unet', Uni(CharNET(), 'utf8'), 'a' * 127, text(128), '\u00e9' * 64)
long('char300', Char(300), body(300), b'\0' + body(298) + b'\0')
long('pascal256', Pascal(256), body(255), b'', b'\0')
long('inf', CharEnd(), body(1500), b'\0' * 3, tags=('final',))
long('arr300', Arr(300, U16), [(i * 523) % 65536 for i in range(300)])
long('arr8', Arr(U8, I32), [i * 70001 - 2 ** 20 for i in range(255)])
long('arr_str', Arr(U16, CharTerm(b'\0')), [body(n % 19) for n in range(300)],
     [body(300), b'', body(513)])
long('arr_rec_s', Arr(U16, Nest(NAMED), U16),
     [NAMED.obj(i % 256, body(i % 5)) for i in range(260)])
# array counts between the small ones and the limits of the headers
MIDS = (7, 10, 16, 17, 33, 64, 100, 128, 250, 257, 1000)
long('mid_u16', Arr(U16, U16), *[[(i * 523 + n) % 65536 for i in range(n)] for n in MIDS])
long('mid_cel', Arr(U16, CEL32), *[[Celsius(i * 70001 - n) for i in range(n)] for n in MIDS[:8]])
long('mid_char_s', Arr(U32, Char(3), U32), *[[b'%03d' % (i % 1000) for i in range(n)] for n in MIDS])
long('mid_str', Arr(U16, CharDyn(U8)), *[[body(i % 7) for i in range(n)] for n in MIDS])
long('mid_tup_s', Arr(U16, Tup(U8, CharDyn(U8), I16), U16),
     *[[(i % 256, b'q' * (i % 4), -i) for i in range(n)] for n in MIDS])
long('mid_pt', Arr(U16, Nest(POINT)), *[[P(i % 100, i - n) for i in range(n)] for n in MIDS[:9]])
long('mid_arr', Arr(U8, Arr(U8, U8)), *[[[n] * (i % 5) for i in range(n)] for n in MIDS[:9]])
for _n in (10, 16, 17, 64, 100, 255, 256, 257, 1000):
    long(f'fix{_n}_i32', Arr(_n, I32), [i * 70001 - 5 for i in range(_n)])
    long(f'fix{_n}_box', Arr(_n, BOXED, U32), [Boxed(i * 61 % 65536) for i in range(_n)])
    long(f'fix{_n}_str', Arr(_n, CharTerm(b'\0'), U16), [body(i % 5) for i in range(_n)])
    long(f'fix{_n}_pt', Arr(_n, Nest(POINT)), [P(i % 100, -i) for i in range(_n)])
# lengths between the small ones and the internal boundaries
LENS = (6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 126, 200)
long('lens_dyn', CharDyn(U8), *[body(n) for n in LENS])
long('lens_term', CharTerm(b'\0', 'null_char'), *[body(n) for n in LENS])
long('lens_net', CharNET(), *[body(n) for n in LENS])
long('lens_uni', Uni(CharDyn(U16), 'utf8'), *[text(n) for n in LENS])
long('lens_uni16', Uni(CharDyn(U16), 'utf-16-le'), *[text(n) for n in LENS[::2]])
long('lens_uterm', Uni(CharTerm(b'\0'), 'utf8', 'null_unicode'), *[text(n) for n in LENS])
long('lens_inf', CharEnd(), *[body(n) for n in LENS], tags=('final',))
for _n in (1, 2, 9, 10, 11, 16, 64, 100, 255, 256, 1000):
    long(f'char_{_n}', Char(_n), body(_n), body(_n // 2), b'')
    long(f'uchar_{_n}', Uni(Char(_n), 'utf8'), 'z' * _n, 'z' * (_n // 2), '')
    long(f'pad_{_n}', lambda p, n=_n: [(p, U8), ('_', Pad(n)), (p + 'b', I16)], (1, -2))
    if 1 < _n < 257:
        long(f'pascal_{_n}', Pascal(_n), body(_n - 1), body(_n // 2), b'')
# numbers that are special to something: zero, one, digits, white space, ...
long('nums_u8', U8, *[0, 1, 2, 9, 10, 13, 26, 32, 48, 64, 100, 127, 128, 200, 254, 255])
long('nums_i16', I16, 0, 1, -1, 255, 256, -256, 10, 32767, -32768)
long('nums_i32', I32, 0, 1, -1, 65535, 65536, -65536)
long('nums_u64', U64, 0, 1, 255, 2 ** 32, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1)
long('nums_f64', BASIC['float64'], 0.0, -0.0, 1.0, -1e-310, float('inf'), float('-inf'), 2.0 ** 53)
long('nums_f32', BASIC['float32'], 0.0, -0.0, 1.0, float('inf'), float('-inf'), 0.1)
long('nums_cel', CELSIUS, Celsius(0), Celsius(-1))
long('nums_arr', Arr(U8, U8), [0], [0, 0, 0], [0] * 40)
long('tup40', Tup(*[[U8, U16, CharDyn(U8), I64][i % 4] for i in range(40)]),
     tuple([i, 257 + i, b'q' * (i % 3), -i][i % 4] for i in range(40)))
LONG[-1].vals[:] = [(tuple([i, 257 + i, b'q' * (i % 3), -i][i % 4] for i in range(40)),)]
long('tupterm', Tup(U8, CharTerm(b'\0'), U16), None)
LONG[-1].vals[:] = [((1, body(n), 515),) for n in (255, 256, 600)]
LTERM = Spec('LTerm', [('a', CharTerm(b'\0')), ('b', U16)], '>')
long('recterm', Nest(LTERM), *[LTERM.obj(body(n), 515) for n in (255, 256, 600)])
long('condterm', lambda p: [(p + 'c', U8), (p, Cond(getter(p + 'c'), CharTerm(b'\0'), b''))],
     (1, body(256)), (0, b''), (2, body(600)))
long('backterm', lambda p: [(p + 'k', U8), (p, Back(getter(p + 'k'), {0: CharTerm(b'\0')}, CharNET()))],
     (0, body(256)), (1, body(300)), (0, body(600)))
long('aheadterm', lambda p: [(p, Ahead(CharTerm(b'\0'), first_of(p, lambda v: v[0]),
                                       {body(300): Tup(CharTerm(b'\0'), U16)}, Tup(CharTerm(b'\0'), U8)))],
     ((body(300), 515),), ((body(257), 5),))
DEEPNODE = NODE.obj(0, [])
for _i in range(12):
    DEEPNODE = NODE.obj(_i, [DEEPNODE])
long('deepnode', Nest(NODE), DEEPNODE, NODE.obj(1, [NODE.obj(i % 256, []) for i in range(200)]))
# contents that meet the normalisations half-way
long('odd_text', Uni(CharDyn(U16), 'utf8'), '\0a', 'a\0b', ' a ', '\ufeffx', 'a\n', '\r\n')
long('odd_text8', Uni(Char(8), None), '\0a', 'a\0b', ' a ', 'eight ch')
long('odd_char', Char(4), b'    ', b'\0\0\0\1', b'\xff\xfe\xfd\xfc', b'a\0b\0')
long('odd_dyn', CharDyn(U16), b'\0', b' ', b'\0a\0', b'\xff' * 3)
long('odd_term', CharTerm(b'x'), b'\0', b'X', b' \0\xff')
long('odd_termff', CharTerm(b'\xff'), b'\0\x7f', b'', b'\xfe')

# Values whose unpacked form differs from what was packed: only what packing
# produces is looked at.
PACKED = []


def packed(name, make, *vals, tags=()):
    PACKED.append(Kind('packed_' + name, make if callable(make) else lambda p: [(p, make)],
                       [v if callable(make) else (v,) for v in vals], tags))


# values that already end with the terminator, or contain it
packed('term', CharTerm(b'\0', 'null_char'), b'\0', b'ab\0', b'a\0b', b'a\0\0', body(255) + b'\0')
packed('termx', CharTerm(b'x'), b'x', b'abx', b'axb')
packed('uterm', Uni(CharTerm(b'\0'), 'utf8', 'null_unicode'), '\0', 'ab\0', 'a\0b')
packed('uterm16', Uni(CharTerm(b'\0'), 'utf-16-le'), 'ab', '')
packed('arr_term', Arr(U8, CharTerm(b'\0'), U16), [b'a', b'b\0', b'\0', b'c'])
packed('tup_term', Tup(U8, CharTerm(b'\0'), U16), (1, b'b\0', 2))
packed('cond_term', lambda p: [(p + 'c', U8), (p, Cond(getter(p + 'c'), CharTerm(b'\0'), None))],
       (1, b'b\0'), (0, None))
packed('char4', Char(4), b'', b'a', b'abcdef')
packed('pascal5', Pascal(5), b'abcdef', b'')
packed('uni8', Uni(Char(8), None), 'a\0\0', 'longer than eight', '')
packed('bools', Arr(U8, BASIC['bool8']), [2, 0, 'x', None])
# nested instances keep the byte order they were re-targeted to
PADDED = Spec('Padded', [('x', U8), ('y', U32)], '')
PADDED_BE = Spec('PaddedBE', [('x', U8), ('y', U32), ('z', Arr(U16, U64))], '>')
INNER = Spec('InnerOf', [('a', U8), ('p', Nest(PADDED)), ('s', CharDyn(U16))], '<')


def each_order(o):
    return [retarget(o, b) for b in ('', '<', '>', '=', '@', '!')]


PADS, PADBES = each_order(PADDED.obj(1, 2)), each_order(PADDED_BE.obj(1, 2, [3]))
packed('own', Nest(PADDED), *PADS)
packed('ownbe', Nest(PADDED_BE), *PADBES)
packed('own2', Nest(INNER), *[INNER.obj(1, p, b'q') for p in PADS[:3]],
       *[retarget(INNER.obj(1, p, b'q'), '>') for p in PADS[:3]])
packed('own_arr', Arr(U8, Nest(PADDED)), PADS, PADS[1:2])
packed('own_arr_s', Arr(2, Nest(PADDED_BE), U16), PADBES[:2], PADBES[2:4])
packed('own_tup', Tup(U8, Nest(PADDED), U16), *[(1, x, 2) for x in PADS])
packed('own_cond', lambda p: [(p + 'c', U8), (p, Cond(getter(p + 'c'), Nest(PADDED), None))],
       (0, None), *[(1, x) for x in PADS[:3]])
packed('own_back', lambda p: [(p + 'k', U8), (p, Back(getter(p + 'k'), {0: Nest(PADDED)}, Nest(PADDED_BE)))],
       *[(0, x) for x in PADS[:3]], *[(1, x) for x in PADBES[:3]])
packed('own_node', Nest(NODE), *each_order(NODE.obj(1, [retarget(NODE.obj(2, []), '>')])))
