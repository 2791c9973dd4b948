"""C18 Custom-type conversions hit the right value exactly once."""
import collections
import io
import itertools
import struct
from typing import Annotated, Generic, TypeVar

from mc.lib import L, Structured
from mc.model import (
    BASIC, Arr, Back, Basic, Char, CharDyn, Cond, Nest, Obj, Pad, Pascal, Spec, Tup, U16, U32, U8,
    build_class, diff, to_lib)
from mc.ops import JUNK, attempt
from mc.space import ALL_BO

ID = 'C18'
LEVEL = 'model_checking'
RULE = ('all sequences of plain, padding, custom (type or factory) and variable-size elements '
        'up to length 4, as fields, as the items of a tuple, in arrays with every header, in '
        'union branches, conditions, nested records, subclasses and generic arguments x byte '
        'order x unpack method; every custom element has a type of its own and all conversions '
        'are recorded. state = (class, instance, method), transition = operation')
ASSUMPTIONS = ['a custom type converts when unpacking only; packing uses __index__, __float__, '
               '__bool__ or the bytes themselves']

CALLS = []      # (custom type number, value it was called with, resulting object)
WANT = []       # the model's


def mark(o, i, v):
    CALLS.append((i, v, o))


class Tok:
    """A custom value: which type it is of, and the basic value."""
    num = None
    basic = None

    def __eq__(self, o):
        return isinstance(o, Tok) and o.num == self.num and same(o.basic, self.basic)

    __hash__ = None

    def __repr__(self):
        return f'Tok{self.num}({self.basic!r})'

    def __index__(self):
        return self.basic

    def __float__(self):
        return self.basic

    def __bool__(self):
        return bool(self.basic)


def same(a, b):
    return type(a) is type(b) and (a == b or a != a and b != b) and repr(a) == repr(b)


def token_type(i, isbytes):
    if isbytes:
        class C(Tok, bytes):
            num = i

            def __new__(cls, v, quiet=False):
                o = bytes.__new__(cls, v)
                o.basic = v
                if not quiet:
                    mark(o, i, v)
                return o
    else:
        class C(Tok):
            num = i

            def __init__(self, v, quiet=False):
                self.basic = v
                if not quiet:
                    mark(self, i, v)
    C.__name__ = C.__qualname__ = f'Tok{i}'
    return C


class Custom(Basic):
    """SerializeAs over a basic type; number i is its own type."""

    def __init__(self, basic, i, how):
        self.inner, self.i, self.how = basic, i, how
        self.fmt, self.name = basic.fmt, f'Tok{i}<{basic.name}>{how}'
        self.cls = token_type(i, isinstance(basic, (Char, Pascal)))

    def mkhint(self):
        cls, h = self.cls, L.SerializeAs(self.inner.hint())
        if self.how == 'factory':
            h = h.with_factory(lambda v: cls(v))
        elif self.how == 'method':
            cls.make = classmethod(lambda c, v: c(v))
            h = h.with_factory(cls.make)
        elif self.how == 'refactored':      # the last factory is the one used
            h = h.with_factory(lambda v: 1 / 0).with_factory(lambda v: cls(v))
        return Annotated[cls, h]

    def tok(self, v):
        return self.cls(v, True)

    def wrap(self, v):
        WANT.append((self.i, v))
        return self.tok(v)

    def raw(self, v):
        return v.basic


def toks(v):
    if isinstance(v, Tok):
        yield v
    elif isinstance(v, Structured):
        for a in v.attrs:
            yield from toks(getattr(v, a))
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from toks(x)


HOWS = ('type', 'factory', 'method', 'refactored')
VALUES = {'bool8': (True, False), 'int8': (-1, 5), 'uint8': (1, 255), 'int16': (-2, 300),
          'uint16': (258, 1), 'int32': (-70000, 3), 'uint32': (70000, 2), 'int64': (-2**40, 9),
          'uint64': (2**40, 8), 'float16': (0.5, -2.0), 'float32': (0.25, 1.0),
          'float64': (0.1, -0.0)}


class Elem:
    """An alphabet symbol: makes the type at a position and its values."""

    def __init__(self, name, make, vals):
        self.name, self.make, self.vals = name, make, vals


def plain(t):
    vals = VALUES[t.name] if t.name in VALUES else (b'abc', b'xyz')
    return Elem(t.name, lambda i: t, vals)


def custom(t, how='type'):
    vals = VALUES[t.name] if t.name in VALUES else (b'abc', b'\0yz')
    return Elem(f'{t.name}*{how}', lambda i: Custom(t, i, how), vals)


PAD = Elem('pad', lambda i: Pad(2), None)
DYN = Elem('dyn', lambda i: CharDyn(U16), (b'', b'dynamic'))
ALPHABET = [plain(U8), plain(U32), PAD, DYN, custom(U8), custom(BASIC['int32'], 'factory'),
            custom(BASIC['float32']), custom(Char(3)), custom(U16, 'method'), plain(BASIC['int16'])]
EVERY = [custom(t, h) for t in [*BASIC.values(), Char(3), Pascal(4)] for h in HOWS]


def build(elems, start=0):
    """Types and two lists of values."""
    types, vals = [], ([], [])
    for i, e in enumerate(elems):
        t = e.make(start + i)
        types.append(t)
        if t.nvals:
            for k in (0, 1):
                v = e.vals[(k + i) % 2]
                vals[k].append(t.tok(v) if isinstance(t, Custom) else v)
    return types, vals


def check(ctx, spec, m, sub=''):
    cls = spec.cls()
    obj = to_lib(m)
    CALLS.clear()
    want_bytes = spec.enc(m)
    outs = {'pack': obj.pack()}
    buf = bytearray(len(want_bytes) + 4)
    obj.pack_into(buf, 3)
    outs['pack_into'] = bytes(buf[3:-1])
    s = io.BytesIO()
    obj.pack_write(s)
    outs['pack_write'] = s.getvalue()
    ctx.op(3)
    for name, got in outs.items():
        if got != want_bytes:
            ctx.fail(f'{spec}: {name} of {m} gives {got!r}, expected {want_bytes!r}', sub)
            return False
    if CALLS:
        ctx.fail(f'{spec}: packing converted {[c[:2] for c in CALLS]}', sub)
        return False
    WANT.clear()
    back, end = spec.dec(want_bytes)
    want = list(WANT)
    full = JUNK[:5] + want_bytes + JUNK[:5]
    old = to_lib(m)

    def inplace(fn):
        def run():
            o = to_lib(m)
            CALLS.clear()
            fn(o)
            return o
        return run

    def stream():
        s = io.BytesIO(full)
        s.seek(5)
        return s
    runs = {
        'create_unpack': lambda: cls.create_unpack(want_bytes + JUNK[:2]),
        'create_unpack_from': lambda: cls.create_unpack_from(full, 5),
        'create_unpack_read': lambda: cls.create_unpack_read(stream()),
        'unpack': inplace(lambda o: o.unpack(bytearray(want_bytes))),
        'unpack_from': inplace(lambda o: o.unpack_from(memoryview(full), 5)),
        'unpack_read': inplace(lambda o: o.unpack_read(stream())),
    }
    for name, fn in runs.items():
        CALLS.clear()
        res = attempt(fn)
        ctx.op()
        if res[0] == 'exc':
            ctx.fail(f'{spec}: {name} raises {res[1]!r}', sub)
            return False
        got = [(i, v) for i, v, _ in CALLS]
        left = list(got)
        for i, v in want:
            for j, (a, b) in enumerate(left):
                if a == i and same(v, b):
                    del left[j]
                    break
            else:
                ctx.fail(f'{spec}: {name} converts {got}, expected {want}', sub)
                return False
        if left:
            ctx.fail(f'{spec}: {name} converts {got}, expected {want}', sub)
            return False
        d = diff(res[1], back, loose=True)
        if d:
            ctx.fail(f'{spec}: {name} gives {res[1]!r}, expected {back}: {d}', sub)
            return False
        made = {id(o) for _, _, o in CALLS}
        if sorted(map(id, toks(res[1]))) != sorted(made) and len(made) == len(want):
            ctx.fail(f'{spec}: {name}: the values of {res[1]!r} are not the converted ones', sub)
            return False
        ctx.state()
        ctx.trace()
    ctx.outcome('conversions', len(want) * 6)
    return True


def as_fields(elems, bo):
    def run(ctx):
        types, vals = build(elems)
        spec = Spec('R', [(f'f{i}' if t.nvals else '_', t) for i, t in enumerate(types)], bo)
        for v in vals:
            if not check(ctx, spec, spec.obj(*v)):
                return
    return run


TV = TypeVar('TV')


class GCustomNest(Nest):
    """A specialised generic record: instances are of its own subclass."""
    def __init__(self, spec, hint):
        super().__init__(spec)
        self.h = hint

    def mkhint(self):
        return self.h


def as_parts(elems, bo):
    """Inside tuples, arrays, unions, conditions, records, subclasses."""
    def run(ctx):
        types, vals = build(elems)
        tup = Tup(*types)
        if not vals[0]:
            return
        tv = [tuple(v) for v in vals]
        fields = [(f'x{i}' if t.nvals else '_', t) for i, t in enumerate(types)]
        inner = Spec('Inner', fields, ALL_BO[(ALL_BO.index(bo) + 2) % 6])
        recs = [inner.obj(*v) for v in vals]
        yes, no = (lambda o: True), (lambda o: False)
        n = len(elems)
        more, mvals = build(elems[::-1], n)
        z = Custom(U32, 90, 'factory')
        forms = {
            'tuple': ([('a', U8), ('t', tup), ('z', z)], [(1, v, z.tok(7)) for v in tv]),
            'nested tuple': ([('t', Tup(U8, tup, Tup(tup))), ('z', z)],
                             [((1, v, (v,)), z.tok(7)) for v in tv]),
            'array': ([('t', Arr(U8, tup)), ('z', z)], [(tv[:k], z.tok(8)) for k in (0, 1, 2)]),
            'sized array': ([('z', z), ('t', Arr(2, tup, U16))], [(z.tok(9), tv)]),
            'record': ([('z', z), ('t', Nest(inner)), ('u', Nest(inner))],
                       [(z.tok(1), r, recs[0]) for r in recs]),
            'records': ([('t', Arr(U16, Nest(inner), U32)), ('z', z)],
                        [(recs[:k], z.tok(1)) for k in (0, 2)]),
            'present': ([('t', Cond(yes, tup, None)), ('z', z)], [(v, z.tok(3)) for v in tv]),
            'absent': ([('t', Cond(no, tup, None)), ('z', z)], [(None, z.tok(3))]),
            'branch': ([('t', Back(lambda o: 1, {1: tup, 2: U32})), ('z', z)],
                       [(v, z.tok(3)) for v in tv]),
            'default': ([('t', Back(lambda o: 1, {2: z}, tup)), ('z', z)],
                        [(v, z.tok(3)) for v in tv]),
            'array of records of tuples': (
                [('t', Arr(U8, Tup(Nest(inner), tup))), ('z', z)],
                [([(recs[0], tv[1]), (recs[1], tv[0])], z.tok(5))]),
        }
        for name, (fs, insts) in forms.items():
            spec = Spec('R', fs, bo)
            for v in insts:
                if not check(ctx, spec, spec.obj(*v), name):
                    return
        # each custom field of its own: in arrays, unions, conditions
        for t, v in zip([t for t in types if t.nvals], zip(*vals)):
            if isinstance(t, CharDyn):
                continue
            singles = {
                'fixed': ([('a', z), ('t', Arr(2, t)), ('z', t)], [(z.tok(1), list(v), v[0])]),
                'counted': ([('t', Arr(U8, t)), ('z', z)], [(list(v) * 2, z.tok(1)), ([], z.tok(2))]),
                'sized': ([('t', Arr(U16, t, U32)), ('u', Arr(2, t, U8))], [(list(v), list(v))]),
                'arrays': ([('t', Arr(U8, Arr(2, t))), ('z', z)], [([list(v)] * 2, z.tok(1))]),
                'cond': ([('t', Cond(yes, t, None)), ('n', Cond(no, t, 5)), ('z', z)],
                         [(v[0], 5, z.tok(1))]),
                'union': ([('t', Back(lambda o: 1, {1: t, 2: z})), ('z', z)], [(v[1], z.tok(1))]),
                'union default': ([('z', z), ('t', Back(lambda o: 1, {2: z}, t))], [(z.tok(1), v[1])]),
                'same twice': ([('a', t), ('b', U8), ('c', t), ('d', t)], [(v[0], 1, v[1], v[0])]),
            }
            for name, (fs, insts) in singles.items():
                spec = Spec('R', fs, bo)
                for x in insts:
                    if not check(ctx, spec, spec.obj(*x), name):
                        return
        # subclasses: add, and redeclare plain <-> custom
        base = [(f'f{i}' if t.nvals else '_', t) for i, t in enumerate(types)]
        s = Spec('Base', base, bo)
        sub = base + [(f'g{i}' if t.nvals else '_', t) for i, t in enumerate(more)]
        spec = Spec('Sub', sub, bo)
        spec._cls = build_class('Sub', [(m, t.hint()) for m, t in sub[len(base):]], bo, (s.cls(),))
        if not check(ctx, spec, spec.obj(*vals[0], *mvals[0]), 'subclass') or not check(
                ctx, s, s.obj(*vals[1]), 'base'):
            return
        for i, t in enumerate(types):
            if not t.nvals:
                continue
            for t2, v2 in ((U32, 7), (z, z.tok(7))):
                red = base[:i] + [(f'f{i}', t2)] + base[i + 1:]
                spec = Spec('Sub', red, bo)
                spec._cls = build_class('Sub', [(f'f{i}', t2.hint())], bo, (s.cls(),))
                k = sum(x.nvals for x in types[:i])
                v = vals[0][:k] + [v2] + vals[0][k + 1:]
                if not check(ctx, spec, spec.obj(*v), f'redeclared {i}'):
                    return
        # generic argument
        t = next(t for t in types if t.nvals)
        v = vals[0][0]
        g = build_class('G', [('a', L.uint8), ('t', TV), ('l', L.array[L.Header[2], TV])], bo,
                        (Generic[TV], Structured))
        spec = Spec('S', [('a', U8), ('t', t), ('l', Arr(2, t))], bo)
        spec._cls = build_class('S', [], bo, (g[t.hint()],))
        check(ctx, spec, spec.obj(3, v, [v, v]), 'generic')
        outer = Spec('O', [('z', z), ('g', GCustomNest(spec, g[t.hint()]))], bo)
        check(ctx, outer, outer.obj(z.tok(4), spec.obj(3, v, [v, v])), 'generic field')
    return run


class Via(Custom):
    """A custom type whose adapter object is given, not made."""

    def __init__(self, basic, i, how, adapter=None):
        super().__init__(basic, i, how)
        self.adapter = adapter

    def mkhint(self):
        return Annotated[self.cls, self.adapter]


def shared_adapter(basic, order, bo):
    """One SerializeAs object used for several types, and with_factory(s) of it;
    `order` is the order in which the hints are made and first used in a class."""
    def run(ctx):
        v = VALUES[basic.name] if basic.name in VALUES else (b'abc', b'xyz')
        s = L.SerializeAs(basic.hint())
        ts = {k: Via(basic, i, k) for i, k in enumerate('abfgA')}
        for k in order:
            t = ts[k]
            if k in 'fg':
                cls = t.cls
                t.adapter = s.with_factory(lambda x, c=cls: c(x))
            else:
                t.adapter = s
        ts['A'].adapter = ts['f'].adapter.with_factory(lambda x, c=ts['A'].cls: c(x))
        made = {}
        for k in order:
            t = ts[k]
            spec = Spec(f'R{k}', [('p', U8), ('t', t), ('l', Arr(U8, t)), ('u', Tup(U16, t))], bo)
            made[k] = spec
            spec.cls()
        for k in (*order, *reversed(order)):
            t, spec = ts[k], made[k]
            if not check(ctx, spec, spec.obj(1, t.tok(v[0]), [t.tok(v[1]), t.tok(v[0])],
                                             (2, t.tok(v[1]))), k):
                return
        spec = Spec('All', [(f'f{k}', ts[k]) for k in order], bo)
        if not check(ctx, spec, spec.obj(*[ts[k].tok(v[i % 2]) for i, k in enumerate(order)]), 'all'):
            return
        spec = Spec('Mix', [x for k in order for x in ((f'f{k}', ts[k]), (f'd{k}', CharDyn(U8)))], bo)
        check(ctx, spec, spec.obj(*[x for i, k in enumerate(order) for x in (ts[k].tok(v[i % 2]), b'd')]),
              'mixed')
    return run


def cases(tier):
    quick = tier == 'quick'
    for e in EVERY:
        for k, bo in enumerate(ALL_BO):
            yield f'every:{e.name}:{bo}', as_fields([e], bo)
            yield f'parts:{e.name}:{bo}', as_parts([e, plain(U8)], bo)
    for j, order in enumerate(itertools.permutations('abfgA')):
        for k, t in enumerate([*BASIC.values(), Char(3), Pascal(4)]):
            if not quick or (j + k) % 5 == 0:
                yield f'shared:{t.name}:{"".join(order)}', shared_adapter(t, order, ALL_BO[(j + k) % 6])
    for n in (2, 3, 4) if quick else (2, 3, 4, 5):
        for j, elems in enumerate(itertools.product(ALPHABET, repeat=n)):
            if not any('*' in e.name for e in elems):
                continue
            if n == 5 and j % 3:
                continue
            for k in range(6 if n == 2 or not quick and n < 5 else 1):
                bo = ALL_BO[(j + k) % 6]
                yield f'fields:{"+".join(e.name for e in elems)}:{bo}', as_fields(elems, bo)
    for n in (1, 2, 3) if not quick else (1, 2):
        for j, elems in enumerate(itertools.product(ALPHABET, repeat=n)):
            if not any('*' in e.name for e in elems):
                continue
            for k in range(6 if not quick and n < 3 else 1):
                bo = ALL_BO[(j + k) % 6]
                yield f'in:{"+".join(e.name for e in elems)}:{bo}', as_parts(elems, bo)
    if quick:
        for j, elems in enumerate(itertools.product(ALPHABET, repeat=3)):
            if j % 3 == 0 and any('*' in e.name for e in elems):
                yield f'in:{"+".join(e.name for e in elems)}', as_parts(elems, ALL_BO[j % 6])
    for j, (a, b) in enumerate(itertools.product(EVERY, repeat=2)):
        yield f'adjacent:{a.name}:{b.name}', as_fields([a, plain(U8), b], ALL_BO[j % 6])
