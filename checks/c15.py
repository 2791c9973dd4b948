"""C15 Operations do not influence one another."""
import functools
import io
import itertools
import operator
from typing import Generic, TypeVar

from mc import compose
from mc.child import in_child
from mc.kinds import BY_NAME, CELSIUS, KINDS, Celsius, make_spec
from mc.lib import BO, L, Structured
from mc.model import (
    BASIC, I32, U16, U32, U64, U8, Ahead, Arr, Back, Bad, Char, CharDyn, CharNET, CharTerm, Cond,
    Nest, SelfT, Spec, Tup, Uni, build_class, diff, to_lib)
from mc.ops import JUNK, attempt, check_record

ID = 'C15'
LEVEL = 'model_checking'
RULE = ('histories: every sequence of operations (pack/unpack through every method, successful '
        'and failing part-way, on classes that share type hints and on long-lived instances) '
        'up to the depth, for every pair of field kinds (depth 2), within each kind under two '
        'byte orders and over small groups (depth 3, 4); definitions: every order of defining '
        'groups of classes sharing hints, from empty caches, operations after each. '
        'state = (history prefix), transition = operation')
ASSUMPTIONS = ['histories longer than the depth are covered only by the concatenation of the '
               'explored ones']


class Breaks(io.RawIOBase):
    """A stream whose k-th read raises."""
    def __init__(self, data, k):
        self.s, self.k = io.BytesIO(data), k

    def read(self, n=-1):
        if self.k == 0:
            raise OSError('device')
        self.k -= 1
        return self.s.read(n)

    def tell(self):
        return self.s.tell()

    def seek(self, *a):
        return self.s.seek(*a)


class Member:
    """One class of a pool: its operations, their expected outcomes and a
    long-lived instance."""

    def __init__(self, spec, models, tail):
        self.spec, self.cls = spec, spec.cls()
        self.a, self.b = models[0], models[-1]
        self.da, self.db = spec.enc(self.a), spec.enc(self.b)
        self.obj_a, self.obj_b = to_lib(self.a), to_lib(self.b)
        bad = to_lib(self.b)
        setattr(bad, spec.attrs[-1][0] if tail else spec.attrs[0][0], 70000 if tail else object())
        self.bad = bad
        self.live, self.model = to_lib(self.a), self.a
        self.other, self.dother = to_lib(self.b), self.db
        self.final = spec.final
        self.tail = tail

        at = [i for i, b in enumerate(self.db) if b]
        self.garbles = [self.db[:i] + bytes([self.db[i] - 1]) + self.db[i + 1:]
                        for i in dict.fromkeys(at[:3] + at[-1:])]

    def reset(self):
        self.live, self.model = to_lib(self.a), self.a

    # --- operations: None or what went wrong
    def packed(self, got, want):
        if got != want:
            return f'gives {got!r}, expected {want!r}'
        if self.cls.serializer.size != len(want):
            return f'reports size {self.cls.serializer.size}, expected {len(want)}'

    def got(self, obj, m, size, end=None):
        d = diff(obj, m)
        if d:
            return f'gives {obj!r}, expected {m}: {d}'
        if self.cls.serializer.size != size:
            return f'reports size {self.cls.serializer.size}, expected {size}'
        if end is not None and end != size:
            return f'ends {end} bytes in, expected {size}'

    def pack(self):
        return self.packed(self.obj_b.pack(), self.db)

    def pack_into(self):
        buf = bytearray(len(self.da) + 5)
        self.obj_a.pack_into(buf, 2)
        return self.packed(bytes(buf[2:-3]), self.da)

    def pack_write(self):
        s = io.BytesIO()
        self.obj_b.pack_write(s)
        return self.packed(s.getvalue(), self.db)

    def pack_live(self):
        return self.packed(self.live.pack(), self.spec.enc(self.model))

    def create(self):
        return self.got(self.cls.create_unpack(self.da), self.a, len(self.da))

    def create_from(self):
        data = JUNK[:3] + self.db
        return self.got(self.cls.create_unpack_from(data, 3), self.b, len(self.db))

    def create_read(self):
        s = io.BytesIO(JUNK[:2] + self.db)
        s.seek(2)
        return self.got(self.cls.create_unpack_read(s), self.b, len(self.db), s.tell() - 2)

    def live_b(self):
        self.live.unpack_read(io.BytesIO(self.db))
        self.model = self.b
        return self.got(self.live, self.b, len(self.db))

    def live_a(self):
        self.live.unpack_from(b'..' + self.da, 2)
        self.model = self.a
        return self.got(self.live, self.a, len(self.da))

    def fails(self, fn, what):
        res = attempt(fn)
        if res[0] == 'ok':
            return f'{what}: accepted, gives {res[1]!r}'

    def bad_pack(self):
        return self.fails(self.bad.pack, 'unrepresentable value')

    def bad_write(self):
        return self.fails(lambda: self.bad.pack_write(io.BytesIO()), 'unrepresentable value')

    def bad_into(self):
        return self.fails(lambda: self.bad.pack_into(bytearray(len(self.db) + 9), 1),
                          'unrepresentable value')

    def small_into(self):
        return self.fails(lambda: self.obj_b.pack_into(bytearray(max(0, len(self.db) - 1))),
                          'too small a buffer') if self.db else None

    def cut(self):
        return self.fails(lambda: self.cls.create_unpack(self.db[:-1]), 'truncated') \
            if not self.final else None

    def cut_read(self):
        return self.fails(lambda: self.cls.create_unpack_read(io.BytesIO(self.db[:-1])),
                          'truncated') if not self.final else None

    def cut_from(self):
        return self.fails(lambda: self.cls.create_unpack_from(b'x' + self.db[:-1], 1),
                          'truncated') if not self.final else None

    def broken_read(self):
        return self.fails(lambda: self.cls.create_unpack_read(Breaks(self.db, 0)), 'failing stream')

    def broken_later(self):
        attempt(lambda: self.cls.create_unpack_read(Breaks(self.db, 1)))

    def garbled(self):
        """Other contents, some of which are refused deep inside a value
        (text cut within a character, a shorter count, another choice)."""
        for other in self.garbles:
            attempt(lambda: self.cls.create_unpack(other))
        if type(getattr(self.bad, self.spec.attrs[0][0], None)) is str:
            odd = to_lib(self.b)
            setattr(odd, self.spec.attrs[0][0], 'a\ud800')
            attempt(odd.pack)

    def live_cut(self):
        """Failing in place: the instance itself is then reset."""
        attempt(lambda: self.live.unpack(self.db[:-1]))
        self.reset()


GOOD = ['pack', 'pack_into', 'pack_write', 'pack_live', 'create', 'create_from', 'create_read',
        'live_a', 'live_b']
FAIL = ['bad_pack', 'bad_write', 'bad_into', 'small_into', 'cut', 'cut_read', 'cut_from',
        'broken_read', 'broken_later', 'live_cut', 'garbled']
FEW = ['pack', 'pack_into', 'create_from', 'create_read', 'pack_live', 'live_b', 'bad_write', 'cut_read']


def member(kind, bo, name='R'):
    final = kind.final
    kinds = [kind] if final else [kind, BY_NAME['uint16']]
    spec = make_spec(kinds, bo, name)
    models = [spec.obj(*v, *(() if final else (258 + i,))) for i, v in enumerate(kind.vals)]
    models = [spec.dec(spec.enc(m))[0] for m in models]     # as they come back
    tail = not final
    if final and not spec.attrs:
        return None
    return Member(spec, models, tail)


def sequences(ctx, members, names, depth):
    """Run every sequence of operations; check every outcome, and that no
    other instance or the data changed."""
    ops = [(i, m, n, getattr(m, n)) for i, m in enumerate(members) for n in names]
    for seq in itertools.product(ops, repeat=depth):
        for m in members:
            m.reset()
        for i, m, n, fn in seq:
            res = attempt(fn)
            ctx.op()
            bad = f'raises {res[1]!r}' if res[0] == 'exc' else res[1]
            if bad is None:
                for j, other in enumerate(members):
                    d = diff(other.live, other.model) or diff(other.other, other.b)
                    if d:
                        bad = f'changes another instance, of class {j}: {d}'
            if bad:
                hist = ', '.join(f'{n}({i})' for i, _, n, _ in seq)
                specs = '; '.join(f'{i}: {m.spec}' for i, m in enumerate(members))
                return ctx.fail(f'in the history {hist} over [{specs}], {n}({i}) {bad}', 'history')
        ctx.state()
        ctx.trace()
    ctx.bound('depth', depth)
    ctx.outcome('histories', len(ops) ** depth)


def pool(kinds_bos, names, depth):
    def run(ctx):
        ms = [member(k, bo, f'R{i}') for i, (k, bo) in enumerate(kinds_bos)]
        ms = [m for m in ms if m]
        sequences(ctx, ms, names, depth)
    return run


# ------------------------------------------------------- order of definitions
Tv, Uv = TypeVar('Tv'), TypeVar('Uv')


def defs_strings():
    yield lambda: Spec('A', [('s', CharDyn(U8)), ('n', U32)], '<'), (b'abc', 5)
    yield lambda: Spec('B', [('s', CharDyn(U8)), ('t', CharDyn(U16))], '>'), (b'abc', b'x')
    yield lambda: Spec('C', [('s', Uni(CharDyn(U16), 'utf8')), ('n', U16)], '>'), ('h\u00e9', 5)
    yield lambda: Spec('D', [('s', Uni(CharDyn(U16), 'utf-16-le'))], '<'), ('h\u00e9',)
    yield lambda: Spec('E', [('a', Arr(U8, CharDyn(U8))), ('t', CharTerm(b'\0'))], '!'), ([b'', b'q'], b'')


def defs_arrays():
    yield lambda: Spec('A', [('a', Arr(U8, U16)), ('n', U32)], '<'), ([1, 2], 5)
    yield lambda: Spec('B', [('a', Arr(U8, U16)), ('b', Arr(U16, U16, U32))], '>'), ([1, 258], [3])
    yield lambda: Spec('C', [('a', Arr(U8, Arr(U8, U16))), ('n', U64)], ''), ([[1], []], 5)
    yield lambda: Spec('D', [('t', Tup(U8, Arr(U8, U16), U32))], '>'), ((1, [2], 3),)
    yield lambda: Spec('E', [('a', Arr(2, U16)), ('b', Arr(2, U16, U8)), ('c', U32)], '!'), ([1, 2], [3, 4], 5)


def defs_structs():
    yield lambda: Spec('A', [('a', U8), ('b', U32)], ''), (1, 2)
    yield lambda: Spec('B', [('a', U8), ('b', U32)], '>'), (1, 2)
    yield lambda: Spec('C', [('a', U8), ('b', CELSIUS)], '<'), (1, Celsius(2))
    yield lambda: Spec('D', [('a', CELSIUS), ('b', U32), ('c', CELSIUS)], '!'), (Celsius(2), 3, Celsius(4))
    yield lambda: Spec('E', [('a', Char(4)), ('b', U32)], '='), (b'abcd', 2)


def defs_records():
    pt = Spec('Pt', [('x', U8), ('y', U16)], '>')
    var = Spec('Var', [('s', CharDyn(U16))], '<')
    yield lambda: Spec('A', [('p', Nest(pt)), ('n', U32)], '<'), (pt.obj(1, 2), 3)
    yield lambda: Spec('B', [('p', Arr(U8, Nest(pt))), ('q', Nest(pt))], '>'), ([pt.obj(1, 2)], pt.obj(3, 4))
    yield lambda: Spec('C', [('v', Nest(var)), ('w', Arr(2, Nest(var), U16))], '>'), (
        var.obj(b'v'), [var.obj(b''), var.obj(b'w')])
    yield lambda: Spec('D', [('s', CharDyn(U16)), ('t', Tup(U8, Nest(var)))], '>'), (b'abc', (1, var.obj(b'')))
    yield lambda: Spec('E', [('v', U8), ('kids', Arr(U8, SelfT()))], '!'), (5, [])


def defs_unions():
    k = operator.attrgetter('k')
    mk = lambda: {0: CharDyn(U16), 1: U32}
    yield lambda: Spec('A', [('k', U8), ('u', Back(k, mk()))], '<'), (0, b'abc')
    yield lambda: Spec('B', [('k', U8), ('u', Back(k, mk()))], '>'), (1, 258)
    yield lambda: Spec('C', [('k', U8), ('u', Back(k, mk(), CharTerm(b'\0')))], '>'), (7, b't')
    yield lambda: Spec('D', [('k', U8), ('u', Cond(k, CharDyn(U16), None)), ('z', U16)], '>'), (0, None, 5)
    yield lambda: Spec('E', [('u', Ahead(U8, lambda o: o.u[0], {1: Tup(U8, CharDyn(U16)), 2: Tup(U8, U32)}))], '!'), ((1, b'xy'),)


REFUSED = {
    'final not last': lambda: build_class('X', [('a', L.char[float('inf')]), ('b', L.uint8)]),
    'array of final': lambda: build_class('X', [('a', L.array[L.Header[2], L.char[float('inf')]])]),
    'bad header': lambda: build_class('X', [('a', L.array[L.Header['x'], L.uint8])]),
    'bad char': lambda: build_class('X', [('a', L.char['x'])]),
    'bad item': lambda: build_class('X', [('a', L.array[L.Header[2], int])]),
    'byte order': lambda: build_class('X', [('b', L.uint8)], '>', (
        build_class('Y', [('a', L.uint8)], '<'),)),
    'decider': lambda: build_class('X', [('a', L.char[L.uint8])] and [
        ('a', __import__('typing').Annotated[L.uint8, L.LookbackDecider(len, {})])]),
}
GROUPS = {'strings': defs_strings, 'arrays': defs_arrays, 'structs': defs_structs,
          'records': defs_records, 'unions': defs_unions}


def generic_group(perm, ctx):
    """Specialisations of one generic class, in the order `perm`."""
    g = build_class('G', [('n', L.uint8), ('a', Tv), ('b', L.array[L.Header[L.uint8], Uv])], '>',
                    (Generic[Tv, Uv], Structured))
    args = [(U16, CharDyn(U16)), (CharDyn(U8), U32), (Arr(U8, U16), Arr(U8, U16)),
            (CELSIUS, Uni(CharDyn(U8), 'utf8')), (U16, U16)]
    vals = [(1, 2, [b'x', b'']), (1, b'q', [4, 5]), (1, [1, 2], [[3], []]),
            (1, Celsius(4), ['x']), (1, 2, [3, 4])]
    made = []
    for i in perm:
        t, u = args[i]
        s = Spec('S', [('n', U8), ('a', t), ('b', Arr(U8, u))], '>')
        s._cls = build_class('S', [], '>', (g[t.hint(), u.hint()],))
        made.append((s, s.obj(*vals[i])))
        for s, m in made:
            if not check_record(ctx, s, m, sub=f'order {perm}'):
                return


def order_run(group, perm, refuse, ctx):
    if group == 'generic':
        return generic_group(perm, ctx)
    mks = list(GROUPS[group]())
    made = []
    for n, i in enumerate(perm):
        mk, vals = mks[i]
        if refuse is not None and n == refuse[0]:
            res = attempt(REFUSED[refuse[1]])
            ctx.op()
            if res[0] == 'ok':
                return ctx.fail(f'{refuse[1]}: accepted')
        s = mk()
        s.cls()
        made.append((s, s.obj(*vals)))
        for s, m in made:
            if not check_record(ctx, s, m, sub=f'order {perm} {refuse}'):
                return


def definition_orders(group, perms):
    def run(ctx):
        for perm, refuse in perms:
            s, o, t, bad = in_child(functools.partial(order_run, group, perm, refuse))
            ctx.state(s)
            ctx.op(o)
            ctx.trace(t)
            if bad:
                return ctx.fail(f'definition order {perm}, refused definition {refuse}: {bad[0]}')
            ctx.outcome('definition order')
    return run


def chunks(it, n):
    it = iter(it)
    while c := list(itertools.islice(it, n)):
        yield c


SMALL = ['chardyn8', 'unidyn16', 'arrdyn_str', 'arr_pt_s', 'tupdyn', 'named', 'node',
         'cond_arr', 'back_cpx', 'ahead_u8', 'int32', 'celsius', 'null_char', 'charnet', 'arr_arr']


def cases(tier):
    quick = tier == 'quick'
    ks = [k for k in KINDS if make_spec([k]).attrs]
    nested = compose.kinds(1) + ([] if quick else compose.kinds(2))
    for k in ks + nested:
        yield f'one3/{k.name}', pool([(k, '')], FEW if quick and k in nested else GOOD + FAIL, 3)
        yield f'two/{k.name}', pool([(k, '<'), (k, '>')], GOOD + FAIL, 2)
        if not quick:
            yield f'two3/{k.name}', pool([(k, ''), (k, '>')], FEW, 3)
            yield f'one4/{k.name}', pool([(k, '')], FEW, 4)
    for i, a in enumerate(ks):
        for j, b in enumerate(ks):
            if i < j:
                yield f'pair/{a.name}/{b.name}', pool([(a, '<>'[i % 2]), (b, '<>'[j % 2])],
                                                      FEW if quick else GOOD + FAIL, 2)
    small = [BY_NAME[n] for n in SMALL]
    for i, a in enumerate(small):
        for j, b in enumerate(small):
            if i < j:
                yield f'pair3/{a.name}/{b.name}', pool([(a, ''), (b, '>')], FEW, 3)
                if not quick:
                    for c in small[j + 1:]:
                        yield (f'three3/{a.name}/{b.name}/{c.name}',
                               pool([(a, ''), (b, '>'), (c, '<')], FEW, 3))
    for i, a in enumerate(nested[::1 if not quick else 3]):
        b = nested[(i * 7 + 5) % len(nested)]
        yield f'nested/{a.name}/{b.name}', pool([(a, '>'), (b, '')], FEW, 2)
    for g in [*GROUPS, 'generic']:
        perms = [(p, None) for p in itertools.permutations(range(5))]
        if g != 'generic':
            ps = list(itertools.permutations(range(5)))
            for r in REFUSED:
                for at in range(5):
                    perms += [(p, (at, r)) for p in (ps[::20] if quick else ps[::3])]
        for i, c in enumerate(chunks(perms, 20)):
            yield f'define/{g}/{i}', definition_orders(g, c)
