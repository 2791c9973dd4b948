"""C13 Specialised generic classes equal their hand-written form."""
import itertools
import typing
from typing import Generic, TypeVar

from mc.kinds import CELSIUS, NAMED, TAG, Celsius, Tag
from mc.lib import BO, ByteOrderMode, Structured
from mc.model import (
    BASIC, I16, I32, U16, U32, U64, U8, Arr, Back, Char, CharDyn, CharEnd, CharTerm, Cond, Nest,
    Obj, Pad, SelfT, Spec, T, Tup, Uni, build_class)
from mc.ops import attempt, check_packs, check_unpacks, to_lib
from mc.space import ALL_BO

ID = 'C13'
LEVEL = 'model_checking'
RULE = ('templates with type variables in every place x concrete arguments x specialisation '
        'routes (direct, intermediates in every order, field types, arrays, tuples, unions, '
        'generic containers) x byte order; every specialisation re-checked after all others. '
        'state = (template, route, arguments, instance), transition = definition/operation')
ASSUMPTIONS = ['conditions and unions over a bare type variable are refused (TypeError)',
               'a field value of a generic type may be an instance of a hidden subclass']

TV = {n: TypeVar(n) for n in ('T', 'U', 'V', 'S')}


class Var(T):
    """A type variable in a template."""
    def __init__(self, tv):
        self.tv = tv

    def mkhint(self):
        return self.tv

    def __repr__(self):
        return self.tv.__name__


class Template:
    def __init__(self, name, tvars, fields, bo='', bases=None):
        """fields(env) -> [(name, type)], env maps tvar names to types."""
        self.name, self.tvars, self.fields, self.bo = name, tvars, fields, bo
        self._cls = None

    def cls(self):
        if self._cls is None:
            env = {n: Var(TV[n]) for n in self.tvars}
            self._cls = build_class(
                self.name, [(n, t.hint()) for n, t in self.fields(env)], self.bo,
                (Generic[tuple(TV[n] for n in self.tvars)], Structured))
        return self._cls

    def spec(self, args, name=None):
        """The hand-written form."""
        return Spec(name or self.name, self.fields(dict(zip(self.tvars, args))), self.bo)

    def getitem(self, args):
        a = tuple(x.hint() if isinstance(x, T) else x for x in args)
        return self.cls()[a if len(a) > 1 else a[0]]


class GNest(T):
    """A field whose type is a specialised generic class.  The record is of
    a hidden class; instances a user passes are made from `made`."""

    def __init__(self, tpl, *args):
        self.tpl, self.args = tpl, args
        self.spec = None if any(has_var(a) for a in args) else conc(tpl, args)

    @property
    def final(self):
        return any(t.final for _, t in self.tpl.fields(dict(zip(self.tpl.tvars, self.args))))

    def mkhint(self):
        return self.tpl.getitem(self.args)

    def enc(self, v, bo, env):
        return v._spec.enc(v)

    def dec(self, buf, pos, bo, env):
        return self.spec.dec(buf, pos)

    def __repr__(self):
        return f'{self.tpl.name}[{",".join(map(repr, self.args))}]'


def has_var(t):
    if isinstance(t, Var):
        return True
    if isinstance(t, GNest):
        return any(map(has_var, t.args))
    if isinstance(t, Arr):
        return has_var(t.item) or any(isinstance(x, T) and has_var(x) for x in (t.count, t.size))
    if isinstance(t, Tup):
        return any(map(has_var, t.items))
    if isinstance(t, CharDyn):
        return has_var(t.length)
    if isinstance(t, Uni):
        return has_var(t.inner)
    return False


_CONC = {}


def conc(tpl, args):
    """A user's own subclass of the specialisation, to make values with."""
    key = (tpl, args)
    if key not in _CONC:
        s = tpl.spec(args, f'Made{tpl.name}')

        class Lazy(Spec):
            def cls(self):
                if self._cls is None:
                    self._cls = build_class(self.name, [], self.bo, (tpl.getitem(args),))
                return self._cls
        _CONC[key] = Lazy(s.name, s.fields, s.bo)
    return _CONC[key]


# ------------------------------------------------------------------ arguments
ARGS = {
    'u8': U8, 'u32': U32, 'i16': I16, 'f32': BASIC['float32'], 'ch3': Char(3),
    'dyn': CharDyn(U16), 'term': CharTerm(b'\0'), 'cel': CELSIUS, 'uni': Uni(CharDyn(U8), 'utf8'),
    'arr': Arr(U8, U16), 'tup': Tup(U8, U32), 'named': Nest(NAMED), 'tag': TAG,
    'fix': Arr(2, CharDyn(U8)),
}
SIZES = {'u8': U8, 'u16': U16, 'u32': U32, 'u64': U64}


def value(t, k=0):
    """Some value of a type."""
    if isinstance(t, GNest):
        return t.spec.obj(*[value(x, k) for _, x in t.spec.attrs])
    if isinstance(t, Nest):
        return t.spec.obj(*[value(x, k) for _, x in t.spec.attrs])
    if isinstance(t, Arr):
        if isinstance(t.item, SelfT):
            return []
        n = t.count if isinstance(t.count, int) else k % 3
        return [value(t.item, k + i) for i in range(n)]
    if isinstance(t, Tup):
        return tuple(value(x, k + i) for i, x in enumerate(t.items) if x.nvals)
    if isinstance(t, Uni):
        return ('', 'te', 'h\u00e9\u20ac')[k % 3]
    if isinstance(t, (CharDyn, CharTerm, CharEnd)):
        return (b'', b'ab', b'hello')[k % 3]
    if t is TAG:
        return Tag(b'xyz')
    if isinstance(t, Char):
        return bytes(range(65, 65 + t.n))
    if t is CELSIUS:
        return Celsius(-5 + k)
    if isinstance(t, Back):
        return value(t.members[1], k)
    if isinstance(t, Cond):
        return value(t.inner, k)
    if isinstance(t, SelfT):
        raise AssertionError
    if t is BASIC['float32']:
        return 0.5 + k
    return 5 + k


def instances(spec, ks=(0, 1, 2)):
    for k in ks:
        vals = []
        for _, t in spec.attrs:
            if isinstance(t, Arr) and isinstance(t.item, SelfT):
                vals.append(None)
            else:
                vals.append(value(t, k))
        if None in vals:
            i = vals.index(None)
            vals[i] = []
            leaf = spec.obj(*vals)
            vals[i] = [leaf, leaf][:k]
        yield spec.obj(*vals)


def verify(ctx, spec, what):
    """The specialised class behaves as the hand-written one."""
    for m in instances(spec, (2,) if 'again' in what else (0, 1, 2)):
        if not check_packs(ctx, spec, m, sub=what):
            return False
        data = spec.enc(m)
        if not check_unpacks(ctx, spec, data, lambda: to_lib(m), loose=True, sub=what):
            return False
        # the value read back packs to the same bytes
        o = spec.cls().create_unpack(data)
        ctx.op()
        if o.pack() != spec.enc(spec.dec(data)[0]):
            ctx.fail(f'{spec}: read back, packs to {o.pack()!r}, expected {data!r}', what)
            return False
    return True


# ------------------------------------------------------------------ templates
PLAIN = Template('Plain', 'T', lambda e: [('a', e['T']), ('z', U8)])
PAIR = Template('Pair', 'TU', lambda e: [('a', e['T']), ('m', U16), ('b', e['U'])])
ORDER = Template('Order', 'TU', lambda e: [('p', e['U']), ('q', e['T']), ('r', e['U'])])
ARRS = Template('Arrs', 'TU', lambda e: [
    ('a', Arr(2, e['T'])), ('b', Arr(U16, e['U'])), ('c', Arr(U8, e['T'], U32)), ('z', U8)])
TUPS = Template('Tups', 'TU', lambda e: [
    ('a', Tup(e['T'])), ('b', Tup(U8, e['U'], e['T'])), ('c', Tup(Tup(e['T']), Arr(1, e['U']))),
    ('z', U16)])
MIX = Template('Mix', 'TUV', lambda e: [
    ('a', Tup(e['T'])), ('b', e['U']), ('c', Arr(4, e['V']))])
SELF = Template('SelfG', 'T', lambda e: [('a', e['T']), ('kids', Arr(U8, SelfT()))])
WIDE = Template('Wide', 'TU', lambda e: [('a', U32), ('b', e['T']), ('c', Arr(2, e['U']))], '>')
PADDED = Template('Padded', 'T', lambda e: [('a', e['T']), ('_', Pad(3)), ('b', e['T']), ('_', Pad(1))])
# sizes as arguments
STRS = Template('Strs', 'S', lambda e: [
    ('a', CharDyn(e['S'])), ('b', Uni(CharDyn(e['S']), 'utf8')), ('c', Uni(CharDyn(e['S']), 'utf-16-le')),
    ('z', U8)])
HEADS = Template('Heads', 'SU', lambda e: [
    ('a', Arr(e['S'], U16)), ('b', Arr(3, U8, e['S'])), ('c', Arr(e['S'], CharDyn(U8), e['S'])),
    ('d', Arr(U8, e['U'], e['S'])), ('e', Arr(e['S'], e['U'], U32))])
# generics in generics
INNER1 = Template('G1', 'T', lambda e: [('f', GNest(PLAIN, e['T'])), ('g', e['T'])])
INNER2 = Template('G2', 'TU', lambda e: [
    ('f', GNest(PAIR, e['U'], e['T'])), ('g', GNest(PAIR, e['T'], e['T'])),
    ('h', GNest(PAIR, U8, e['U'])), ('i', GNest(PAIR, e['T'], U32))])
INNER3 = Template('G3', 'T', lambda e: [
    ('f', Arr(U8, GNest(PLAIN, e['T']))), ('g', Tup(GNest(PLAIN, e['T']), e['T'])),
    ('h', GNest(PLAIN, Arr(U8, e['T']))), ('i', GNest(PLAIN, Tup(e['T'], U8)))])
INNER4 = Template('G4', 'T', lambda e: [
    ('f', GNest(PLAIN, GNest(PLAIN, e['T']))), ('g', GNest(INNER1, e['T'])),
    ('h', GNest(WIDE, e['T'], e['T']))])
GENERAL = [PLAIN, PAIR, ORDER, ARRS, TUPS, MIX, SELF, WIDE, PADDED, INNER1, INNER2, INNER3, INNER4]
SIZED = [STRS, HEADS]


def unchanged(ctx, tpl, snap):
    c = tpl.cls()
    now = (c.attrs, c.serializer, dict(c.__annotations__), c.byte_order)
    if now != snap:
        ctx.fail(f'the generic class {tpl.name} changed: {snap} -> {now}', 'template')
        return False
    return True


def snapshot(tpl):
    c = tpl.cls()
    return (c.attrs, c.serializer, dict(c.__annotations__), c.byte_order)


def sub(name, hints, tpl_bo, base, *generic):
    bases = (base,) if not generic else (base, Generic[generic])
    return build_class(name, hints, tpl_bo, bases)


def routes(tpl, args):
    """(name, spec with its class) for every way to specialise by subclassing."""
    bo, n = tpl.bo, len(args)
    hand = tpl.spec(args, 'Conc')

    def spec(cls, fields=None, name='Conc'):
        s = Spec(name, fields or hand.fields, bo)
        s._cls = cls
        return s
    H = [a.hint() for a in args]

    def idx(cls, xs):
        xs = tuple(xs)
        return cls[xs if len(xs) > 1 else xs[0]]
    yield 'direct', spec(sub('Conc', [], bo, tpl.getitem(args)))
    yield 'extended', spec(
        sub('Conc', [('x1', U32.hint()), ('x2', CharDyn(U8).hint())], bo, tpl.getitem(args)),
        hand.fields + [('x1', U32), ('x2', CharDyn(U8))])
    first = hand.fields[0][0]
    yield 'redeclared', spec(
        sub('Conc', [(first, CharDyn(U8).hint()), ('x1', U16.hint())], bo, tpl.getitem(args)),
        [(first, CharDyn(U8))] + hand.fields[1:] + [('x1', U16)])
    yield 'removed', spec(
        sub('Conc', [(first, None)], bo, tpl.getitem(args)), hand.fields[1:])
    # through intermediates with other variables, in every order
    names = ['S', 'V', 'U'][:n]
    tvs = [TV[x] for x in names]
    for perm in itertools.permutations(range(n)):
        mid = build_class('Mid', [], bo, (Generic[tuple(tvs[i] for i in perm)], idx(tpl.cls(), tvs)))
        yield f'perm{perm}', spec(sub('Conc', [], bo, idx(mid, [H[i] for i in perm])))
        mid = build_class('Mid', [], bo, (idx(tpl.cls(), tvs), Generic[tuple(tvs[i] for i in perm)]))
        mid2 = build_class('Mid2', [], bo, (idx(mid, [TV['T'], *tvs[:n - 1]]),
                                            Generic[tuple([TV['T'], *tvs[:n - 1]])]))
        yield f'perm2{perm}', spec(sub('Conc', [], bo, idx(mid2, [H[i] for i in perm])))
    # intermediate reuses the template's own variables the other way round
    own = [TV[x] for x in tpl.tvars]
    rev = own[::-1]
    mid = build_class('Mid', [], bo, (Generic[tuple(own)], idx(tpl.cls(), rev)))
    yield 'reversed', spec(sub('Conc', [], bo, idx(mid, H[::-1])))
    # bind one variable at a time, in every order
    if n > 1:
        for perm in itertools.permutations(range(n)):
            cls, left = tpl.cls(), list(range(n))
            for step, i in enumerate(perm[:-1]):
                left2 = [j for j in left if j != i]
                cls = build_class(f'Mid{step}', [], bo, (
                    Generic[tuple(tvs[j] for j in left2)],
                    idx(cls, [H[j] if j == i else tvs[j] for j in left])))
                left = left2
            yield f'bind{perm}', spec(sub('Conc', [], bo, idx(cls, [H[perm[-1]]])))
    # generic only through its base: no Generic of its own
    mid = build_class('Mid', [], bo, (idx(tpl.cls(), tvs),))
    yield 'implicit', spec(sub('Conc', [], bo, idx(mid, H)))
    mid2 = build_class('Mid2', [('n1', TV['T'])], bo, (
        idx(mid, [TV['T'], *tvs[:n - 1]]), Generic[tuple([*tvs[:n - 1], TV['T']])]))
    yield 'implicit2', spec(sub('Conc', [], bo, idx(mid2, [*H[1:], H[0]])),
                            hand.fields + [('n1', args[0])])
    if n > 1:
        for i in range(n):
            mid = build_class('Mid', [], bo, (
                idx(tpl.cls(), [H[j] if j == i else tvs[j] for j in range(n)]),))
            yield f'implicit-bind{i}', spec(sub('Conc', [], bo, idx(
                mid, [H[j] for j in range(n) if j != i])))
    # intermediate adds fields with variables of its own, and redeclares one
    mid = build_class('Mid', [('n1', TV['T']), (first, U16.hint()), ('n2', U8.hint())], bo,
                      (Generic[tuple([*tvs, TV['T']])], idx(tpl.cls(), tvs)))
    for extra in (U32, CharDyn(U8)):
        yield f'grown-{extra}', spec(
            sub('Conc', [], bo, idx(mid, [*H, extra.hint()])),
            [(first, U16)] + hand.fields[1:] + [('n1', extra), ('n2', U8)])
    # a subclass of the concrete class
    c = sub('Conc', [], bo, tpl.getitem(args))
    yield 'grandchild', spec(sub('Kid', [('k1', U32.hint()), (first, I16.hint())], bo, c),
                             [(first, I16)] + hand.fields[1:] + [('k1', U32)], 'Kid')
    if n > 1:
        mid = build_class('Same', [], bo, (Generic[TV['V']], idx(tpl.cls(), [TV['V']] * n)))
        same = tpl.spec([args[0]] * n, 'Conc')
        yield 'same', spec(sub('Conc', [], bo, mid[H[0]]), same.fields)


def by_subclass(tpl, args):
    def run(ctx):
        snap = snapshot(tpl)
        done = []
        for name, s in routes(tpl, args):
            ctx.op()
            if not verify(ctx, s, name):
                return
            done.append((name, s))
            ctx.outcome('route')
        for name, s in done:
            if not verify(ctx, s, f'{name} again'):
                return
        unchanged(ctx, tpl, snap)
    return run


def by_field(tpl, args, other, bo):
    """Used as a field type of a class, in every position."""
    def run(ctx):
        snap = snapshot(tpl)
        g, h = GNest(tpl, *args), GNest(tpl, *other)
        outers = {
            'field': [('f', g), ('z', U16)],
            'late': [('s', CharDyn(U8)), ('f', g), ('z', U16)],
            'two': [('f', g), ('g', h), ('h', g)],
            'array': [('f', Arr(U8, g)), ('z', U16)],
            'sized': [('f', Arr(2, g, U32)), ('g', Arr(U8, h, U16))],
            'tuple': [('f', Tup(U8, g, h, U16))],
            'cond': [('f', Cond(lambda o: True, g, None)), ('z', U8)],
            'back': [('k', U8), ('f', Back(lambda o: 1, {1: g, 2: U8})), ('z', U8)],
            'nest': [('f', Arr(1, Tup(g, Arr(1, h)))), ('z', U8)],
        }
        specs = []
        for name, fields in outers.items():
            s = Spec('Outer', fields, bo)
            specs.append((name, s))
            if not verify(ctx, s, name):
                return
            ctx.outcome('field route')
        for name, s in specs:
            if not verify(ctx, s, f'{name} again'):
                return
        if not unchanged(ctx, tpl, snap):
            return
        # generic containers around it, then specialised either way
        box = Template('Box', 'T', lambda e: [('i', GNest(tpl, *[e['T']] * len(args))), ('z', U8)], bo)
        for name, s in routes(box, args[:1]):
            if not verify(ctx, s, f'box {name}'):
                return
        s = Spec('Outer', [('x', GNest(box, args[0])), ('y', Arr(U8, GNest(box, other[0])))], bo)
        verify(ctx, s, 'box field')
    return run


def everything(bo):
    """All specialisations of all templates alive at once."""
    def run(ctx):
        specs = []
        for tpl in GENERAL:
            for i, a in enumerate(ARGS.values()):
                args = [a] + [list(ARGS.values())[(i + k) % len(ARGS)] for k in (3, 7)]
                args = tuple(args[:len(tpl.tvars)])
                for name, s in itertools.islice(routes(tpl, args), 1):
                    specs.append(s)
                specs.append(Spec('Outer', [('f', GNest(tpl, *args)), ('z', U8)], bo))
        for s in specs:
            s.cls()
        for s in reversed(specs):
            if not verify(ctx, s, 'all'):
                return
        for s in specs:
            if not verify(ctx, s, 'all, again'):
                return
    return run


def bare():
    """The unspecialised class serializes only its concrete fields."""
    def run(ctx):
        for tpl, attrs in ((PLAIN, ['z']), (PAIR, ['m']), (ARRS, ['z']), (TUPS, ['z']),
                           (STRS, ['z']), (WIDE, ['a']), (MIX, [])):
            c = tpl.cls()
            ctx.op()
            ctx.state()
            if list(c.attrs) != attrs:
                ctx.fail(f'{tpl.name}.attrs is {c.attrs}, expected {attrs}', tpl.name)
            d = c[tuple(x.hint() for x in (U8, U16, U32)[:len(tpl.tvars)])]
            if typing.get_origin(d) is not c:
                ctx.fail(f'{d} is not a plain alias', tpl.name)
            # subclassed without arguments
            e = build_class('Bare', [('w', U8.hint())], tpl.bo, (c,))
            if list(e.attrs) != attrs + ['w']:
                ctx.fail(f'subclass of bare {tpl.name} has attrs {e.attrs}', tpl.name)
    return run


def orders(tpl, args):
    """Byte orders: a specialisation keeps or explicitly overrides it."""
    def run(ctx):
        for a, b in itertools.product(ALL_BO, repeat=2):
            t = Template(tpl.name, tpl.tvars, tpl.fields, a)
            hand = Spec('Conc', t.spec(args).fields, b)
            res = attempt(lambda: build_class('Conc', [], b, (t.getitem(args),)))
            ctx.op()
            if (res[0] == 'ok') != (a == b):
                return ctx.fail(f'{tpl.name} {a!r} specialised with {b!r}: {res[1]!r}')
            hand._cls = build_class('Conc', [], b, (t.getitem(args),),
                                    byte_order_mode=ByteOrderMode.OVERRIDE)
            if not verify(ctx, hand, f'{a}{b}'):
                return
            outer = Spec('Outer', [('f', GNest(t, *args)), ('g', U32)], b)
            if not verify(ctx, outer, f'field {a}{b}'):
                return
    return run


def cases(tier):
    quick = tier == 'quick'
    names = list(ARGS)
    for tpl in GENERAL:
        n = len(tpl.tvars)
        for combo in itertools.product(names, repeat=min(n, 2)):
            if quick and n > 1 and (names.index(combo[1]) - names.index(combo[0])) % len(names) not in (0, 1, 3, 6, 10):
                continue
            combo = combo + combo[:1] if n == 3 else combo
            args = tuple(ARGS[c] for c in combo)
            yield f'sub:{tpl.name}:{":".join(combo)}', by_subclass(tpl, args)
            i = names.index(combo[0])
            others = [names[(i + k) % len(names)] for k in (range(1, 3) if quick else range(1, len(names)))]
            for k, o in enumerate(others):
                other = tuple(ARGS[o] for _ in args)
                yield (f'field:{tpl.name}:{":".join(combo)}:{o}',
                       by_field(tpl, args, other, ALL_BO[(i + k) % 6]))
            if i % 3 == 0 or not quick:
                yield f'order:{tpl.name}:{":".join(combo)}', orders(tpl, args)
    for tpl in SIZED:
        n = len(tpl.tvars)
        for c in SIZES:
            for d in (names if n == 2 else [None]):
                args = (SIZES[c],) + ((ARGS[d],) if d else ())
                yield f'sub:{tpl.name}:{c}:{d}', by_subclass_sized(tpl, args)
                yield f'order:{tpl.name}:{c}:{d}', orders(tpl, args)
    for bo in ALL_BO:
        yield f'everything:{bo}', everything(bo)
    yield 'bare', bare()


def by_subclass_sized(tpl, args):
    def run(ctx):
        snap = snapshot(tpl)
        for name, s in routes(tpl, args):
            if name in ('same',):
                continue
            if not verify(ctx, s, name):
                return
        s = Spec('Outer', [('f', GNest(tpl, *args)), ('g', Arr(U8, GNest(tpl, *args)))], '>')
        if verify(ctx, s, 'field'):
            unchanged(ctx, tpl, snap)
    return run
