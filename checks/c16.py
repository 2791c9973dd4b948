"""C16 A read-to-end field must be last."""
import itertools
import typing
from typing import Generic, TypeVar

from mc.kinds import EMPTY
from mc.lib import L, Structured
from mc.model import (
    I64, U16, U32, U8, Ahead, Arr, Back, Char, CharDyn, CharEnd, CharTerm, Cond, Nest, Obj, Pad,
    Spec, T, Tup, Uni, build_class, to_lib)
from mc.ops import attempt, check_packs, check_unpacks
from mc.space import ALL_BO

ID = 'C16'
LEVEL = 'model_checking'
RULE = ('every composition of tuples, conditions, union branches and defaults, nested records '
        'and arrays over read-to-end and other leaves, in every position of classes of up to 3 '
        'fields, split over every chain of subclasses, with redeclared and removed fields and '
        'as arguments of generic classes; accepted classes are exercised. '
        'state = class definition / instance, transition = definition / operation')
ASSUMPTIONS = ['padding and empty records after a read-to-end field count as serialized fields']


def legal(t):
    """Is the type itself allowed?  (the documented rule, read off the tree)"""
    if isinstance(t, Tup):
        return all(map(legal, t.items)) and not any(x.final for x in t.items[:-1])
    if isinstance(t, Arr):
        return legal(t.item) and not t.item.final
    if isinstance(t, Cond):
        return legal(t.inner)
    if isinstance(t, Back):
        return all(map(legal, t._all()))
    if isinstance(t, Nest):
        return legal_fields(t.spec.types)
    return True


def legal_fields(types):
    return all(map(legal, types)) and not any(t.final for t in types[:-1])


def YES(o):
    return True


def ONE(o):
    return 1


def rec(*types):
    return Spec('In', [(f'x{i}', t) for i, t in enumerate(types)], '>')


class Ty:
    """A type with one value; unions map 1 to the interesting branch."""

    def __init__(self, name, t, v):
        self.name, self.t, self.v = name, t, v


FINALS = [Ty('inf', CharEnd(), b'rest'), Ty('uinf', Uni(CharEnd(), 'utf8'), 'r\u00e9st'),
          Ty('uinf16', Uni(CharEnd(), 'utf-16-le'), 're')]
OTHERS = [Ty('u8', U8, 7), Ty('u32', U32, 70000), Ty('str', CharDyn(U16), b'dyn'),
          Ty('term', CharTerm(b'\0'), b'term'), Ty('pad', Pad(2), None),
          Ty('arr', Arr(U8, U16), [1, 2]), Ty('empty', Nest(EMPTY), EMPTY.obj())]


def nestv(s, *vals):
    return s.obj(*[v for v, t in zip(vals, s.types) if t.nvals])


def wraps(x):
    """All ways to wrap a type once."""
    t, v, n = x.t, x.v, x.name
    if not t.nvals:
        return
    yield Ty(f'tup({n})', Tup(t), (v,))
    yield Ty(f'tup(u8,{n})', Tup(U8, t), (3, v))
    yield Ty(f'tup({n},u8)', Tup(t, U8), (v, 3))
    yield Ty(f'tup({n},pad)', Tup(t, Pad(1)), (v,))
    yield Ty(f'tup(u8,{n},str)', Tup(U8, t, CharDyn(U8)), (3, v, b's'))
    yield Ty(f'cond({n})', Cond(YES, t, None), v)
    yield Ty(f'back(1:{n})', Back(ONE, {1: t, 2: I64}), v)
    yield Ty(f'back(2:{n})', Back(ONE, {1: I64, 2: t}), -5)
    yield Ty(f'back(default {n})', Back(ONE, {2: I64}, t), v)
    yield Ty(f'back(1:u64,default {n})', Back(ONE, {1: I64}, t), -5)
    yield Ty(f'ahead(1:{n})', Ahead(U8, lambda o: 1, {1: Tup(U8, t), 2: I64}), (1, v))
    yield Ty(f'ahead(default {n})', Ahead(U8, lambda o: 9, {2: I64}, Tup(U8, t)), (9, v))
    for types, vals in (((t,), (v,)), ((U8, t), (4, v)), ((t, U8), (v, 4)), ((t, Pad(1)), (v, None))):
        s = rec(*types)
        yield Ty(f'rec({"".join(str(y)[0] for y in types)}:{n})', Nest(s),
                 nestv(s, *vals))
    for h in ((2, None), (U8, None), (U8, U32), (2, U16), (0, None)):
        k = h[0] if isinstance(h[0], int) else 2
        yield Ty(f'arr[{h}]({n})', Arr(h[0], t, h[1]), [v] * k)


def compositions(depth, leaves):
    cur = list(leaves)
    yield from cur
    for _ in range(depth):
        cur = [y for x in cur for y in wraps(x)]
        yield from cur


def define(ctx, name, hints, bo='', bases=(Structured,), ok=True, what='', **kw):
    """Define a class; `hints` makes the hints (may raise too)."""
    res = attempt(lambda: build_class(name, hints(), bo, bases, **kw))
    ctx.op()
    ctx.state()
    if (res[0] == 'ok') != ok:
        ctx.fail(f'{what}: ' + (f'refused with {res[1]!r}' if ok else 'accepted'), what)
        return None
    if not ok and type(res[1]) is not TypeError:
        ctx.fail(f'{what}: raises {res[1]!r}, expected TypeError', what)
        return None
    ctx.outcome('accepted' if ok else 'refused')
    return res[1] if ok else False


def works(ctx, cls, fields, tys, bo, what):
    s = Spec(cls.__name__, fields, bo)
    s._cls = cls
    m = s.obj(*[x.v for x in tys if x.t.nvals])
    return check_packs(ctx, s, m, sub=what) and check_unpacks(
        ctx, s, s.enc(m), lambda: to_lib(m), sub=what)


def layout(tys, bo):
    """Fields of a class, as one class and split over every chain."""
    def run(ctx):
        fields = [(f'f{i}' if x.t.nvals else '_', x.t) for i, x in enumerate(tys)]
        name = ' '.join(x.name for x in tys)
        ok = legal_fields([x.t for x in tys])
        cls = define(ctx, 'R', lambda: [(n, t.hint()) for n, t in fields], bo, ok=ok, what=name)
        if cls is None:
            return
        if cls and not works(ctx, cls, fields, tys, bo, name):
            return
        # with attributes that are not serialized in between
        plain = [('c0', typing.ClassVar[int])]
        for i, (n, t) in enumerate(fields):
            plain += [(n, t), (f'p{i}', int)]
        cls = define(ctx, 'R', lambda: [(n, t.hint() if isinstance(t, T) else t) for n, t in plain],
                     bo, ok=ok, what=name + ' with plain attributes')
        if cls is None or cls and not works(ctx, cls, fields, tys, bo, name):
            return
        n = len(fields)
        for cuts in itertools.product((False, True), repeat=n - 1):
            if not any(cuts) or any(not legal(x.t) for x in tys):
                continue
            levels, cur = [], [0]
            for i, c in enumerate(cuts, 1):
                if c:
                    levels.append(cur)
                    cur = []
                cur.append(i)
            levels.append(cur)
            base, have = Structured, []
            for depth, lv in enumerate(levels):
                have += lv
                good = legal_fields([tys[i].t for i in have])
                base = define(ctx, f'R{depth}', lambda: [(fields[i][0], fields[i][1].hint()) for i in lv],
                              bo, (base,), good, f'{name} split as {levels}, level {depth}')
                if base is None:
                    return
                if not base:
                    break
                if not works(ctx, base, [fields[i] for i in have], [tys[i] for i in have], bo,
                             f'{name} split {levels} at {depth}'):
                    return
                # a subclass adding nothing, and a class nesting it
                kid = define(ctx, 'Kid', lambda: [], bo, (base,), True, f'{name} subclass')
                if not kid or not works(ctx, kid, [fields[i] for i in have],
                                        [tys[i] for i in have], bo, name + ' kid'):
                    return
    return run


def redeclare(tys, other, bo):
    """A subclass redeclares or removes one of the fields, or adds one."""
    def run(ctx):
        fields = [(f'f{i}', x.t) for i, x in enumerate(tys)]
        name = ' '.join(x.name for x in tys)
        if not legal_fields([x.t for x in tys]):
            return
        base = define(ctx, 'Base', lambda: [(n, t.hint()) for n, t in fields], bo, what=name)
        if not base:
            return
        n = len(fields)
        for i in range(n):
            for add in (False, True):
                f2 = fields[:i] + [(f'f{i}', other.t)] + fields[i + 1:]
                t2 = tys[:i] + [other] + tys[i + 1:]
                body = [(f'f{i}', other.t)]
                if add:
                    f2, t2, body = f2 + [('z', U8)], t2 + [OTHERS[0]], body + [('z', U8)]
                what = f'{name}, f{i} redeclared as {other.name}{" and one added" if add else ""}'
                c = define(ctx, 'Sub', lambda: [(m, t.hint()) for m, t in body], bo, (base,),
                           legal_fields([x.t for x in t2]), what)
                if c is None or c and not works(ctx, c, f2, t2, bo, what):
                    return
                # removed instead
                f3, t3 = fields[:i] + fields[i + 1:], tys[:i] + tys[i + 1:]
                body = [('z', other.t.hint())] if add else []
                if add:
                    f3, t3 = f3 + [('z', other.t)], t3 + [other]
                what = f'{name}, f{i} removed{" and " + other.name + " added" if add else ""}'
                c = define(ctx, 'Sub', lambda: [(f'f{i}', None), *body], bo, (base,),
                           legal_fields([x.t for x in t3]), what)
                if c is None or c and not works(ctx, c, f3, t3, bo, what):
                    return
    return run


TV, UV = TypeVar('TV'), TypeVar('UV')


def generic(x, bo):
    """Bound to a type variable in every place of a generic class."""
    def run(ctx):
        if not legal(x.t):
            return
        v, t = x.v, x.t
        forms = {
            'first': ([('a', TV), ('b', L.uint8)], [('a', t), ('b', U8)], [v, 5]),
            'last': ([('b', L.uint8), ('a', TV)], [('b', U8), ('a', t)], [5, v]),
            'only': ([('a', TV)], [('a', t)], [v]),
            'tuple last': ([('a', tuple[L.uint8, TV])], [('a', Tup(U8, t))], [(5, v)]),
            'tuple first': ([('a', tuple[TV, L.uint8])], [('a', Tup(t, U8))], [(v, 5)]),
            'tuple then': ([('a', tuple[L.uint8, TV]), ('b', L.uint8)],
                           [('a', Tup(U8, t)), ('b', U8)], [(5, v), 6]),
            'array': ([('a', L.array[L.Header[L.uint8], TV])], [('a', Arr(U8, t))], [[v]]),
        }
        for name, (hints, fields, vals) in forms.items():
            g = define(ctx, 'G', lambda: hints, bo, (Generic[TV], Structured), True, name)
            if not g:
                return
            s = Spec('S', fields, bo)
            ok = legal_fields(s.types)
            what = f'generic with T {name}, T = {x.name}'
            res = attempt(lambda: build_class('S', [], bo, (g[t.hint()],)))
            ctx.op()
            ctx.state()
            if (res[0] == 'ok') != ok or not ok and type(res[1]) is not TypeError:
                return ctx.fail(f'{what}: {res[1]!r}, expected {"a class" if ok else "TypeError"}', what)
            if ok:
                s._cls = res[1]
                m = s.obj(*vals)
                if not check_packs(ctx, s, m, sub=what) or not check_unpacks(
                        ctx, s, s.enc(m), lambda: to_lib(m), sub=what):
                    return
            # as a field type
            for after in (False, True):
                res = attempt(lambda: build_class(
                    'F', [('f', g[t.hint()])] + ([('z', L.uint8)] if after else []), bo))
                ok2 = ok and not (after and s.final)
                ctx.op()
                if (res[0] == 'ok') != ok2 or not ok2 and type(res[1]) is not TypeError:
                    return ctx.fail(f'{what}, as a field type{" followed by uint8" if after else ""}: '
                                    f'{res[1]!r}, expected {"a class" if ok2 else "TypeError"}', what)
            ctx.outcome('accepted' if ok else 'refused')
    return run


def cases(tier):
    quick = tier == 'quick'
    leaves = FINALS[:2] + OTHERS[:4:3]
    d1 = list(compositions(1, FINALS + OTHERS))
    d2 = list(compositions(2, leaves))
    deep = [d2] if quick else [list(compositions(3, FINALS[:1] + OTHERS[:1]))]
    bos = ('', '>')

    def key(tys, bo):
        return '|'.join(x.name for x in tys) + '/' + (bo or 'default')
    seen = set()

    def once(tag, fn, tys, bo, *a):
        k = f'{tag}:{key(tys, bo)}' + ''.join(f':{x.name}' for x in a)
        if k in seen:
            return
        seen.add(k)
        yield k, fn(list(tys), *a, bo)
    for x in d1:
        for bo in ALL_BO:
            yield from once('one', layout, (x,), bo)
    for i, (a, b) in enumerate(itertools.product(d1, repeat=2)):
        if quick and i % 3:
            if not (a in OTHERS or b in OTHERS or a in FINALS or b in FINALS):
                continue
        yield from once('two', layout, (a, b), bos[i % 2])
    small = FINALS[:2] + OTHERS[:5] + [x for x in d1 if x.name in (
        'tup(u8,inf)', 'cond(inf)', 'back(2:inf)', 'back(1:u64,default uinf)', 'ahead(1:inf)',
        'rec(uc:inf)', 'tup(u8,str)', 'cond(u8)')]
    for i, tys in enumerate(itertools.product(small, repeat=3)):
        yield from once('three', layout, tys, bos[i % 2])
    for i, x in enumerate(itertools.chain(*deep)):
        for tys in ((x,), (OTHERS[i % 3], x), (x, OTHERS[i % 5]), (OTHERS[2], x, OTHERS[0])):
            yield from once('deep', layout, tys, bos[i % 2])
    named = [x for x in d1 if x.t.nvals]
    for i, (a, b) in enumerate(itertools.product([x for x in small if x.t.nvals], repeat=2)):
        for c in [x for x in small if x.t.nvals]:
            yield from once('redeclare', redeclare, (a, b), bos[i % 2], c)
    for i, x in enumerate(named if quick else [y for y in d2 if y.t.nvals]):
        yield f'generic:{x.name}:{i}', generic(x, bos[i % 2])
