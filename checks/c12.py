"""C12 Subclassing keeps field order and applies overrides."""
import inspect
import itertools
import typing

from mc.kinds import CELSIUS, NAMED, POINT, Celsius, P
from mc.lib import BO, ByteOrderMode, L, Structured
from mc.model import (
    BASIC, I16, U16, U32, U8, Arr, Back, Char, CharDyn, CharTerm, Cond, Nest, Pad, Spec, Tup,
    Uni, build_class)
from mc.ops import attempt, check_record, to_lib
from mc.space import ALL_BO

ID = 'C12'
LEVEL = 'model_checking'
RULE = ('all chains of subclasses: base layouts x every action sequence (add, redeclare, '
        'remove in every way, pad, nothing, and pairs of these) up to the chain depth, '
        'siblings included; every class of the chain is checked after every definition; all '
        '36 byte-order pairs x both modes at two levels; every way to inherit from several '
        'classes. state = (chain, class, instance), transition = definition or operation')
ASSUMPTIONS = ['re-adding a removed name puts it back at its original place (documented '
               'order: redeclaring does not change the order)']

# types a field may have, with a value
TYPES = {
    'u8': (U8, 200), 'u16': (U16, 60000), 'u32': (U32, 70000), 'i16': (I16, -2), 'f64': (BASIC['float64'], 0.5),
    'ch3': (Char(3), b'xyz'), 'dyn': (CharDyn(U16), b'hey'), 'term': (CharTerm(b'\0'), b't'),
    'arr': (Arr(U8, U16), [1, 2]), 'fix': (Arr(2, U16), [3, 4]),
    'tup': (Tup(U8, CharDyn(U8)), (1, b'q')), 'rec': (Nest(NAMED), NAMED.obj(1, b'n')),
    'pt': (Nest(POINT), P(1, -2)), 'uni': (Uni(CharDyn(U8), 'utf8'), '\u20ac'),
    'cond': (Cond(lambda o: True, U16, 0), 5), 'cel': (CELSIUS, Celsius(7)),
    'back': (Back(lambda o: 1, {1: CharDyn(U8), 2: U8}), b'u'),
    'pad2': (Pad(2), None),
}
NONE = {'None': None, 'int': int, 'str': str, 'classvar': typing.ClassVar[int],
        'classvar_u8': typing.ClassVar[L.uint8], 'object': object,
        'variadic': tuple[L.uint8, ...], 'list': list[int], 'any': typing.Any,
        'optional': typing.Optional[int]}

BASES = [
    ('basic', [('a', 'u8'), ('b', 'u32'), ('c', 'i16')]),
    ('mixed', [('a', 'u8'), ('b', 'dyn'), ('c', 'u32')]),
    ('var', [('a', 'term'), ('b', 'arr'), ('c', 'rec')]),
    ('padded', [('a', 'u8'), ('_', 'pad2'), ('b', 'u8'), ('_', 'pad2'), ('c', 'tup')]),
    ('one', [('a', 'u32')]),
    ('none', []),
    ('named pad', [('a', 'u8'), ('p', 'pad2'), ('b', 'fix')]),
    ('rich', [('a', 'cond'), ('b', 'back'), ('c', 'cel'), ('d', 'uni')]),
]


def actions(level, tier):
    """Class bodies: lists of (name, type name or ('-', way to remove))."""
    new = f'n{level}'
    one = [[], [(new, 'u8')], [(new, 'u32')], [(new, 'dyn')], [(new, 'rec')],
           [('a', 'u32')], [('a', 'dyn')], [('a', 'arr')], [('a', 'cel')],
           [('b', 'u8')], [('b', 'term')], [('b', 'tup')], [('c', 'fix')], [('c', 'f64')],
           [('_', 'pad2')], [('a', 'pad2')], [('p', 'u16x')]]
    one += [[('a', ('-', 'None'))], [('b', ('-', 'None'))], [('c', ('-', 'None'))]]
    one += [[('b', ('-', w))] for w in NONE if w != 'None']
    two = [[(new, 'u8'), ('a', 'u32')], [('b', ('-', 'None')), (new, 'dyn')],
           [('c', 'u8'), ('a', 'u8')], [('a', ('-', 'int')), ('b', 'ch3'), (new, 'i16')],
           [(new, 'pt'), (new + 'x', 'u8'), ('_', 'pad2'), (new + 'y', 'cond')],
           [('a', ('-', 'None')), ('b', ('-', 'None')), ('c', ('-', 'None'))]]
    out = one + two
    out = [[(n, 'u32' if t == 'u16x' else t) for n, t in body] for body in out]
    if tier == 'quick' and level >= 3:
        out = [[], [(new, 'dyn')], [('a', 'u32')], [('a', 'dyn')], [('b', ('-', 'None'))],
               [('b', 'u8')], [('_', 'pad2')]]
    return out


class Layout:
    """The model of a class body chain: names in first-declaration order."""

    def __init__(self, entries=()):
        self.entries = dict(entries)

    def extend(self, body, uid):
        new = Layout(self.entries)
        for i, (n, t) in enumerate(body):
            key = f'_{uid}.{i}' if n == '_' else n
            new.entries[key] = t
        return new

    def spec(self, name, bo):
        fields = [('_' if k.startswith('_') or TYPES[t][0].nvals == 0 else k, TYPES[t][0])
                  for k, t in self.entries.items() if isinstance(t, str)]
        return Spec(name, fields, bo)

    def values(self):
        return [TYPES[t][1] for t in self.entries.values()
                if isinstance(t, str) and TYPES[t][0].nvals]

    def removed(self):
        return [k for k, t in self.entries.items()
                if not isinstance(t, str) or (TYPES[t][0].nvals == 0)]


# what a mixin annotates
MIXED = [[], [('m', 'u8')], [('m', 'term'), ('v', ('-', 'classvar'))], [('x', 'dyn')],
         [('y', ('-', 'None'))], [('m', 'arr'), ('x', ('-', 'int'))]]


def hints(body):
    return [(n, NONE[t[1]] if isinstance(t, tuple) else TYPES[t][0].hint()) for n, t in body]


def check_class(ctx, spec, layout, values, sub):
    """Everything observable of one class of a chain."""
    cls = spec.cls()
    names = [n for n, _ in spec.attrs]

    def bad(what):
        ctx.fail(f'{sub}: {spec}: {what}', sub)
        return False
    if tuple(cls.attrs) != tuple(names):
        return bad(f'attrs is {cls.attrs}, expected {tuple(names)}')
    if cls.byte_order is not BO[spec.bo]:
        return bad(f'byte_order is {cls.byte_order}')
    if list(inspect.signature(cls).parameters) != names:
        return bad(f'the constructor takes {inspect.signature(cls)}, expected {names}')
    m = spec.obj(*values)
    lv = [to_lib(v) for v in values]
    obj = cls(*lv)
    kw = cls(**dict(zip(names, lv)))
    ctx.op(2)
    for o in (obj, kw):
        for n, v in zip(names, lv):
            if getattr(o, n) is not v:
                return bad(f'the constructor stored {getattr(o, n)!r} as {n}, expected {v!r}')
        for n in layout.removed():
            if n in vars(o):
                return bad(f'removed {n} is stored on the instance')
    if not (obj == kw) or obj != kw:
        return bad('instances with equal values compare unequal')
    for i, n in enumerate(names):
        o2 = cls(*lv)
        setattr(o2, n, 'different')
        if obj == o2:
            return bad(f'instances differing in {n} compare equal')
    o2 = cls(*lv)
    for n in layout.removed():
        if not n.startswith('_'):
            setattr(o2, n, 'extra')
    if obj != o2:
        return bad('a removed field takes part in comparison')
    for text in (str(o2), repr(o2)):
        pos = 0
        for n, v in zip(names, lv):
            i = text.find(n, pos)
            if i < 0 or text.find(str(v), i) < 0:
                return bad(f'prints as {text}: {n} with its value is missing or out of order')
            pos = text.find(str(v), i) + len(str(v))
        if 'extra' in text:
            return bad(f'prints as {text}: shows a removed field')
    for k in (len(names) + 1, len(names) - 1):
        if k >= 0 and attempt(lambda: cls(*(lv + [0])[:k]))[0] == 'ok':
            return bad(f'the constructor accepts {k} arguments')
    return check_record(ctx, spec, m, sub=sub)


def chain(base, bodies, bo, siblings):
    def run(ctx):
        layouts = [Layout().extend(base, 0)]
        specs = [layouts[0].spec('L0', bo)]
        specs[0]._cls = build_class('L0', hints(base), bo)
        anns = [dict(specs[0]._cls.__annotations__)]
        for lvl, body in enumerate(bodies, 1):
            lay = layouts[-1].extend(body, lvl)
            spec = lay.spec(f'L{lvl}', bo)
            spec._cls = build_class(f'L{lvl}', hints(body), bo, (specs[-1]._cls,))
            ctx.op()
            if siblings:
                # a sibling that does the opposite must not matter
                build_class('Sib', hints([('a', ('-', 'None')), ('b', 'f64'), ('z', 'u8')]), bo,
                            (specs[-1]._cls,))
                ctx.op()
            layouts.append(lay)
            specs.append(spec)
            anns.append(dict(spec._cls.__annotations__))
        ctx.bound('chain', len(specs))
        # newest first, then all again: no class is affected by its subclasses
        for i in [*reversed(range(len(specs))), *range(len(specs))]:
            if dict(specs[i]._cls.__annotations__) != anns[i]:
                return ctx.fail(f'{specs[i]}: annotations changed by a subclass')
            if not check_class(ctx, specs[i], layouts[i], layouts[i].values(), f'L{i}'):
                return
        # different classes never compare equal
        objs = [to_lib(s.obj(*l.values())) for s, l in zip(specs, layouts)]
        for x, y in itertools.permutations(objs, 2):
            if x == y or not (x != y):
                return ctx.fail(f'{x!r} == {y!r} although their classes differ')
    return run


def byte_orders(base, a, b, c):
    """Byte-order changes: refused unless overridden; then they apply to all
    fields, inherited ones included, and leave the base alone."""
    def run(ctx):
        lay0 = Layout().extend(base, 0)
        s0 = lay0.spec('B0', a)
        s0._cls = build_class('B0', hints(base), a)
        body = [('n1', 'u32'), ('a', 'i16')]
        lay1 = lay0.extend(body, 1)
        for mode in (None, ByteOrderMode.STRICT, ByteOrderMode.OVERRIDE):
            kw = {} if mode is None else {'byte_order_mode': mode}
            res = attempt(lambda: build_class('B1', hints(body), b, (s0._cls,), **kw))
            ctx.op()
            if a != b and mode is not ByteOrderMode.OVERRIDE:
                if res[0] == 'ok' or not isinstance(res[1], ValueError):
                    return ctx.fail(f'{a!r} -> {b!r} with {mode}: {res[1]!r} instead of ValueError')
                ctx.outcome('refused')
                if not check_class(ctx, s0, lay0, lay0.values(), 'base after refusal'):
                    return
                continue
            if res[0] == 'exc':
                return ctx.fail(f'{a!r} -> {b!r} with {mode}: {res[1]!r}')
            s1 = lay1.spec('B1', b)
            s1._cls = res[1]
            body2 = [('n2', 'dyn')]
            lay2 = lay1.extend(body2, 2)
            s2 = lay2.spec('B2', c)
            r2 = attempt(lambda: build_class('B2', hints(body2), c, (s1._cls,), **kw))
            if b != c and mode is not ByteOrderMode.OVERRIDE:
                if r2[0] == 'ok' or not isinstance(r2[1], ValueError):
                    return ctx.fail(f'{b!r} -> {c!r} with {mode}: {r2[1]!r} instead of ValueError')
                todo = ((s1, lay1), (s0, lay0))
            elif r2[0] == 'exc':
                return ctx.fail(f'{b!r} -> {c!r} with {mode}: {r2[1]!r}')
            else:
                s2._cls = r2[1]
                todo = ((s2, lay2), (s0, lay0), (s1, lay1), (s2, lay2))
            for s, l in todo:
                if not check_class(ctx, s, l, l.values(), f'{s.name} {mode}'):
                    return
        # leaving out the byte order means the default one
        res = attempt(lambda: type(Structured)('B3', (s0._cls,), {}))
        ctx.op()
        if (res[0] == 'ok') != (a == ''):
            return ctx.fail(f'subclass of a {a!r} class without byte order: {res[1]!r}')
    return run


def multiple(bo):
    """All ways of inheriting from up to three classes."""
    def run(ctx):
        a = build_class('A', [('x', L.uint8)], bo)
        b = build_class('B', [('y', L.uint16)], bo)
        a2 = build_class('A2', [('z', L.uint32)], bo, (a,))
        e = build_class('E', [], bo)

        class Mixin:
            def helper(self):
                return 'help'

        class Mixin2:
            value: int = 3
        pool = [('A', a, 1), ('B', b, 1), ('A2', a2, 1), ('E', e, 1), ('Mixin', Mixin, 0),
                ('Mixin2', Mixin2, 0), ('Structured', Structured, 0), ('object', object, 0)]
        want = {'A': ('x',), 'B': ('y',), 'A2': ('x', 'z'), 'E': ()}
        for n in (1, 2, 3):
            for combo in itertools.permutations(pool, n):
                records = [c for c in combo if c[2]]
                bases = tuple(c[1] for c in combo)
                names = '+'.join(c[0] for c in combo)
                if not any(issubclass(x, Structured) for x in bases):
                    continue
                res = attempt(lambda: build_class('M', [('w', L.uint8)], bo, bases))
                ctx.op()
                ctx.state()
                if len(records) > 1:
                    if res[0] == 'ok' or not isinstance(res[1], TypeError):
                        return ctx.fail(f'class M({names}): {res[1]!r} instead of TypeError')
                    ctx.outcome('refused')
                elif res[0] == 'exc':
                    # only Python itself may object (method resolution order)
                    if 'MRO' not in str(res[1]) and 'method resolution' not in str(res[1]):
                        return ctx.fail(f'class M({names}) is refused: {res[1]!r}')
                    ctx.outcome('no MRO')
                else:
                    expect = (want[records[0][0]] if records else ()) + ('w',)
                    if res[1].attrs != expect:
                        return ctx.fail(f'class M({names}) has attrs {res[1].attrs}, '
                                        f'expected {expect}')
                    o = res[1](*range(1, len(expect) + 1))
                    if res[1].create_unpack(o.pack()) != o:
                        return ctx.fail(f'class M({names}) does not round-trip')
                    ctx.outcome('accepted')
        for cls, attrs in ((a, ('x',)), (b, ('y',)), (a2, ('x', 'z')), (e, ())):
            o = cls(*range(1, len(attrs) + 1))
            if cls.attrs != attrs or cls.create_unpack(o.pack()) != o:
                return ctx.fail(f'{cls} changed after refused definitions')
        ctx.trace()
    return run


def mixins(bo, fields, more):
    """Mixin classes, which are no records: their own hook for subclasses gets
    the class keywords meant for it, and what they annotate counts like any
    other base's, in the order of the method resolution."""
    def run(ctx):
        for where in ('first', 'last', 'both'):
            for keyword in (None, 'tag'):
                seen = []

                class Mixin:
                    def __init_subclass__(cls, tag=None, **kwargs):
                        super().__init_subclass__(**kwargs)
                        seen.append((cls.__name__, 'Mixin', tag))

                class Other(Mixin):
                    def __init_subclass__(cls, mark=None, **kwargs):
                        super().__init_subclass__(**kwargs)
                        seen.append((cls.__name__, 'Other', mark))
                seen.clear()
                Mixin.__annotations__ = dict(hints(fields))
                a = build_class('A', [('x', L.uint8), ('y', L.uint16)], bo)
                kw = {keyword: 'here'} if keyword else {}
                bases = {'first': (Mixin, a), 'last': (a, Mixin), 'both': (Other, a)}[where]
                if where == 'both':
                    kw['mark'] = 'there'
                what = f'class M({", ".join(b.__name__ for b in bases)}, {kw}) with {fields}'
                res = attempt(lambda: build_class('M', hints(more), bo, bases, **kw))
                ctx.op()
                ctx.state()
                if res[0] == 'exc':
                    return ctx.fail(f'{what} is refused: {res[1]!r}')
                want = [('M', 'Mixin', kw.get('tag'))] + [('M', 'Other', 'there')] * (where == 'both')
                if seen != want:
                    return ctx.fail(f'{what}: the hooks of the mixins saw {seen}, expected {want}')
                lay = Layout()
                lvl = 0
                for body in ([fields, [('x', 'u8'), ('y', 'u16')]] if where == 'last' else
                             [[('x', 'u8'), ('y', 'u16')], fields]) + [more]:
                    lay = lay.extend(body, lvl)
                    lvl += 1
                spec = lay.spec('M', bo)
                spec._cls = res[1]
                ctx.op()
                if not check_class(ctx, spec, lay, lay.values(), what):
                    return
                ctx.outcome('mixin')
                # its subclass
                seen.clear()
                lay2 = lay.extend([('k', 'u32'), ('x', 'dyn')], lvl)
                s2 = lay2.spec('K', bo)
                s2._cls = build_class('K', hints([('k', 'u32'), ('x', 'dyn')]), bo, (res[1],), **kw)
                if [(s[0].replace('K', 'M'), *s[1:]) for s in seen] != want:
                    return ctx.fail(f'{what}: the hooks of the mixins saw {seen} for a subclass')
                if not check_class(ctx, s2, lay2, lay2.values(), what + ' subclass'):
                    return
        ctx.trace()
    return run


def cases(tier):
    quick = tier == 'quick'
    for bi, (bn, base) in enumerate(BASES):
        for i, x in enumerate(actions(1, tier)):
            yield f'chain1:{bn}:{i}', chain(base, [x], ALL_BO[(bi + i) % 6], True)
            for j, y in enumerate(actions(2, tier)):
                bo = ALL_BO[(bi + i + j) % 6]
                yield f'chain2:{bn}:{i}:{j}', chain(base, [x, y], bo, (i + j) % 2)
    for bi, (bn, base) in enumerate(BASES):
        for i, x in enumerate(actions(1, tier)):
            for j, y in enumerate(actions(2, tier)):
                if quick and (bi + i + j) % 4:
                    continue
                for k, z in enumerate(actions(3, tier)):
                    if quick and (i + j + k) % 2:
                        continue
                    yield (f'chain3:{bn}:{i}:{j}:{k}',
                           chain(base, [x, y, z], ALL_BO[(bi + i + j + k) % 6], False))
    for bn, base in BASES:
        for a, b in itertools.product(ALL_BO, repeat=2):
            for c in ALL_BO if not quick else (a, b, '>'):
                yield f'order:{bn}:{a}:{b}:{c}', byte_orders(base, a, b, c)
    for bo in ALL_BO:
        yield f'multiple:{bo}', multiple(bo)
        for i, f in enumerate(MIXED):
            for j, g in enumerate([[], [('n', 'dyn')], [('x', 'u32')], [('m', 'i16')],
                                   [('m', ('-', 'None'))]]):
                yield f'mixin:{bo}:{i}:{j}', mixins(bo, f, g)
