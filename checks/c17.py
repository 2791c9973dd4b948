"""C17 Class definition: detection, constructor, equality, printing."""
import io
import itertools
import sys
import types

from mc.kinds import CELSIUS, NAMED, Celsius
from mc.lib import L, StructSerializer, Structured, TupleSerializer
from mc.model import (
    BASIC, I16, Basic, U16, U32, U8, Arr, Back, Char, CharDyn, CharTerm, Cond, Nest, Pad, SelfT, Spec,
    Tup, Uni, to_lib)
from mc.ops import attempt, check_packs, check_unpacks

ID = 'C17'
LEVEL = 'model_checking'
RULE = ('all sequences of up to 3 declarations (serialized types in every spelling, plain and '
        'class-variable attributes, variadic tuples, methods, padding) x evaluated or postponed '
        'annotations x class in a module, base or subclass; for each class every way to call '
        'the constructor, every pair of instances for equality, printing and the post-init '
        'hook; attribute names from a list of awkward ones. '
        'state = class / constructor call / pair of instances')
ASSUMPTIONS = ['attributes are not named like attributes of the library\'s own classes']

CALLS = []


def hook(self):
    """The post-init hook: what the object looks like when it runs."""
    CALLS.append((self, {n: getattr(self, n, '<missing>') for n in type(self).attrs}))


class Item:
    """One declaration.  t: serialized as, or None."""

    def __init__(self, name, src, t=None, vals=(), pad=False):
        self.name, self.src, self.t, self.vals, self.pad = name, src, t, vals, pad


ITEMS = [
    Item('u8', '{n}: uint8', U8, (1, 255)),
    Item('u32', '{n}: uint32', U32, (258, 70000)),
    Item('bool', '{n}: bool8', BASIC['bool8'], (True, False)),
    Item('f64', '{n}: float64', BASIC['float64'], (0.5, -0.0)),
    Item('char3', '{n}: char[3]', Char(3), (b'abc', b'xyz')),
    Item('dyn', '{n}: char[uint16]', CharDyn(U16), (b'', b'hello')),
    Item('null', '{n}: null_char', CharTerm(b'\0'), (b'', b'nul')),
    Item('text', "{n}: unicode[uint8, 'utf8']", Uni(CharDyn(U8), 'utf8'), ('', 'h\u00e9')),
    Item('arr', '{n}: array[Header[uint8], uint16]', Arr(U8, U16), ([], [1, 2])),
    Item('tup', '{n}: tuple[uint8, char[uint8]]', Tup(U8, CharDyn(U8)), ((1, b''), (2, b'q'))),
    Item('Tup', '{n}: Tuple[uint8, uint32]', Tup(U8, U32), ((1, 2), (3, 4))),
    Item('rec', '{n}: Named', Nest(NAMED), (NAMED.obj(1, b'n'), NAMED.obj(2, b''))),
    Item('self', '{n}: array[Header[uint8], Self]', Arr(U8, SelfT()), ([],)),
    Item('ann', '{n}: Annotated[int, uint16]', U16, (5, 600)),
    Item('annbytes', '{n}: Annotated[bytes, char[4]]', Char(4), (b'abcd', b'wxyz')),
    Item('annstr', "{n}: Annotated[str, unicode[uint16, 'utf8']]", Uni(CharDyn(U16), 'utf8'), ('t', '')),
    Item('annlist', '{n}: Annotated[list[int], array[Header[2], uint8]]', Arr(2, U8), ([1, 2], [3, 4])),
    Item('anndoc', "{n}: Annotated[uint8, 'doc']", U8, (9, 8)),
    Item('annann', "{n}: Annotated[Annotated[int, 'x'], Annotated[int, uint32]]", U32, (9, 8)),
    Item('as', '{n}: Annotated[Celsius, SerializeAs(int16)]', CELSIUS, (Celsius(3), Celsius(-3))),
    Item('cond', '{n}: Annotated[uint16, Condition(yes, 0)]', Cond(lambda o: True, U16, 0), (3, 4)),
    Item('union', '{n}: Annotated[Union[uint16, char[uint8]], LookbackDecider(one, {{1: uint16}}, char[uint8])]',
         Back(lambda o: 1, {1: U16}, CharDyn(U8)), (3, 4)),
    # serializers named directly in the annotation
    Item('raw', "{n}: Annotated[int, StructSerializer('I')]", U32, (1, 70000)),
    Item('rawx', "{n}: Annotated[int, StructSerializer('Hx')]", Basic('Hx', 'Hx'), (1, 700)),
    Item('xraw', "{n}: Annotated[int, StructSerializer('2xh')]", Basic('2xh', '2xh'), (1, -700)),
    Item('rawpad', "_: Annotated[None, StructSerializer('3x')]", Pad(3), pad=True),
    Item('rawtup', "{n}: Annotated[tuple[int, int], TupleSerializer((StructSerializer('Bx'), "
         "StructSerializer('H')))]", Tup(Basic('Bx', 'Bx'), U16), ((1, 2), (3, 4))),
    Item('condx', "{n}: Annotated[int, StructSerializer('Hx'), Condition(yes, 0)]",
         Cond(lambda o: True, Basic('Hx', 'Hx'), 0), (3, 4)),
    Item('default', '{n}: uint8 = 7', U8, (1, 7)),
    Item('quoted', "{n}: 'uint16'", U16, (1, 700)),
    # padding
    Item('pad', '_: pad[2]', Pad(2), pad=True),
    Item('padq', "_: 'pad[3]'", Pad(3), pad=True),
    Item('padalias', 'P{n} = pad[2]\n    _: P{n}', Pad(2), pad=True),
    Item('namedpad', '{n}: pad[1]', Pad(1), pad=True),
    Item('condpad', '_: Annotated[pad[2], Condition(yes)]', Cond(lambda o: True, Pad(2)), pad=True),
    Item('nopad', '_: Annotated[pad[2], Condition(no)]', Cond(lambda o: False, Pad(2)), pad=True),
    # not serialized
    Item('int', '{n}: int'), Item('intd', '{n}: int = 5'), Item('str', "{n}: str = 'x'"),
    Item('classvar', '{n}: ClassVar[int] = 3'), Item('classvar8', '{n}: ClassVar[uint8] = 3'),
    Item('classvara', '{n}: ClassVar[array[Header[2], uint8]]'),
    Item('variadic', '{n}: tuple[uint8, ...]'), Item('Variadic', '{n}: Tuple[uint8, ...] = ()'),
    Item('mixedtup', '{n}: tuple[uint8, int]'), Item('list', '{n}: list[uint8]'),
    Item('optional', '{n}: Optional[uint8] = None'), Item('none', '{n}: None'),
    Item('any', '{n}: Any'), Item('dict', '{n}: dict[str, uint8]'),
    Item('anyann', "{n}: Annotated[int, 'doc', 3]"), Item('under', '_: int'),
    Item('emptytup', '{n}: tuple[()]'),
    Item('plain', '{n} = 4'), Item('method', 'def {n}(self): return 1'),
    Item('prop', '@property\n    def {n}(self): return 1'),
    Item('static', '@staticmethod\n    def {n}(): return 1'),
    Item('nested', 'class {n}: x: uint8'),
]
BY = {i.name: i for i in ITEMS}


def yes(o):
    return True


def no(o):
    return False


def one(o):
    return 1


def module(source, future):
    """Run source as a module of its own."""
    name = 'c17_module'        # replaced by the next case's
    mod = types.ModuleType(name)
    ns = mod.__dict__
    ns.update({n: getattr(L, n) for n in dir(L) if not n.startswith('__')})
    exec('from typing import *\nfrom dataclasses import dataclass\n', ns)
    ns.update(StructSerializer=StructSerializer, TupleSerializer=TupleSerializer)
    ns.update(Named=NAMED.cls(), Celsius=Celsius, yes=yes, no=no, one=one, hook=hook)
    sys.modules[name] = mod
    head = 'from __future__ import annotations\n' if future else ''
    exec(compile(head + source, name, 'exec', dont_inherit=True), ns)
    return mod


def body(items, names, post=True, slots=False):
    lines = [f'    __slots__ = {tuple(n for i, n in zip(items, names) if i.t is not None and i.t.nvals)}'
             ] * slots
    lines += [f'    {i.src.format(n=n)}' for i, n in zip(items, names)]
    if post:
        lines.append('    __post_init__ = hook')
    return '\n'.join(lines or ['    pass'])


BOS = {'': 'DEFAULT', '<': 'LE', '>': 'BE', '=': 'NATIVE_STANDARD', '@': 'NATIVE_NATIVE', '!': 'NETWORK'}


ODD = [None, 0, '', [], (), {}, b'', 'a=b', '%s {0}', -0.5, 'None', object()]


def fields_of(items, names):
    return [('_' if i.pad else n, i.t) for i, n in zip(items, names) if i.t is not None]


def creators(cls, data):
    """Every way to create an object from bytes."""
    return (('create_unpack', lambda: cls.create_unpack(data)),
            ('create_unpack_from', lambda: cls.create_unpack_from(b'..' + data, 2)),
            ('create_unpack_read', lambda: cls.create_unpack_read(io.BytesIO(data))))


def examine(ctx, cls, spec, items, what, future):
    """Everything the property says about one class."""
    spec._cls = cls
    attrs = [n for n, _ in spec.attrs]
    ctx.state()
    if list(cls.attrs) != attrs or not isinstance(cls.attrs, tuple):
        ctx.fail(f'{what}: attrs is {cls.attrs}, expected {attrs}', what)
        return False
    vals = [i.vals for i in items if i.t is not None and i.t.nvals]
    combos = [[to_lib(v) for v in c] for c in itertools.product(*vals)]
    # --- every way to call the constructor
    objs = []
    first = combos[0]
    n = len(attrs)
    calls = [((), dict(zip(p, [first[attrs.index(a)] for a in p])), first)
             for p in itertools.permutations(attrs)]
    calls += [(c[:k], dict(zip(attrs[k:], c[k:])), c) for c in combos for k in range(n + 1)]
    for args, kw, want in calls:
        CALLS.clear()
        res = attempt(lambda: cls(*args, **kw))
        ctx.op()
        if res[0] == 'exc':
            ctx.fail(f'{what}: constructor with {args} {kw} raises {res[1]!r}', what)
            return False
        o = res[1]
        for a, v in zip(attrs, want):
            if getattr(o, a) is not v:
                ctx.fail(f'{what}: constructed with {a}={v!r}, has {getattr(o, a)!r}', what)
                return False
        if len(CALLS) != 1 or CALLS[0][0] is not o or any(
                CALLS[0][1][a] is not v for a, v in zip(attrs, want)):
            ctx.fail(f'{what}: constructor called the post-init hook {len(CALLS)} times, '
                     f'seeing {[c[1] for c in CALLS]}', what)
            return False
        objs.append((o, want))
    for args, kw in ([(first[:-1], {})] if n else []) + [
            (first + [1], {}), (first, {'nosuch': 1}), (first, {attrs[0]: 1} if n else {'_': 1}),
            ([], {a: 1 for a in attrs[1:]} if n else {'x': 1}), (first, {'_': 1} if '_' not in attrs else {'': 1})]:
        res = attempt(lambda: cls(*args, **kw))
        ctx.op()
        if res[0] == 'ok' or type(res[1]) is not TypeError:
            ctx.fail(f'{what}: constructor with {args} {kw}: {res[1]!r}, expected TypeError', what)
            return False
    ctx.outcome('constructor calls', len(calls))
    # --- equality
    twin = type('Twin', (), {'attrs': cls.attrs})()
    for (a, va), (b, vb) in itertools.product(objs, repeat=2):
        want = all(x == y for x, y in zip(va, vb))
        ctx.op(2)
        if (a == b) is not want or (a != b) is want:
            ctx.fail(f'{what}: {a} == {b} is {a == b}, != is {a != b}', what)
            return False
    o = objs[0][0]
    o2 = cls(*first)
    if hasattr(o2, '__dict__'):
        o2.unrelated = 5
    sub = type('Sub', (cls,), {}, byte_order=cls.byte_order)
    same = type('Same', (Structured,), {'__annotations__': {}})
    if not (o == o2) or o == sub(*first) or sub(*first) == o or o == twin or o == tuple(first) \
            or o == None or o == same():                                    # noqa: E711
        ctx.fail(f'{what}: equality with other objects is wrong', what)
        return False
    # --- re-targeted to another byte order it's still the same class and values
    if hasattr(o2, '__dict__'):
        for bo in L.ByteOrder:
            o3, o4 = o.with_byte_order(bo), objs[-1][0].with_byte_order(bo)
            want = all(x == y for x, y in zip(first, objs[-1][1]))
            ctx.op(4)
            if type(o3) is not cls or not (o == o3 and o3 == o and o3 == o2) or o != o3 \
                    or str(o3) != str(o) or any(getattr(o3, a) != v for a, v in zip(attrs, first)) \
                    or (o3 == o4) is not want or (o3 == objs[-1][0]) is not want:
                ctx.fail(f'{what}: {o!r} re-targeted to {bo} is {o3!r}, equal: {o == o3}', what)
                return False
    # --- any values at all: they are assigned, compared and printed as they are
    odd = []
    for i in range(n):
        row = [cls(*first[:i], v, *first[i + 1:]) for v in ODD]
        for (a, x), (b, y) in itertools.product(zip(row, ODD), repeat=2):
            if (a == b) is not (x == y) or (a != b) is (x == y):
                ctx.fail(f'{what}: {a} == {b} is {a == b}, != is {a != b}', what)
                return False
        for a, x in zip(row, ODD):
            if getattr(a, attrs[i]) is not x:
                ctx.fail(f'{what}: constructed with {attrs[i]}={x!r}, has '
                         f'{getattr(a, attrs[i])!r}', what)
                return False
        ctx.op(len(ODD) ** 2)
        odd += [(a, None) for a in row]
    # --- printing
    for o, _ in objs + odd:
        for text in (str(o), repr(o)):
            ctx.op()
            at = text.find(cls.__name__)
            for a in attrs:
                v = getattr(o, a)
                opts = [text.find(f'{a}={x}', at) for x in (str(v), repr(v))]
                opts = [p for p in opts if p >= 0]
                if at < 0 or not opts:
                    ctx.fail(f'{what}: printed as {text!r}', what)
                    return False
                at = min(opts) + len(a)
            if any(f'{m}=' in text for m, t in spec.fields if m not in attrs) \
                    or '_pad' in text or text.count('=') != sum(
                        str(getattr(o, a)).count('=') + 1 for a in attrs):
                ctx.fail(f'{what}: printed as {text!r}, naming more than {attrs}', what)
                return False
    # --- layout, and the hook on unpacking
    for k in (0, -1):
        m = spec.obj(*[v[k] for v in vals])
        if not check_packs(ctx, spec, m, sub=what):
            return False
        data = spec.enc(m)
        if not check_unpacks(ctx, spec, data, lambda: to_lib(m), sub=what):
            return False
        for how, create in creators(cls, data):
            CALLS.clear()
            o = create()
            ctx.op()
            if len(CALLS) != 1 or CALLS[0][0] is not o or [CALLS[0][1][a] for a in attrs] != [
                    getattr(o, a) for a in attrs]:
                ctx.fail(f'{what}: {how} called the post-init hook {len(CALLS)} times', what)
                return False
    return True


def declared(items, bo, future, names=None, slots=False):
    """slots: the class keeps its values in slots, and has no __dict__."""
    def run(ctx):
        nm = names or [f'n{i}' for i in range(len(items))]
        what = '; '.join(i.src.format(n=n) for i, n in zip(items, nm)) + \
            (' (postponed)' if future else '') + ' (slots)' * slots
        src = (f'class R(Structured, byte_order=ByteOrder.{BOS[bo]}):\n'
               f'{body(items, nm, slots=slots)}\n')
        cls = module(src, future).R
        spec = Spec('R', fields_of(items, nm), bo)
        if examine(ctx, cls, spec, items, what, future):
            ctx.outcome('class')
    return run


def derived(items, more, bo, future):
    """The same declarations spread over a base and a subclass."""
    def run(ctx):
        nm = [f'n{i}' for i in range(len(items) + len(more))]
        k = len(items)
        src = (f'class A(Structured, byte_order=ByteOrder.{BOS[bo]}):\n{body(items, nm)}\n'
               f'class R(A, byte_order=ByteOrder.{BOS[bo]}):\n{body(more, nm[k:], False)}\n')
        cls = module(src, future).R
        both = list(items) + list(more)
        spec = Spec('R', fields_of(both, nm), bo)
        what = src.replace('\n', ' / ') + str(future)
        if examine(ctx, cls, spec, both, what, future):
            ctx.outcome('class')
    return run


def init_false(items, bo, future):
    """init=False: no constructor is generated."""
    def run(ctx):
        nm = [f'n{i}' for i in range(len(items))]
        params = [n for i, n in zip(items, nm) if i.t is not None and i.t.nvals]
        own = f'    def __init__(self, {", ".join(params)}):\n        self.own = True\n' + ''.join(
            f'        self.{p} = {p}\n' for p in params)
        other = f'    def __init__(self, {"".join(f"a{p}, " for p in params)}/):\n' + ''.join(
            f'        self.{p} = a{p}\n' for p in params) + '        self.own = True\n'
        many = '    def __init__(self, *given):\n        self.own = True\n' + ''.join(
            f'        self.{p} = given[{i}]\n' for i, p in enumerate(params))
        new = (f'    def __new__(cls, *given):\n        assert len(given) == {len(params)}\n'
               '        self = super().__new__(cls)\n        self.own = True\n        return self\n')
        order = f'byte_order=ByteOrder.{BOS[bo]}'
        if not params:
            other = many
        srcs = {
            'own': f'class R(Structured, {order}, init=False):\n{body(items, nm)}\n{own}',
            'own names': f'class R(Structured, {order}, init=False):\n{body(items, nm)}\n{other}',
            'any number': f'class R(Structured, {order}, init=False):\n{body(items, nm)}\n{many}',
            '__new__': f'class R(Structured, {order}):\n{body(items, nm)}\n{new}',
            'none': f'class R(Structured, {order}, init=False):\n{body(items, nm)}\n',
            'inherited': f'class A(Structured, {order}, init=False):\n{body(items, nm)}\n{own}\n'
                         f'class R(A, {order}, init=False):\n    extra: ClassVar[int] = 3\n',
        }
        spec = Spec('R', fields_of(items, nm), bo)
        vals = [to_lib(i.vals[0]) for i in items if i.t is not None and i.t.nvals]
        m = spec.obj(*[i.vals[0] for i in items if i.t is not None and i.t.nvals])
        for name, src in srcs.items():
            cls = module(src, future).R
            ctx.op()
            ctx.state()
            if list(cls.attrs) != params:
                return ctx.fail(f'{src}: attrs is {cls.attrs}, expected {params}', name)
            if name == 'none':
                if cls.__init__ is not object.__init__:
                    return ctx.fail(f'{src}: has a constructor', name)
                o = cls.__new__(cls)
                CALLS.clear()
                o.unpack(spec.enc(m))
                if CALLS or [getattr(o, p) for p in params] != vals:
                    return ctx.fail(f'{src}: unpacks to {o}', name)
                if o.pack() != spec.enc(m):
                    return ctx.fail(f'{src}: unpacked, packs to {o.pack()!r}', name)
                continue
            CALLS.clear()
            o = cls(*vals)
            calls = [o] if name == '__new__' else []
            if not o.own or len(CALLS) != len(calls):
                return ctx.fail(f'{src}: its own constructor was not the one called', name)
            if o.pack() != spec.enc(m):
                return ctx.fail(f'{src}: packs to {o.pack()!r}', name)
            for how, create in creators(cls, spec.enc(m)):
                CALLS.clear()
                c = create()
                ctx.op()
                if not getattr(c, 'own', False) or c != o or len(CALLS) != len(calls):
                    return ctx.fail(f'{src}: {how} gives {c}, its own constructor called: '
                                    f'{getattr(c, "own", False)}', name)
        ctx.outcome('init=False')
    return run


def as_dataclass(items, bo):
    def run(ctx):
        nm = [f'n{i}' for i in range(len(items))]
        src = (f'@dataclass\nclass R(Structured, byte_order=ByteOrder.{BOS[bo]}, init=False):\n'
               f'{body(items, nm, False)}\n')
        cls = module(src, False).R
        spec = Spec('R', fields_of(items, nm), bo)
        spec._cls = cls
        m = spec.obj(*[i.vals[-1] for i in items])
        ctx.state()
        check_packs(ctx, spec, m) and check_unpacks(ctx, spec, spec.enc(m), lambda: to_lib(m))
    return run


AWKWARD = ['cls', 'self', 'obj', 'args', 'kwargs', 'value', 'values', 'buffer', 'data', 'offset',
           'type', 'int', 'str', 'list', 'bytes', 'Union', 'Self', 'Any', 'uint8', 'T', 'name',
           'init', 'object', 'setattr', 'getattr', 'len', 'zip', 'zips', 'count', 'annotations',
           'size', 'num_values', 'partial_object', '_x', '__x', '_R__x', '__y_', 'h\u00e9', 'X',
           'globals', 'locals', 'exec', 'operator', 'Structured', 'R', 'None_', 'match', 'case',
           'format', 'item', 'items', 'keys', 'attr', 'proxy', 'serializers', 'a1', 'n', '_']


def cases(tier):
    quick = tier == 'quick'
    bos = list(BOS)
    for i in ITEMS:
        for bo in bos:
            for future in (False, True):
                yield f'one:{i.name}:{bo}:{future}', declared([i], bo, future)
    for k, (a, b) in enumerate(itertools.product(ITEMS, repeat=2)):
        for future in (False, True):
            bo = bos[(k + future) % 6]
            yield f'two:{a.name}:{b.name}:{future}', declared([a, b], bo, future)
            yield f'derived:{a.name}:{b.name}:{future}', derived([a], [b], bo, future)
            if 'default' not in (a.name, b.name):
                yield f'slots:{a.name}:{b.name}:{future}', declared([a, b], bo, future, slots=True)
            if all(x.t is None or not x.t.nvals or x.vals for x in (a, b)):
                yield f'initfalse:{a.name}:{b.name}:{future}', init_false([a, b], bo, future)
    small = [BY[n] for n in ('u8', 'u32', 'dyn', 'tup', 'rec', 'ann', 'as', 'cond', 'default', 'pad',
                             'padq', 'padalias', 'namedpad', 'condpad', 'intd', 'classvar8', 'variadic',
                             'optional', 'none', 'under', 'method')]
    pool = small if quick else ITEMS
    for k, t in enumerate(itertools.product(pool, repeat=3)):
        future = bool((k // 7) % 2)
        yield f'three:{":".join(i.name for i in t)}:{future}', declared(list(t), bos[k % 6], future)
        if k % 5 == 0 or not quick and k % 2:
            yield f'derived3:{":".join(i.name for i in t)}', derived(
                list(t[:1 + k % 2]), list(t[1 + k % 2:]), bos[k % 6], future)
    rest = [i for i in ITEMS if i.t is not None and i.t.nvals and i.name not in ('default',)]
    for k, t in enumerate(itertools.product(rest, repeat=2)):
        yield f'dataclass:{":".join(i.name for i in t)}', as_dataclass(list(t), bos[k % 6])
    for k, n in enumerate(AWKWARD):
        for j, other in enumerate(('n1', AWKWARD[(k + 7) % len(AWKWARD)])):
            for t in (('u8', 'u32'), ('dyn', 'tup'), ('self', 'rec'), ('as', 'text')):
                for future in (False, True):
                    if future and {n, other} & {'int', 'uint8', 'Self', 'Union', 'str', 'list', 'T', 'Any'}:
                        continue
                    yield (f'name:{n}:{other}:{t[0]}:{future}',
                           named([BY[x] for x in t], [n, other], bos[k % 6], future))


def mangled(n):
    return '_R' + n if n.startswith('__') and not n.endswith('__') else n


def named(items, names, bo, future):
    def run(ctx):
        what = '; '.join(i.src.format(n=n) for i, n in zip(items, names))
        src = f'class R(Structured, byte_order=ByteOrder.{BOS[bo]}):\n{body(items, names)}\n'
        mod = module(src, future)
        nm = [mangled(n) for n in names]
        spec = Spec('R', fields_of(items, nm), bo)
        examine(ctx, mod.R, spec, items, what, future)
    return run
