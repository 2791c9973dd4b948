"""C23 Fixed-layout classes are safe to use from several threads."""
import io
import itertools
import types
from typing import Annotated, Generic, TypeVar

from mc import sched
from mc.kinds import BOXED, CELSIUS, COLOR, TAG, Boxed, Celsius, Color, Tag
from mc.lib import L, Structured
from mc.model import (
    BASIC, I16, I32, U16, U32, U8, Arr, Char, Nest, Pad, Pascal, SerAs, Spec, Uni, build_class,
    diff, to_lib)
from mc.ops import JUNK

ID = 'C23'
LEVEL = 'model_checking'
RULE = ('two real threads under a controlled scheduler. Every pair of operations (9 methods; '
        'instances shared where both only pack) x class x who starts, x every schedule with one '
        'preemption at any bytecode instruction of the library and every schedule with two '
        'preemptions at its lines; the same for pairs of class definitions from the same, '
        'never-before-used hints followed by their use, and for a definition against a use. '
        'state = (pair, schedule), transition = operation run under it')
ASSUMPTIONS = ['preemption only matters inside the library\'s Python code: a call into C '
               '(struct, dict, lru_cache) is one step',
               'sequential consistency between threads (the interpreter lock)']

A = lambda *fs: [(f'f{i}' if t.nvals else '_', t) for i, t in enumerate(fs)]
LAYOUTS = {
    'basic': (A(U8, I32, BASIC['float64'], Pad(2), BASIC['bool8']),
              [(1, -2, 0.5, True), (255, 70000, -0.0, False)]),
    'strings': (A(Char(4), Pascal(5), U16), [(b'abcd', b'xy', 1), (b'\0\1\2\3', b'', 65535)]),
    'text': (A(Uni(Char(6), 'utf8'), U8, Uni(Char(4), 'utf-16-le')), [('h\u00e9', 1, 'ab'), ('', 2, 'x')]),
    'arrays': (A(Arr(3, U16), Arr(2, BASIC['float32']), U8, Arr(2, Char(2))),
               [([1, 2, 3], [0.5, 1.5], 7, [b'ab', b'cd']), ([4, 5, 6], [-1.0, 2.0], 8, [b'xy', b'zw'])]),
    'custom': (A(U8, CELSIUS, BOXED, U16, COLOR, TAG),
               [(1, Celsius(-3), Boxed(9), 300, Color.RED, Tag(b'xyz')),
                (2, Celsius(5), Boxed(258), 4, Color.BLUE, Tag(b'\0ab'))]),
    'customs': (A(Arr(2, CELSIUS), U32, Arr(2, BOXED), COLOR),
                [([Celsius(1), Celsius(-1)], 5, [Boxed(1), Boxed(2)], Color.BLUE),
                 ([Celsius(7), Celsius(8)], 6, [Boxed(3), Boxed(4)], Color.RED)]),
    'mixed': (A(U8, Arr(2, I16), Uni(Char(4)), CELSIUS, Pad(1), Char(3)),
              [(1, [2, -3], 'abc', Celsius(4), b'xyz'), (9, [8, 7], '\u20ac', Celsius(-5), b'   ')]),
    'one': (A(Arr(2, U8)), [([1, 2],), ([3, 4],)]),
    'one text': (A(Uni(Char(5))), [('a',), ('bcdef',)]),
}


def operations(spec, m):
    """name -> (make() -> fn, check(result) -> what is wrong)."""
    cls = spec.cls()
    enc = spec.enc(m)
    back = spec.dec(enc)[0]
    full = JUNK[:3] + enc + JUNK[:4]

    def bytes_(got):
        return None if got == enc else f'gives {got!r}, expected {enc!r}'

    def object_(got):
        d = diff(got, back)
        return d and f'gives {got!r}, expected {back!r}: {d}'

    def packing(name):
        def make(obj=None):
            obj = to_lib(m) if obj is None else obj

            def into():
                buf = bytearray(len(enc) + 4)
                obj.pack_into(buf, 3)
                return bytes(buf[3:-1])

            def write():
                s = io.BytesIO()
                obj.pack_write(s)
                return s.getvalue()
            return {'pack': obj.pack, 'pack_into': into, 'pack_write': write}[name]
        return make, bytes_

    def inplace(name, *args):
        def make(obj=None):
            o = to_lib(m)

            def go():
                getattr(o, name)(*[a() if callable(a) else a for a in args])
                return o
            return go
        return make, object_

    def stream():
        s = io.BytesIO(full)
        s.seek(3)
        return s

    def create(name, *args):
        return lambda obj=None: lambda: getattr(cls, name)(
            *[a() if callable(a) else a for a in args]), object_
    return {
        'pack': packing('pack'), 'pack_into': packing('pack_into'),
        'pack_write': packing('pack_write'),
        'create_unpack': create('create_unpack', enc + b'12'),
        'create_unpack_from': create('create_unpack_from', full, 3),
        'create_unpack_read': create('create_unpack_read', stream),
        'unpack': inplace('unpack', enc), 'unpack_from': inplace('unpack_from', full, 3),
        'unpack_read': inplace('unpack_read', stream),
    }


PAIR = []       # the threads of this process
PAIR_OF = []    # those running now


class Explorer:
    """Enumerates schedules; make() gives fresh functions for both threads."""

    def __init__(self, ctx, what):
        self.ctx, self.what = ctx, what

    def run(self, make, first, plan, opcodes):
        fns, checks = make()
        pair = PAIR.pop() if PAIR else sched.Pair()
        PAIR_OF[:] = [pair]
        results, taken = pair.run(first, fns, plan, opcodes)
        PAIR.append(pair)       # not reached if the exploration was interrupted
        self.ctx.op(2)
        self.ctx.state()
        self.ctx.trace()
        for i, (res, check) in enumerate(zip(results, checks)):
            why = f'raises {res[1]!r}' if res[0] == 'exc' else check(res[1])
            if why:
                self.ctx.fail(f'{self.what}: thread {first} starts, preempted after {plan} '
                              f'{"instructions" if opcodes else "lines"}: thread {i} {why}')
                return None
        return taken

    def one(self, make, opcodes=True, firsts=(0, 1), step=1, start=0):
        """All schedules with one preemption."""
        for first in firsts:
            n = start
            while True:
                taken = self.run(make, first, [n], opcodes)
                if taken is None:
                    return False
                if not taken:
                    break
                n += step
            self.ctx.bound('instructions' if opcodes else 'lines', n)
            self.ctx.outcome('one preemption', n)
        return True

    def two(self, make, opcodes=False, firsts=(0, 1), step=1, start=0):
        """All schedules with two preemptions."""
        for first in firsts:
            i = start
            while True:
                j = 0
                while True:
                    taken = self.run(make, first, [i, j], opcodes)
                    if taken is None:
                        return False
                    if taken < 2:
                        break
                    j += step
                    self.ctx.outcome('two preemptions')
                if taken < 1:
                    break
                i += step
        return True


OPS = ['pack', 'pack_into', 'pack_write', 'create_unpack', 'create_unpack_from',
       'create_unpack_read', 'unpack', 'unpack_from', 'unpack_read']


def use(layout, bo, a, b, mode, fresh, firsts=(0, 1), op_step=1):
    fields, (v0, v1) = LAYOUTS[layout]

    def run(ctx):
        spec = Spec('R', fields, bo)
        box = {}

        def prepare():
            if fresh or not box:
                if fresh:
                    spec._cls = None
                box['a'] = operations(spec, spec.obj(*v0))
                box['b'] = operations(spec, spec.obj(*v1))
                box['same'] = operations(spec, spec.obj(*v0))

        def make():
            prepare()
            (ma, ca), (mb, cb) = box['a'][a], box['b'][b]
            return (ma(), mb()), (ca, cb)

        def shared():
            prepare()
            obj = to_lib(spec.obj(*v0))
            (ma, ca), (mb, cb) = box['a'][a], box['same'][b]
            return (ma(obj), mb(obj)), (ca, cb)
        ex = Explorer(ctx, f'{spec}: {a} against {b}')
        makes = [make]
        if a.startswith('pack') and b.startswith('pack'):
            makes.append(shared)
        for mk in makes:
            if mode == 1:
                if not ex.one(mk, True, firsts, op_step):
                    return
            elif mode == 2:
                if not ex.two(mk, False, firsts):
                    return
            elif not ex.two(mk, True, firsts, op_step):
                return
    return run


# ------------------------------------------------- concurrent class definition
SERIAL = itertools.count()
TV = TypeVar('TV')


def defining(kind):
    """n -> (fields, values, encoding).  The combination of hints is new for
    every n (up to 1728), and the hints are forgotten before each schedule."""
    def sizes(n):
        return n % 12 + 1, n // 12 % 12 + 1, n // 144 % 12 + 1

    def char(n):
        p, q, r = sizes(n)
        return ([('a', lambda: L.char[p]), ('b', lambda: L.char[q]), ('c', lambda: L.char[r])],
                (b'a' * p, b'b' * q, b'c' * r), b'a' * p + b'b' * q + b'c' * r)

    def text(n):
        p, q, r = sizes(n)
        return ([('a', lambda: L.unicode[p, 'latin-1']), ('x', lambda: L.uint8),
                 ('b', lambda: L.unicode[q]), ('c', lambda: L.char[r])],
                ('a' * p, 7, 'b' * q, b'c' * r), b'a' * p + b'\7' + b'b' * q + b'c' * r)

    def array(n):
        p, q, r = sizes(n)
        return ([('a', lambda: L.array[L.Header[p], L.uint8]),
                 ('b', lambda: L.array[L.Header[q], L.char[2]]), ('c', lambda: L.char[r])],
                ([3] * p, [b'ab'] * q, b'c' * r), b'\3' * p + b'ab' * q + b'c' * r)

    def pad(n):
        p, q, r = sizes(n)
        return ([('_', lambda: L.pad[p]), ('a', lambda: L.uint8), ('_', lambda: L.pad[q]),
                 ('b', lambda: L.uint8), ('_', lambda: L.pad[r])],
                (1, 2), bytes(p) + b'\1' + bytes(q) + b'\2' + bytes(r))

    def pascal(n):
        p, q, r = sizes(n)
        return ([('a', lambda: L.pascal[p + 2]), ('b', lambda: L.pascal[q + 2]), ('c', lambda: L.char[r])],
                (b'ab', b'', b'c' * r),
                b'\2ab'.ljust(p + 2, b'\0') + bytes(q + 2) + b'c' * r)

    def custom(n):
        h = L.SerializeAs(L.int8)

        class C(int):
            pass
        return ([('a', lambda: Annotated[C, h]),
                 ('x', lambda: L.array[L.Header[2], Annotated[C, h]]),
                 ('b', lambda: Annotated[int, h.with_factory(lambda v: v + 0)])],
                (C(3), [C(1), C(2)], -2), b'\3\1\2\xfe')
    return locals()[kind]


def define(kind, mode, op_step=1, against=None, start=0):
    def run(ctx):
        ex = Explorer(ctx, f'defining a class ({kind}) twice' if against is None else
                      f'defining a class ({kind}) while another thread does {against}')
        spec = Spec('Used', LAYOUTS['mixed'][0], '>')
        m = spec.obj(*LAYOUTS['mixed'][1][0])
        ops = operations(spec, m)

        def make():
            n = next(SERIAL)
            sched.forget()
            if kind == 'generic':
                g = build_class('G', [('g', TV), ('h', L.array[L.Header[2], TV])], '',
                                (Generic[TV], Structured))
                n %= 12
                arg = L.char[n]
                vals = (b'a' * n, [b'b' * n, b'c' * n])
                enc = b'a' * n + b'b' * n + b'c' * n

                def go(name):
                    def fn():
                        cls = build_class(name, [('f', g[arg]), ('z', L.uint8)])
                        o = cls.create_unpack(enc + b'\5')
                        return o.attrs, o.pack(), [o.f.g, o.f.h, o.z]
                    return fn
                want = (('f', 'z'), enc + b'\5', [*vals, 5])
            else:
                hints, vals, enc = defining(kind)(n)

                def go(name):
                    def fn():
                        cls = build_class(name, [(a, h()) for a, h in hints])
                        o = cls(*vals)
                        data = o.pack()
                        back = cls.create_unpack(enc)
                        return cls.attrs, data, [getattr(back, a) for a in cls.attrs]
                    return fn
                want = (tuple(a for a, _ in hints if a != '_'), enc, list(vals))

            def check(got):
                return None if got == want else f'gives {got!r}, expected {want!r}'
            if against is None:
                return (go('A'), go('B')), (check, check)
            mk, chk = ops[against]
            return (go('A'), mk()), (check, chk)
        if mode == 1:
            ex.one(make, True, (0,) if against is None else (0, 1), op_step, start)
        elif mode == 0:
            ex.one(make, False, (0,) if against is None else (0, 1), op_step)
        elif mode == 2:
            ex.two(make, False, (0,), op_step, start)
    return run


def bodies(pads0, pads1, opcodes):
    """Class bodies full of paddings: the first thread preempted anywhere in the
    library, the other one after any statement of its own class body."""
    def run(ctx):
        ex = Explorer(ctx, f'defining classes with padding of {pads0} and {pads1} bytes')
        hints = {n: L.pad[n] for n in {*pads0, *pads1}}

        def check(pads):
            def fn(cls):
                got = cls(2).pack()
                return None if got == bytes(sum(pads)) + b'\2' else f'gives a class that packs to {got!r}'
            return fn
        checks = check(pads0), check(pads1)

        def make(stop):
            def go(pads, stop):
                def body(ns):
                    for i, n in enumerate(pads):
                        if i == stop:
                            PAIR_OF[0].left = 0     # the next point is in the library
                        ns['__annotations__']['_'] = hints[n]
                    ns['__annotations__']['b'] = L.uint8
                return lambda: types.new_class('A', (Structured,), exec_body=body)
            return (go(pads0, None), go(pads1, stop)), checks
        for stop in range(1, len(pads1)):
            n = 0
            while taken := ex.run(lambda: make(stop), 0, [n, sched.INF - 1], opcodes):
                ctx.outcome(f'{taken} preemptions')
                n += 1
            if taken is None:
                return
            ctx.bound('points', n)
    return run


DEFS = ['char', 'text', 'array', 'pad', 'pascal', 'custom', 'generic']


def cases(tier):
    quick = tier == 'quick'
    bos = ['', '>', '<', '!', '=', '@']
    for a, b in ((1,), (1, 2)), ((1, 2), (2, 1, 3)), ((1,), (1, 2, 3)):
        yield f'bodies:{a}:{b}', bodies(a, b, False)
        if not quick:
            yield f'bodies:{a}:{b}:instructions', bodies(a, b, True)
    for i, k in enumerate(DEFS):
        yield f'define:{k}', define(k, 0)
        for s in ('pack', 'create_unpack_read') if quick else OPS:
            yield f'define:{k}:against {s}', define(k, 0, 2 if quick else 1, s)
        if not quick:
            for p in range(4):
                yield f'define1:{k}:{p}', define(k, 1, 4, None, p)
    for i, layout in enumerate(LAYOUTS):
        for j, (a, b) in enumerate(itertools.combinations_with_replacement(OPS, 2)):
            n = i + j
            bo = bos[n % 6]
            if quick:
                # lines for every pair; instructions for a third of them
                yield f'two:{layout}:{a}|{b}/{bo}', use(layout, bo, a, b, 2, False, ((n % 2),))
                if n % 3 == 0:
                    yield f'one:{layout}:{a}|{b}/{bo}', use(layout, bo, a, b, 1, n % 2 == 0)
            else:
                for f in (False, True):
                    yield f'one:{layout}:{a}|{b}/{bo}/{f}', use(layout, bo, a, b, 1, f)
                yield f'two:{layout}:{a}|{b}/{bo}', use(layout, bo, a, b, 2, False)
    if not quick:
        for i, k in enumerate(DEFS):
            for s in range(8):
                yield f'define2:{k}:{s}', define(k, 2, 24, None, 3 * s)
        for i, layout in enumerate(LAYOUTS):
            for j, (a, b) in enumerate(itertools.product(OPS[::2], OPS[::2])):
                yield f'deep:{layout}:{a}|{b}', use(layout, bos[(i + j) % 6], a, b, 3, False, (0,), 4)
