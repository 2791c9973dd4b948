"""C22 User callbacks may use the library re-entrantly."""
import io
import itertools
import struct

from mc.kinds import NAMED
from mc.lib import L
from mc.model import (
    I32, U16, U32, U64, U8, Ahead, Arr, Back, Basic, Char, CharDyn, CharNET, CharTerm, Cond, Nest,
    SelfT, SerAs, Spec, Tup, Uni, diff, to_lib)
from mc.ops import JUNK, attempt
from mc.space import ALL_BO

ID = 'C22'
LEVEL = 'model_checking'
RULE = ('callback kind (condition, look-back and look-ahead decider, factory, factory of what is '
        'peeked, custom value, text encoder/decoder) x type it wraps x where it sits (field, '
        'array, tuple, record, union, condition, recursion) x outer method x which invocation '
        '(each one, all) x inner record (the same class, a class sharing the type, one sharing '
        'the callback, one sharing the container) x inner method; and an exception at each '
        'invocation. state = (outer, method, invocation, inner, inner method), transition = '
        'operation')
ASSUMPTIONS = ['callbacks answer the same with and without the inner operation']


# what a callback may raise; not StopIteration, which Python turns into a RuntimeError in a
# generator, nor OverflowError, which its struct module turns into its own error
RAISED = [AttributeError, KeyError, IndexError, LookupError, ValueError, TypeError, NameError,
          AssertionError, EOFError, OSError, RuntimeError, NotImplementedError,
          struct.error, UnicodeError]


class Boom(Exception):
    pass


class Hook:
    """What callbacks do besides answering."""

    def __init__(self):
        self.fn, self.count, self.busy, self.depth = None, 0, 0, 1

    def tick(self):
        if self.fn is None or self.busy >= self.depth:
            return
        i = self.count
        self.count += 1
        self.busy += 1
        try:
            self.fn(i)
        finally:
            self.busy -= 1


HOOK = Hook()


def tick(value):
    HOOK.tick()
    return value


class Val:
    """A custom value (made by a factory, packed through __index__)."""

    def __init__(self, n):
        self.n = n

    def __index__(self):
        return tick(self.n)

    def __eq__(self, o):
        return type(o) is Val and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f'Val({self.n})'


class Codec(L.EncoderDecoder):
    @classmethod
    def encode(cls, s):
        return tick(s).encode('utf-8')

    @classmethod
    def decode(cls, b):
        return tick(bytes(b)).decode('utf-8')


FACTORY16 = SerAs(U16, Val, lambda n: tick(Val(n)))
FACTORY8 = SerAs(U8, Val, lambda n: tick(Val(n)))



def key(o):
    """What types ask the record they are in, if it has it."""
    return getattr(o, 'k', 2) & 1


KEYED = Back(key, {0: U32, 1: U16})

TYPES = {
    'keyed': (KEYED, [258, 3]),
    'keyeds': (Arr(U8, Tup(U8, KEYED, CharDyn(U8))), [[(1, 2, b'')], [(1, 515, b'k'), (2, 3, b'')]]),
    'sometimes': (Tup(U8, Cond(key, CharDyn(U8), b'default'), U8), [(1, b'default', 2), (3, b'default', 4)]),
    'keyed peek': (Ahead(KEYED, lambda o: 7, {7: Tup(KEYED, CharDyn(U8)), 2: U64}), [(7, b''), (7, b'p')]),
    'union of keyed': (Back(lambda o: 1, {1: KEYED, 2: U64}), [7, 70]),
    'u16': (U16, [258, 3]),
    'char': (Char(3), [b'abc', b'xyz']),
    'dyn': (CharDyn(U16), [b's', b'a longer string']),
    'term': (CharTerm(b'\0'), [b'', b'terminated']),
    'net': (CharNET(), [b'x', b'n' * 130]),
    'uni': (Uni(CharDyn(U8), 'utf8'), ['\u20ac', 'more text']),
    'nums': (Arr(U8, U16), [[1], [1, 2, 3]]),
    'fixed': (Arr(2, I32), [[1, 2], [3, 4]]),
    'strs': (Arr(U8, CharDyn(U8)), [[b'q'], [b'', b'abc', b'd']]),
    'sized': (Arr(U8, CharDyn(U8), U32), [[], [b'', b'abc', b'd']]),
    'tup': (Tup(U8, CharDyn(U8), U16), [(1, b'', 2), (3, b'long', 4)]),
    'rec': (Nest(NAMED), [NAMED.obj(1, b''), NAMED.obj(2, b'named')]),
    'recs': (Arr(U8, Nest(NAMED)), [[NAMED.obj(1, b'1')], [NAMED.obj(2, b'22'), NAMED.obj(3, b'')]]),
    'union': (Back(lambda o: 1, {1: CharDyn(U8), 2: U64}), [b'u', b'union']),
    'cond': (Cond(lambda o: True, CharDyn(U8), None), [b'c', b'cond']),
    'ahead': (Ahead(U8, lambda o: 1, {1: Tup(U8, CharDyn(U8)), 2: U64}), [(1, b''), (1, b'ahead')]),
}


def callbacks(t, vals):
    """Types with a callback in (or around) t, with two values."""
    yield 'present', Cond(lambda o: tick(True), t, 'absent'), vals
    yield 'absent', Cond(lambda o: tick(False), t, 'absent'), ['absent'] * 2
    yield 'lookback', Back(lambda o: tick(1), {1: t, 2: U64}), vals
    yield 'lookback default', Back(lambda o: tick(1), {2: U64}, t), vals
    yield 'lookahead', Ahead(U8, lambda o: tick(7), {7: Tup(U8, t), 2: U64}), [(7, v) for v in vals]
    yield 'peek', Ahead(FACTORY8, lambda o: Val(7), {Val(7): Tup(U8, t), Val(2): U64}), [
        (7, v) for v in vals]
    yield 'factory', Tup(FACTORY16, t), [(Val(9), v) for v in vals]
    yield 'factories', Tup(t, Arr(U8, FACTORY16), t), [
        (vals[0], [Val(9)], vals[0]), (vals[1], [Val(8), Val(7), Val(6)], vals[1])]
    yield 'sized factories', Arr(U8, Tup(FACTORY8, t), U16), [
        [(Val(1), vals[0])], [(Val(8), vals[1]), (Val(7), vals[0])]]
    if isinstance(t, (Char, CharDyn, CharTerm, CharNET)):
        yield 'codec', Uni(t, Codec), ['ab', 'no\u20ac' if not isinstance(t, Char) else 'c']
        yield 'codecs', Arr(U8, Uni(t, Codec)), [['a'], ['bc', 'd']]
    if isinstance(t, CharDyn):
        yield 'codec in tuple', Tup(t, Uni(t, Codec), t), [(b'1', 'x', b'234'), (b'2345', 'xyz', b'')]


def layouts(cb, cvals, t, tvals):
    (c0, c1), (v0, v1) = cvals, tvals
    yield 'field', [('k', U8), ('a', t), ('x', cb), ('b', t), ('z', U16)], [
        (1, v0, c1, v1, 2), (2, v1, c0, v0, 2)]
    yield 'keyed alone', [('k', U8), ('x', cb)], [(1, c0), (2, c1)]
    yield 'alone', [('x', cb)], [(c0,), (c1,)]
    yield 'twice', [('x', cb), ('y', cb), ('z', U8)], [(c0, c1, 1), (c1, c0, 2)]
    yield 'array', [('k', U8), ('x', Arr(U8, cb)), ('b', t)], [(1, [c0, c1], v1), (2, [c1], v0)]
    yield 'sized', [('x', Arr(2, cb, U32)), ('b', t)], [([c1, c0], v1), ([c0, c0], v0)]
    yield 'tuple', [('x', Tup(t, cb, t)), ('z', U16)], [((v0, c1, v1), 5), ((v1, c0, v0), 6)]
    inner = Spec('Inner', [('a', t), ('x', cb), ('b', t)], '>')
    yield 'record', [('k', U8), ('r', Nest(inner)), ('b', t)], [
        (1, inner.obj(v0, c1, v1), v0), (2, inner.obj(v1, c0, v0), v1)]
    yield 'records', [('r', Arr(U8, Nest(inner))), ('b', t)], [
        ([inner.obj(v0, c1, v1), inner.obj(v1, c1, v0)], v0), ([inner.obj(v0, c0, v0)], v1)]
    yield 'in union', [('k', U8), ('x', Back(lambda o: 1, {1: Tup(cb, t), 2: U64})), ('b', t)], [
        (1, (c0, v1), v0), (2, (c1, v0), v1)]
    yield 'in cond', [('k', U8), ('x', Cond(lambda o: True, Tup(t, cb), None)), ('b', t)], [
        (1, (v0, c1), v0), (2, (v1, c0), v1)]
    yield 'in peeked', [('k', U8), ('x', Ahead(U8, lambda o: 3, {3: Tup(U8, cb, t)}, U64)), ('b', t)], [
        (1, (3, c1, v0), v0), (2, (3, c0, v1), v1)]
    node = Spec('Node', [('x', cb), ('v', t), ('kids', Arr(U8, SelfT()))], '')
    leaf = node.obj(c0, v1, [])
    yield 'tree', [('r', Nest(node)), ('b', t)], [
        (node.obj(c1, v0, [leaf, node.obj(c1, v1, [leaf])]), v1), (leaf, v0)]


def operations(spec, m):
    """name -> fn() -> (result, size, position or None); and the expected."""
    cls = spec.cls()
    enc = spec.enc(m)
    back = spec.dec(enc)[0]
    full = JUNK[:3] + enc + JUNK[:4]
    n = len(enc)

    def into():
        buf = bytearray(n + 5)
        o = to_lib(m)
        o.pack_into(buf, 2)
        return bytes(buf[2:-3]), o.serializer.size, None

    def write():
        s = io.BytesIO()
        s.write(b'12')
        o = to_lib(m)
        o.pack_write(s)
        return s.getvalue()[2:], o.serializer.size, s.tell() - 2

    def pack():
        o = to_lib(m)
        return o.pack(), o.serializer.size, None

    def read(inplace):
        def go():
            s = io.BytesIO(full)
            s.seek(3)
            if inplace:
                o = to_lib(m)
                o.unpack_read(s)
            else:
                o = cls.create_unpack_read(s)
            return o, cls.serializer.size, s.tell() - 3
        return go

    def new(fn):
        return lambda: (fn(), cls.serializer.size, None)

    def old(name, *args):
        def go():
            o = to_lib(m)
            getattr(o, name)(*args)
            return o, cls.serializer.size, None
        return go
    ops = {
        'pack': pack, 'pack_into': into, 'pack_write': write,
        'create_unpack': new(lambda: cls.create_unpack(enc + JUNK[:2])),
        'create_unpack_from': new(lambda: cls.create_unpack_from(full, 3)),
        'create_unpack_read': read(False),
        'unpack': old('unpack', memoryview(enc)),
        'unpack_from': old('unpack_from', bytearray(full), 3),
        'unpack_read': read(True),
    }

    def wrong(name, res):
        """None if the result of operation `name` is right."""
        if res[0] == 'exc':
            return f'raises {res[1]!r}'
        got, size, pos = res[1]
        if name.startswith('pack'):
            if got != enc:
                return f'gives {got!r}, expected {enc!r}'
        else:
            d = diff(got, back)
            if d:
                return f'gives {got!r}, expected {back!r}: {d}'
        if size != n:
            return f'the size is {size}, expected {n}'
        if pos not in (None, n):
            return f'the stream is {pos} bytes on, expected {n}'
    return ops, wrong


def explore(spec, m, inners, methods, depth):
    def run(ctx):
        ops, wrong = operations(spec, m)
        inner = [(s, x, *operations(s, x)) for s, x in inners]
        HOOK.fn, HOOK.busy, HOOK.depth = None, 0, depth

        def alone(what):
            HOOK.fn = None
            for name, fn in ops.items():
                d = wrong(name, attempt(fn))
                ctx.op()
                if d:
                    ctx.fail(f'{spec}: {m}: {what}{name}: {d}', 'alone')
                    return False
            return True
        if not alone(''):
            return
        for name, fn in ops.items():
            HOOK.fn, HOOK.count, HOOK.busy = (lambda i: None), 0, 0
            fn()
            calls = HOOK.count
            ctx.bound('invocations', calls)
            for at in [*range(min(calls, 6)), None] if calls else ():
                for s, x, iops, iwrong in inner:
                    for iname in methods if methods else iops:
                        bad = []

                        def act(i):
                            if at is None or i == at or HOOK.busy > 1:
                                d = iwrong(iname, attempt(iops[iname]))
                                ctx.op()
                                if d:
                                    bad.append(d)
                        HOOK.fn, HOOK.count, HOOK.busy = act, 0, 0
                        res = attempt(fn)
                        HOOK.fn = None
                        ctx.op()
                        ctx.state()
                        what = (f'{spec}: {name} of {m}, with {iname} of {x} ({s}) in invocation '
                                f'{"all" if at is None else at} of the callback: ')
                        d = wrong(name, res)
                        if d:
                            return ctx.fail(what + d, f'{name}/{iname}')
                        if bad:
                            return ctx.fail(what + f'the inner operation {bad[0]}', f'{name}/{iname}')
                        ctx.outcome('same result')
            # whatever it is that the callback raises
            for err in [kind('callback') for kind in RAISED] if calls else []:
                at = calls - 1

                def act(i):
                    if i == at:
                        raise err
                HOOK.fn, HOOK.count, HOOK.busy = act, 0, 0
                res = attempt(fn)
                HOOK.fn = None
                ctx.op()
                if res[0] == 'ok' or res[1] is not err:
                    return ctx.fail(f'{spec}: {name} of {m}: {err!r} raised by the callback '
                                    f'gives {res[1]!r}', f'{name}/{type(err).__name__}')
            if calls and not alone(f'after exceptions in {name}, '):
                return
            for at in range(min(calls, 6)):
                err = Boom(at)

                def act(i):
                    if i == at:
                        raise err
                HOOK.fn, HOOK.count, HOOK.busy = act, 0, 0
                res = attempt(fn)
                HOOK.fn = None
                ctx.op()
                ctx.state()
                if res[0] == 'ok' or res[1] is not err:
                    return ctx.fail(f'{spec}: {name} of {m}: the exception of invocation {at} of the '
                                    f'callback gives {res[1]!r}', f'{name}/raise')
                if not alone(f'after an exception in {name}, '):
                    return
                # an exception inside an inner operation
                for s, x, iops, iwrong in inner:
                    for iname in (methods or iops):
                        def act(i):
                            if HOOK.busy == 1 and i == at:
                                HOOK.depth = 2
                                try:
                                    iops[iname]()
                                except Boom:
                                    pass
                                finally:
                                    HOOK.depth = depth
                            elif HOOK.busy == 2:
                                raise err
                        HOOK.fn, HOOK.count, HOOK.busy = act, 0, 0
                        res = attempt(fn)
                        HOOK.fn = None
                        ctx.op()
                        ctx.state()
                        d = wrong(name, res)
                        if d:
                            return ctx.fail(f'{spec}: {name} of {m}, with a failing {iname} of {x} ({s}) '
                                            f'in invocation {at}: {d}', f'{name}/{iname}/raise')
                ctx.outcome('exception passed on')
        ctx.trace()
    return run


def cases(tier):
    quick = tier == 'quick'
    n = 0
    for tname, (t, tvals) in TYPES.items():
        for cname, cb, cvals in callbacks(t, tvals):
            for lname, fields, insts in layouts(cb, cvals, t, tvals):
                for bo in ALL_BO if not quick else (ALL_BO[n % 6],):
                    n += 1
                    spec = Spec('Outer', fields, bo)
                    same = Spec('Shares', [('s', t), ('e', U8)], bo)
                    shared_cb = Spec('SharesCallback', [('q', U16), ('x', cb), ('y', t)], bo)
                    lone = Spec('SharesAlone', [('x', cb)], bo)
                    # `k`, which some types ask for, stays first
                    at = int(fields[0][0] == 'k')
                    shared_all = Spec('SharesAll', fields[:at] + fields[at:][::-1], bo)
                    for i in (0, 1):
                        inners = [(spec, spec.obj(*insts[1 - i])),
                                  (same, same.obj(tvals[1 - i], 3)),
                                  (shared_cb, shared_cb.obj(1, cvals[i], tvals[i])),
                                  (lone, lone.obj(cvals[1 - i])),
                                  (shared_all, shared_all.obj(*insts[1 - i][:at], *insts[1 - i][at:][::-1]))]
                        methods = None
                        if quick:
                            all_ = ['pack', 'pack_into', 'pack_write', 'create_unpack',
                                    'create_unpack_from', 'create_unpack_read', 'unpack',
                                    'unpack_from', 'unpack_read']
                            methods = [all_[n % 3], all_[3 + n % 6]]
                            inners = [inners[0], inners[1 + n % 4], inners[1 + (n + 1 + i) % 4]]
                        yield (f'{cname}:{tname}:{lname}/{bo}/{i}',
                               explore(spec, spec.obj(*insts[i]), inners, methods, 1))
                        if not quick:
                            yield (f'deep:{cname}:{tname}:{lname}/{bo}/{i}',
                                   explore(spec, spec.obj(*insts[i]), inners[:3],
                                           ['pack', 'create_unpack_read', 'unpack_from'], 2))
