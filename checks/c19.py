"""C19 Combining serializers is concatenation."""
import io
import itertools
import struct

from mc.kinds import NAMED, POINT_BE
from mc.lib import BO, CompoundSerializer, NullSerializer, Serializer, StructActionSerializer, \
    StructSerializer, TupleSerializer
from mc.model import (
    I32, U16, U32, U8, Ahead, Arr, Back, Basic, Char, CharDyn, CharEnd, CharNET, CharTerm, Cond,
    Nest, Spec, Tup, Uni, build_class, diff, sunpack, to_lib)
from mc.ops import JUNK, attempt
from mc.space import ALL_BO

ID = 'C19'
LEVEL = 'model_checking'
RULE = ('all expressions over an alphabet of leaves (basic formats with and without actions, '
        'null, variable-size, container, record and multi-part serializers): every leaf '
        'sequence up to length 3 (4 over a core alphabet) x every grouping with + and sum, '
        'x n for n up to 6 and around 10, 100 and 1000, and every change of byte order before and after joining. state = '
        '(expression, values), transition = operation of the resulting serializer. The model '
        'is a flat list of types')
ASSUMPTIONS = ["byte orders that mean the same ('' and '@', '>' and '!') may or may not be "
               'joinable; containers are prepared with prepack/preunpack before use, as the '
               'API asks']


class Act(Basic):
    """A basic value the serializer transforms when unpacking."""

    def __init__(self, fmt, i):
        self.fmt, self.i, self.name = fmt, i, f'{fmt}~{i}'

    def fn(self, v):
        return ('act', self.i, v)

    def wrap(self, v):
        return self.fn(v)

    def raw(self, v):
        return v[2] if isinstance(v, tuple) else v


class Fmt(Basic):
    def __init__(self, fmt):
        self.fmt = self.name = fmt
        self.nvals = 0 if fmt[-1:] in ('x', '') or fmt in ('0i',) else 1


class Leaf:
    """A serializer and its model: the flat list of types it stands for."""

    def __init__(self, name, types, values, make, bo='', container=False, pinned=()):
        self.name, self.types, self.values = name, types, values
        self.make, self.bo, self.container = make, bo, container
        self.items = [(t, bo) for t in types]

    def __repr__(self):
        return f'{self.name}{self.bo}'


def basic(fmts, values, bo='', actions=()):
    types = []
    for i, f in enumerate(fmts):
        t = Fmt(f)
        if actions and t.nvals:
            k = sum(x.nvals for x in types)
            if actions[k] is not None:
                t = Act(f, actions[k])
        types.append(t)
    s = ''.join(fmts)
    if actions:
        fns = tuple((lambda v, a=a: ('act', a, v)) if a is not None else (lambda v: v)
                    for a in actions)
        return Leaf(f'action[{s}:{actions}]', types, values,
                    lambda: StructActionSerializer(s, BO[bo], fns), bo)
    return Leaf(f'{s}', types, values, lambda: StructSerializer(s, BO[bo]), bo)


def field(name, t, value, bo='', container=False):
    """The serializer of a record with one field."""
    return Leaf(name, [t], [value],
                lambda: build_class('R', [('f', t.hint())], bo).serializer, bo, container)


def many(name, types, values, bo='', container=False):
    return Leaf(name, types, values,
                lambda: build_class('R', [(f'f{i}' if t.nvals else '_', t.hint())
                                          for i, t in enumerate(types)], bo).serializer,
                bo, container)


NULL = Leaf('null', [], [], NullSerializer)


def leaves(bo):
    return [
        basic(['B'], [7], bo), basic(['b'], [-3], bo), basic(['B', 'B', 'i'], [1, 2, -3], bo),
        basic(['i'], [-70000], bo), basic(['2x'], [], bo), basic(['x'], [], bo),
        basic(['3s'], [b'abc'], bo), basic(['s'], [b'q'], bo), basic(['4p'], [b'xyz'], bo),
        basic(['0s'], [b''], bo), basic(['?'], [True], bo), basic(['d'], [0.1], bo),
        basic(['B', 'x', 'i', 'x'], [1, 9], bo), basic([''], [], bo),
        basic(['H', 'H'], [258, 1], bo), basic(['c'], [b'z'], bo),
        basic(['B'], [8], bo, (1,)), basic(['i', 'B'], [-4, 5], bo, (2, 3)),
        basic(['3s', 'B'], [b'uvw', 5], bo, (4, None)), basic(['x', 'H'], [300], bo, (5,)),
        NULL,
        field('dyn16', CharDyn(U16), b'dyn', bo), field('term', CharTerm(b'\0'), b'term', bo),
        field('net', CharNET(), b'net', bo), field('uni32', Uni(CharDyn(U32)), 'h\u00e9', bo),
        field('arr16', Arr(U16, I32), [1, -2], bo), field('fix', Arr(2, U16), [1, 258], bo),
        field('rec', Nest(NAMED), NAMED.obj(1, b'r'), bo),
        field('recbe', Nest(POINT_BE), POINT_BE.obj(1, 258), bo),
        field('strs', Arr(U16, CharDyn(U16)), [b'a', b''], bo, True),
        field('tup', Tup(U16, CharDyn(U32)), (258, b't'), bo, True),
        field('cond', Cond(lambda o: True, U16, None), 772, bo, True),
        field('union', Back(lambda o: 1, {1: CharDyn(U16), 2: U8}), b'u', bo, True),
        field('ahead', Ahead(U8, lambda o: 1, {1: Tup(U8, U16)}, U8), (1, 258), bo, True),
        many('multi', [U8, CharDyn(U16), U32], [1, b'm', 5], bo),
        many('multi2', [CharTerm(b'\0'), U8, U32, CharNET()], [b'm', 1, 5, b''], bo),
        many('multi3', [U16, Tup(U8, U32), U8], [258, (1, 2), 3], bo, True),
        many('multi4', [Arr(U8, CharDyn(U8)), U8, CharDyn(U8)], [[b'1'], 1, b'2'], bo, True),
    ]


ENDS = [field('end', CharEnd(), b'the rest'), many('toend', [U8, CharEnd()], [1, b'rest'], '>')]


# ------------------------------------------------------------------ the model
def runs_of(items):
    """Adjacent basic formats are one; None if their byte orders clash."""
    out = []
    for t, bo in items:
        if t.basic and out and out[-1][0][0].basic:
            if out[-1][1] != bo:
                return None
            out[-1][0].append(t)
        else:
            out.append(([t], bo))
    return out


def same_order(items):
    """Does refusing/accepting depend on '' and '@' (or '>' and '!') being one?"""
    canon = {'@': '', '!': '>', '=': '<'}
    return runs_of([(t, canon.get(bo, bo)) for t, bo in items]) is not None


def fmt_of(ts):
    return ''.join(t.fmt for t in ts)


def encode(items, values):
    out, i = b'', 0
    for ts, bo in runs_of(items):
        n = sum(t.nvals for t in ts)
        vs = values[i:i + n]
        i += n
        if ts[0].basic:
            raw = [t.raw(v) for t, v in zip([t for t in ts if t.nvals], vs)]
            out += struct.pack(bo + fmt_of(ts), *raw)
        else:
            out += ts[0].enc(vs[0], bo, None)
    return out


def decoded(items, values):
    """What unpacking gives back."""
    ts = [t for t, _ in items if t.nvals]
    return [t.wrap(v) if t.basic else v for t, v in zip(ts, values)]


def snapshot(s):
    return (type(s).__name__, getattr(s, 'format', None), getattr(s, 'actions', None),
            getattr(s, 'num_values', None),
            tuple(map(id, s.serializers)) if isinstance(s, CompoundSerializer) else None)


def verify(ctx, what, ser, items, values, container, final=False):
    """The serializer is the concatenation of items."""
    fail = lambda why: ctx.fail(f'{what}: {why}', what) or False
    if not isinstance(ser, Serializer):
        return fail(f'is {ser!r}')
    if ser.num_values != len(values):
        return fail(f'num_values is {ser.num_values}, expected {len(values)}')
    want = encode(items, values)
    back = decoded(items, values)
    lv = [to_lib(v) for v in values]
    ways = [('prepared', lambda: ser.prepack(None), lambda: ser.preunpack(None))]
    if not container:
        ways.append(('direct', lambda: ser, lambda: ser))
    for way, p, u in ways:
        ctx.op(6)
        ctx.state()
        s = p()
        got = s.pack(*lv)
        if got != want or s.size != len(want) or ser.size != len(want):
            return fail(f'{way} pack gives {got!r} (size {s.size}/{ser.size}), expected {want!r}')
        for off in (0, 3):
            buf = bytearray(JUNK[:3] + bytes(len(want)) + JUNK[:4])
            exp = bytearray(buf)
            exp[off:off + len(want)] = want
            s = p()
            s.pack_into(buf, off, *lv)
            if buf != exp or s.size != len(want):
                return fail(f'{way} pack_into gives {bytes(buf)!r} (size {s.size}), '
                            f'expected {bytes(exp)!r}')
        out = io.BytesIO(b'old data')
        out.seek(3)
        s = p()
        s.pack_write(out, *lv)
        if out.getvalue()[:3 + len(want)] != b'old' + want or out.tell() != 3 + len(want) \
                or s.size != len(want):
            return fail(f'{way} pack_write gives {out.getvalue()!r}, expected {want!r}')
        post = b'' if final else JUNK[:3]
        full = JUNK[:4] + want + post
        st = io.BytesIO(full)
        st.seek(4)
        for name, fn in (('unpack', lambda s: s.unpack(want + post)),
                         ('unpack bytearray', lambda s: s.unpack(bytearray(want + post))),
                         ('unpack_from', lambda s: s.unpack_from(full, 4)),
                         ('unpack_from 0', lambda s: s.unpack_from(want + post)),
                         ('unpack_from memoryview', lambda s: s.unpack_from(memoryview(full), offset=4)),
                         ('unpack_read', lambda s: s.unpack_read(st))):
            s = u()
            got = list(fn(s))
            ctx.op()
            if len(got) != len(back):
                return fail(f'{way} {name} gives {got!r}, expected {back!r}')
            for g, w in zip(got, back):
                d = diff(g, w)
                if d:
                    return fail(f'{way} {name} gives {got!r}, expected {back!r}: {d}')
            if s.size != len(want) or ser.size != len(want):
                return fail(f'{way} {name}: size {s.size}/{ser.size}, expected {len(want)}')
        if st.tell() != 4 + len(want):
            return fail(f'{way} unpack_read ends {st.tell() - 4} bytes in, expected {len(want)}')
        if not final:
            for cut in {0, len(want) // 2, len(want) - 1} - {-1}:
                part = want[:cut]
                if cut == len(want):
                    continue
                for name, fn in (('unpack', lambda: list(u().unpack(part))),
                                 ('unpack_from', lambda: list(u().unpack_from(JUNK[:1] + part, 1))),
                                 ('unpack_read', lambda: list(u().unpack_read(io.BytesIO(part))))):
                    if attempt(fn)[0] == 'ok':
                        return fail(f'{way} {name} accepts the truncated {part!r} of {want!r}')
                    ctx.op()
    if not container and lv and all(t.basic for t, _ in items):
        for bad in (lv[:-1], lv + lv[-1:]):
            if attempt(lambda: ser.pack(*bad))[0] == 'ok':
                return fail(f'packs {len(bad)} values instead of {len(lv)}')
    ctx.trace()
    return True


def groupings(seq):
    """Every way to bracket a sum: (name, build(list of operands))."""
    if len(seq) == 1:
        yield str(seq[0]), lambda ops, i=seq[0]: ops[i]
        return
    for k in range(1, len(seq)):
        for (ln, l), (rn, r) in itertools.product(groupings(seq[:k]), groupings(seq[k:])):
            yield f'({ln}+{rn})', lambda ops, l=l, r=r: l(ops) + r(ops)


def joins(n):
    yield from groupings(list(range(n)))
    yield 'sum', lambda ops: sum(ops, NullSerializer())
    if n > 2:
        yield 'sum of rest', lambda ops: ops[0] + sum(ops[1:], NullSerializer())
        yield 'running', lambda ops: ops[0] + (sum(ops[1:-1], NullSerializer()) + ops[-1])


JOINS = {n: list(joins(n)) for n in range(1, 6)}


def with_bo(items, bo):
    return [(t, bo) for t, _ in items]


def explore(parts, retarget=()):
    def run(ctx):
        cached = {}
        ops = [cached.setdefault(id(p), p.make()) for p in parts]     # shared when repeated
        items = [x for p in parts for x in p.items]
        values = [v for p in parts for v in p.values]
        container = any(p.container for p in parts)
        before = [snapshot(o) for o in ops]
        ok = runs_of(items) is not None
        inner_final = any(t.final for t, _ in items[:-1])
        final = any(t.final for t, _ in items)
        for name, build in JOINS[len(parts)]:
            what = f'{"+".join(map(str, parts))} as {name}'
            res = attempt(build, ops)
            ctx.op()
            if inner_final:
                # something follows a serializer that reads to the end
                if res[0] == 'ok' or not isinstance(res[1], TypeError if ok else (
                        TypeError, ValueError)):
                    return ctx.fail(f'{what}: {res[1]!r}, but only the last may read to the end', what)
                ctx.outcome('refused: final')
            elif not ok:
                if same_order(items):
                    ctx.skip('byte orders that mean the same here')
                    continue
                if res[0] == 'ok' or not isinstance(res[1], ValueError):
                    return ctx.fail(f'{what}: {res[1]!r}, but the byte orders differ', what)
                ctx.outcome('refused: byte order')
            elif res[0] == 'exc':
                return ctx.fail(f'{what} raises {res[1]!r}', what)
            else:
                if all(t.basic for t, _ in items) and items:
                    if not isinstance(res[1], StructSerializer):
                        return ctx.fail(f'{what} is {res[1]!r}, not one struct format', what)
                if not verify(ctx, what, res[1], items, values, container, final):
                    return
                ctx.outcome('joined')
                for bo in retarget:
                    its = with_bo(items, bo)
                    w2 = f'({what}).with_byte_order({bo!r})'
                    if not verify(ctx, w2, res[1].with_byte_order(BO[bo]), its, values, container, final):
                        return
                    if not verify(ctx, what, res[1], items, values, container, final):
                        return
            for p, o, b in zip(parts, ops, before):
                if snapshot(o) != b:
                    return ctx.fail(f'{what}: operand {p} became {snapshot(o)}, was {b}', what)
        for bo in retarget:
            its = with_bo(items, bo)
            if inner_final:
                continue
            moved = [o.with_byte_order(BO[bo]) for o in ops]
            for name, build in JOINS[len(parts)]:
                what = f'{"+".join(map(str, parts))}, each to {bo!r}, as {name}'
                if not verify(ctx, what, build(moved), its, values, container, final):
                    return
        for p, o, b in zip(parts, ops, before):
            if snapshot(o) != b:
                return ctx.fail(f'operand {p} became {snapshot(o)}, was {b}')
            if not verify(ctx, f'operand {p} afterwards', o, p.items, p.values, p.container,
                          any(t.final for t in p.types)):
                return
    return run


def times(p, parts_after, parts_before, tier):
    """leaf * n, alone and inside a sum."""
    def run(ctx):
        op = p.make()
        b = snapshot(op)
        for n in range(7):
            for where in ('alone', 'after', 'before', 'twice'):
                its, vals = p.items * n, p.values * n
                res = op * n
                ctx.op()
                if where == 'alone':
                    ser = res
                elif where == 'after':
                    for q in parts_after:
                        qs = q.make()
                        if not verify(ctx, f'{p}*{n}+{q}', (op * n) + qs, its + q.items,
                                      vals + q.values, q.container):
                            return
                    continue
                elif where == 'before':
                    for q in parts_before:
                        qs = q.make()
                        if not verify(ctx, f'{q}+{p}*{n}', qs + (op * n), q.items + its,
                                      q.values + vals, q.container):
                            return
                    continue
                else:
                    ser = res * 2 if n else res
                    if n:
                        its, vals = its * 2, vals * 2
                if not verify(ctx, f'{p}*{n} {where}', ser, its, vals, False):
                    return
                for bo in ALL_BO:
                    if not verify(ctx, f'{p}*{n} {where} to {bo!r}', ser.with_byte_order(BO[bo]),
                                  with_bo(its, bo), vals, False):
                        return
                    if not verify(ctx, f'({p} to {bo!r})*{n}', op.with_byte_order(BO[bo]) * n,
                                  with_bo(p.items * n, bo), p.values * n, False):
                        return
            if snapshot(op) != b:
                return ctx.fail(f'{p}*{n}: operand became {snapshot(op)}, was {b}')
        for bad in (-1, -5):
            res = attempt(lambda: op * bad)
            if res[0] == 'ok' or not isinstance(res[1], ValueError):
                return ctx.fail(f'{p}*{bad}: {res[1]!r}')
        if snapshot(op) != b:
            return ctx.fail(f'{p}: operand became {snapshot(op)}, was {b}')
        ctx.outcome('multiplied', 7)
    return run


COUNTS = (1, 2, 8, 9, 10, 11, 90, 91, 99, 100, 101)


def multiples(p, q):
    """Multiplicities of several digits, alone, summed with each other, with
    another operand between them, and multiplied again."""
    def run(ctx):
        op, other = p.make(), q.make()
        for n in COUNTS + (256, 1000):
            if not verify(ctx, f'{p}*{n}', op * n, p.items * n, p.values * n, False):
                return
        for n in (4100, 10001) if len(p.items) == 1 and p.items[0][0].fmt in list('bi?dc') else ():
            ser = op * n
            if ser.num_values != n or ser.pack(*p.values * n) != op.pack(*p.values) * n:
                return ctx.fail(f'{p}*{n} handles {ser.num_values} values')
            ctx.op(2)
        for n, k in itertools.product(COUNTS, repeat=2):
            if not verify(ctx, f'{p}*{n}+{p}*{k}', op * n + op * k, p.items * (n + k),
                          p.values * (n + k), False):
                return
            if k <= 11:
                if not verify(ctx, f'{p}*{n}+{q}+{p}*{k}', op * n + other + op * k,
                              p.items * n + q.items + p.items * k,
                              p.values * n + q.values + p.values * k, q.container):
                    return
            if n <= 11 and k <= 11:
                if not verify(ctx, f'({p}*{n}+{q})*{k}' if isinstance(other, StructSerializer)
                              else f'{p}*{n}*{k}',
                              *(((op * n + other) * k, (p.items * n + q.items) * k,
                                 (p.values * n + q.values) * k)
                                if isinstance(other, StructSerializer) else
                                (op * n * k, p.items * n * k, p.values * n * k)), False):
                    return
        ser = op
        for n in range(2, 25):
            ser = ser + op
            if not verify(ctx, f'{p} added {n} times', ser, p.items * n, p.values * n, False):
                return
        ctx.outcome('many')
    return run


def folded(fmt, size, bo):
    """s @ n: one string of n times the size."""
    def run(ctx):
        op = StructSerializer(fmt, BO[bo])
        b = snapshot(op)
        for n in range(7):
            k = size * n
            kind = fmt[-1]
            if kind == 'p' and k == 0:
                ctx.skip('pascal[0]')
                continue
            ser = op @ n
            vals = {'s': [bytes(range(65, 65 + k))], 'x': [], 'p': [bytes(range(65, 65 + k - 1))]}[kind]
            t = Fmt(f'{k}{kind}')
            if not verify(ctx, f'{fmt}@{n}', ser, [(t, bo)], vals, False):
                return
            if not verify(ctx, f'{fmt}@{n}+B', ser + StructSerializer('B', BO[bo]),
                          [(t, bo), (U8, bo)], vals + [9], False):
                return
        if snapshot(op) != b:
            return ctx.fail(f'{fmt}@n: operand became {snapshot(op)}, was {b}')
    return run


def cases(tier):
    quick = tier == 'quick'
    rot = lambda i: ALL_BO[i % 6]
    table = {bo: leaves(bo) for bo in ALL_BO}
    ends = ENDS
    for bo in ALL_BO:
        for p in table[bo]:
            yield f'one:{p!r}', explore([p], ALL_BO)
        for p in table[bo]:
            if all(t.basic for t in p.types) and p is not NULL:
                ns = table[bo] if not quick else table[bo][::3]
                yield f'times:{p!r}', times(p, ns, ns, tier)
        basics = [p for p in table[bo] if all(t.basic for t in p.types) and p is not NULL]
        for i, p in enumerate(basics):
            yield f'many:{p!r}', multiples(p, basics[(i + 1) % len(basics)])
            yield f'many2:{p!r}', multiples(p, table[bo][(7 * i + 3) % len(table[bo])])
        for fmt, size in (('s', 1), ('2s', 2), ('x', 1), ('3x', 3), ('p', 1), ('4p', 4)):
            yield f'fold:{fmt}{bo}', folded(fmt, size, bo)
    n = len(table[''])
    for i, j in itertools.product(range(n), repeat=2):
        for k, bo in enumerate(ALL_BO):
            # same byte order
            rt = ALL_BO if not quick else (rot(i + j + k), rot(i + 2 * j + k + 1))
            if quick and (i + j + k) % 2:
                continue
            yield f'two:{table[bo][i]!r}+{table[bo][j]!r}', explore([table[bo][i], table[bo][j]], rt)
            # different ones
            for bo2 in ALL_BO:
                if bo2 != bo and (not quick or (i + j + k + ALL_BO.index(bo2)) % 3 == 0):
                    yield (f'two:{table[bo][i]!r}+{table[bo2][j]!r}',
                           explore([table[bo][i], table[bo2][j]],
                                   (rot(i + j),) if runs_of(
                                       table[bo][i].items + table[bo2][j].items) else ()))
    for i, j, k in itertools.product(range(n), repeat=3):
        if quick and (i + j + k) % 3:
            continue
        for x in range(6 if not quick else 1):
            bo = rot(i + j + k + x)
            ps = [table[bo][i], table[bo][j], table[bo][k]]
            yield f'three:{ps}', explore(ps, (rot(i + 2 * k + x),) if not quick or (i + j) % 4 == 0 else ())
    core = [0, 2, 3, 4, 9, 17, 20, 21, 30, 34, 37] if quick else [
        0, 2, 3, 4, 6, 9, 13, 17, 18, 20, 21, 27, 29, 30, 34, 35, 37]
    for idx in itertools.product(core, repeat=4):
        bo = rot(sum(idx))
        if quick and sum(idx) % 2:
            continue
        ps = [table[bo][i] for i in idx]
        yield f'four:{ps}', explore(ps, ())
    # mixed byte orders, three parts
    small = [0, 3, 4, 17, 20, 21, 34]
    for idx in itertools.product(small, repeat=3):
        for bos in itertools.product(('', '<', '>'), repeat=3):
            if len(set(bos)) == 1:
                continue
            ps = [table[b][i] for i, b in zip(idx, bos)]
            yield f'mixed:{ps}', explore(ps, ('!',) if runs_of([x for p in ps for x in p.items]) else ())
    # read-to-end serializers: last only
    for i in range(n):
        for e in ends:
            for bo in ('', '>'):
                p = table[bo][i]
                if e.bo == bo or runs_of(p.items + e.items):
                    yield f'end:{p!r}+{e!r}', explore([p, e], ('<', '>'))
                if p is not NULL:
                    yield f'end:{e!r}+{p!r}', explore([e, p])
                    yield f'end3:{p!r}+{e!r}+{p!r}', explore([p, e, p])
                for q in (table[bo][0], table[bo][21], NULL):
                    if runs_of(p.items + q.items + e.items):
                        yield f'end3:{p!r}+{q!r}+{e!r}', explore([p, q, e], ())
            yield f'end:{e!r}+null', explore([e, NULL])
    if not quick:
        for idx in itertools.product([0, 3, 17, 20, 21, 30, 34], repeat=5):
            bo = rot(sum(idx))
            ps = [table[bo][i] for i in idx]
            yield f'five:{ps}', explore(ps, ())
