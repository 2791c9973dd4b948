"""C10 Unions use exactly the type their decider selects."""
import io
import itertools

from mc import visible
from mc.compose import LEAVES, seq
from mc.kinds import (NONFINAL, REP, CELSIUS, NAMED, NODE, POINT, TAG, Celsius, Color, COLOR, P, Tag, getter)
from mc.model import (
    BASIC, I16, I32, I8, U16, U32, U64, U8, Ahead, Arr, Back, Bad, Char, CharDyn, CharEnd,
    CharNET, CharTerm, Cond, Nest, Obj, Pascal, SelfT, Spec, Tup, Uni)
from mc.ops import attempt, check_packs, check_record, check_unpacks, diff, model_decode, to_lib
from mc.space import ALL_BO

ID = 'C10'
LEVEL = 'model_checking'
RULE = ('look-back: ordered pairs of member types x default or none x placement x every '
        'decider result (mapped, unmapped); key types incl. falsy ones. look-ahead: every '
        'hashable peek type x member type x placement x every peeked value, cut and '
        'heterogeneous inputs. state = (class, instance or input), transition = operation')
ASSUMPTIONS = ['decider results are hashable', 'deciders are functions of the object']

LEAF = {n: (t, vs) for n, t, vs in LEAVES}
LEAF['arrpt'] = (Arr(U8, Nest(POINT)), [[P(1, 2)], []])
LEAF['tup'] = (Tup(U8, CharDyn(U8)), [(1, b'x')])
LEAF['node'] = (Nest(NODE), [NODE.obj(1, [NODE.obj(2, [])])])
LEAF['uniterm'] = (Uni(CharTerm(b'\0'), 'utf8'), ['abc'])


def place(name, u, bo):
    """(spec, wrap): the union `u` reads `k` of the record that holds it;
    wrap(k, v) makes an instance whose unions all hold v."""
    if name == 'field':
        s = Spec('R', [('k', U8), ('u', u), ('z', U16)], bo)
        return s, lambda k, v: s.obj(k, v, 772)
    if name == 'late':
        s = Spec('R', [('s', CharTerm(b'\0')), ('k', U8), ('t', CharDyn(U8)), ('u', u),
                       ('z', U16)], bo)
        return s, lambda k, v: s.obj(b'pre', k, b'tt', v, 772)
    if name == 'two':
        s = Spec('R', [('k', U8), ('u', u), ('v', u), ('z', U16)], bo)
        return s, lambda k, v: s.obj(k, v, v, 772)
    if name == 'arr':
        s = Spec('R', [('k', U8), ('u', Arr(U8, u)), ('z', U16)], bo)
        return s, lambda k, v: s.obj(k, [v, v, v], 772)
    if name == 'arrs':
        s = Spec('R', [('k', U8), ('u', Arr(2, u, U16)), ('z', U16)], bo)
        return s, lambda k, v: s.obj(k, [v, v], 772)
    if name == 'tup':
        s = Spec('R', [('k', U8), ('u', Tup(U8, u, U16)), ('z', U16)], bo)
        return s, lambda k, v: s.obj(k, (1, v, 515), 772)
    if name == 'cond':
        s = Spec('R', [('k', U8), ('u', Cond(lambda o: o.k < 250, u, None)), ('z', U16)], bo)
        return s, lambda k, v: s.obj(k, v, 772)
    if name == 'union':
        s = Spec('R', [('k', U8), ('u', Back(lambda o: 'x', {'x': u, 'y': U64})), ('z', U16)], bo)
        return s, lambda k, v: s.obj(k, v, 772)
    if name == 'uniondef':
        s = Spec('R', [('k', U8), ('u', Back(lambda o: 'x', {'y': U64}, u)), ('z', U16)], bo)
        return s, lambda k, v: s.obj(k, v, 772)
    if name == 'rec':
        i = Spec('In', [('k', U8), ('u', u), ('z', U16)], bo)
        s = Spec('R', [('k', U16), ('i', Nest(i)), ('z', U8)], '>')
        return s, lambda k, v: s.obj(600, i.obj(k, v, 772), 3)
    if name == 'recarr':
        i = Spec('In', [('k', U8), ('u', u)], bo)
        s = Spec('R', [('k', U8), ('i', Arr(U8, Nest(i))), ('z', U8)], '')
        return s, lambda k, v: s.obj(99, [i.obj(k, v), i.obj(k, v)], 3)
    if name == 'self':
        s = Spec('R', [('k', U8), ('kids', Arr(U8, SelfT())), ('u', u), ('z', U16)], bo)
        return s, lambda k, v: s.obj(k, [s.obj(k, [], v, 1), s.obj(k, [s.obj(k, [], v, 2)], v, 3)],
                                     v, 4)
    raise KeyError(name)


PLACES = ('field', 'late', 'two', 'arr', 'arrs', 'tup', 'cond', 'union', 'uniondef', 'rec',
          'recarr', 'self')


def each(ctx, spec, m, sub, expect_value_error):
    """One instance; if the decider result is unmapped: ValueError."""
    if not check_record(ctx, spec, m, sub=sub):
        return False
    if expect_value_error:
        obj = to_lib(m)
        for name, fn in (('pack', obj.pack), ('pack_into', lambda: obj.pack_into(bytearray(500))),
                         ('pack_write', lambda: obj.pack_write(io.BytesIO()))):
            res = attempt(fn)
            ctx.op()
            if res[0] == 'ok' or not isinstance(res[1], ValueError):
                ctx.fail(f'{spec}: {name} of {m} with an unmapped decider result: {res[1]!r} '
                         'instead of ValueError', sub)
                return False
        ctx.outcome('unmapped when packing')
    return True


def lookback(a, b, d, pl, bo):
    ta, va = LEAF[a]
    tb, vb = LEAF[b]
    td, vd = LEAF[d] if d else (None, [])

    def run(ctx):
        u = Back(getter('k'), {0: ta, 5: tb}, td)
        spec, wrap = place(pl, u, bo)
        cls = spec.cls()
        for k, vs in ((0, va), (5, vb), (1, vd), (200, vd), (0, va[:1])):
            for v in vs or [1]:
                if not each(ctx, spec, wrap(k, v), f'{k}', not vs):
                    return
            if not vs:
                # reading an unmapped result: ValueError, whatever follows
                data = wrap(0, va[0])._spec.enc(wrap(0, va[0]))
                pos = {'late': 4, 'rec': 2 + spec_pad(spec, bo), 'recarr': 2}.get(pl, 0)
                data = data[:pos] + bytes([k]) + data[pos + 1:] + bytes(20)
                if not check_unpacks(ctx, spec, data, lambda: to_lib(wrap(0, va[0])),
                                     exc=ValueError, sub='unmapped read'):
                    return
    return run


def spec_pad(spec, bo):
    return 0


KEYS = {
    'falsy': [None, 0, '', b'', ()],
    'str': ['a', 'A', 'a ', 'aa'],
    'bytes': [b'a', 'a', b'aa', b'\0'],
    'num': [1, 2, 2.5, -1],
    'bool': [True, False, 2],
    'tuple': [(1, 2), (2, 1), (1,), 1],
    'enum': [Color.RED, Color.BLUE, 3],
    'mixed': [int, str, frozenset({1}), None],
}


def keys(kind, default, pl):
    """Decider results of every kind, falsy ones too, select their own type."""
    members = [t for t, _ in LEAF.values()]
    vals = [vs[0] for _, vs in LEAF.values()]
    ks = KEYS[kind]

    def run(ctx):
        for drop in range(len(ks) + 1):
            mapping = {key: members[(2 * i + 1) % len(members)] for i, key in enumerate(ks)
                       if i != drop}
            u = Back(lambda o: ks[o.k], mapping, U32 if default else None)
            spec, wrap = place(pl, u, '>')
            spec.cls()
            for i, key in enumerate(ks):
                mapped = i != drop
                v = vals[(2 * i + 1) % len(members)] if mapped else 70000
                if not each(ctx, spec, wrap(i, v), repr(key), not mapped and not default):
                    return
    return run


# peek types: (type, [mapped peeked values..., one unmapped])
PEEKS = {
    'u8': (U8, [1, 0, 7]),
    'u16': (U16, [0x0102, 0, 0x0203]),
    'u32': (U32, [1, 0, 9]),
    'i64': (BASIC['int64'], [-2, 0, 9]),
    'bool': (BASIC['bool8'], [True, False]),
    'f32': (BASIC['float32'], [1.5, 0.0, 2.0]),
    'char4': (Char(4), [b'ABCD', b'\0\0\0\0', b'zzzz']),
    'char0': (Char(0), [b'']),
    'pascal': (Pascal(4), [b'abc', b'', b'q']),
    'dyn': (CharDyn(U16), [b'hello', b'', b'other']),
    'term': (CharTerm(b'\0'), [b'tag', b'', b'other']),
    'termx': (CharTerm(b'x'), [b't\0g', b'', b'other']),
    'long': (CharTerm(b'\0'), [b't' * 255, b't' * 256, b't' * 300, b'u']),
    'net': (CharNET(), [b'n' * 128, b'', b'other']),
    'uni': (Uni(CharDyn(U8), 'utf8'), ['h\u00e9', '', 'other']),
    'uniterm': (Uni(CharTerm(b'\0'), 'utf8'), ['key', '', 'other']),
    'unifix': (Uni(Char(4), 'ascii'), ['ab', '', 'cd']),
    'cel': (CELSIUS, [Celsius(-3), Celsius(0), Celsius(9)]),
    'tag': (TAG, [Tag(b'abc'), Tag(b'\0\0\0'), Tag(b'zzz')]),
    'tup': (Tup(U8, U16), [(1, 2), (0, 0), (2, 1)]),
    'tupdyn': (Tup(U8, CharDyn(U8), U16), [(1, b'ab', 2), (0, b'', 0), (3, b'q', 3)]),
    'tuptup': (Tup(Tup(U8, CharTerm(b'\0')), U8), [((1, b'k'), 2), ((0, b''), 0), ((9, b''), 9)]),
    'cond': (Cond(lambda o: True, U16, 0), [3, 0, 4]),
    'back': (Back(lambda o: 1, {1: CharDyn(U8), 2: U64}), [b'in', b'', b'zz']),
    'ahead': (Ahead(U8, lambda o: 1 if o.k == 0 else 0, {1: U16}, CharDyn(U8)), [257, b'', b'zz']),
}


def lookahead(peek, a, default, pl, bo):
    pt, pvs = PEEKS[peek]
    ta, va = LEAF[a]
    last = len(pvs) > 1     # the last value is not mapped

    def run(ctx):
        mapped = pvs[:-1] if last else pvs
        members, vals = {'never': U64}, []
        for i, pv in enumerate(mapped):
            if i % 2:
                members[pv] = pt
                vals.append(pv)
            else:
                members[pv] = Tup(pt, ta)
                vals.append((pv, va[0]))
        d = Tup(pt, U32, CharDyn(U8)) if default else None
        u = Ahead(pt, lambda o: pvs[o.k], members, d)
        spec, wrap = place(pl, u, bo)
        spec.cls()
        if last:
            vals.append((pvs[-1], 5, b'df'))
        for k, v in enumerate(vals):
            m = wrap(k, v)
            if last and k == len(vals) - 1 and default is None:
                if not each(ctx, spec, m, f'{k}', True):
                    return
                # such bytes in the input: ValueError
                alt = Ahead(pt, lambda o: pvs[o.k], members, Tup(pt, U32, CharDyn(U8)))
                spec2, wrap2 = place(pl, alt, bo)
                m2 = wrap2(k, v)
                data = spec2.enc(m2)
                if not check_unpacks(ctx, spec, data, lambda: to_lib(wrap(0, vals[0])),
                                     exc=ValueError, sub='unmapped read'):
                    return
                ctx.outcome('unmapped when reading')
                continue
            if not check_record(ctx, spec, m, sub=f'{k}'):
                return
            # nothing after the record: the peek must not need more than there is
            data = spec.enc(m)
            if not check_unpacks(ctx, spec, data, lambda: to_lib(m), pre=b'', post=b'',
                                 sub=f'{k} exact'):
                return
            for cut in range(len(data)) if len(data) < 60 else (0, 1, len(data) // 2, len(data) - 1):
                if not check_unpacks(ctx, spec, data[:cut], lambda: to_lib(m), post=b'',
                                     sub=f'{k} cut {cut}'):
                    return
    return run


def mixed(peek, bo, sized):
    """Arrays whose items are different members (readable, not writable)."""
    pt, pvs = PEEKS[peek]

    def run(ctx):
        members = {pv: t for pv, t in zip(pvs, (Tup(pt, U16), pt, Tup(pt, CharTerm(b'\0'))))}
        u = Ahead(pt, lambda o: None, members)
        spec = Spec('R', [('h', U8), ('u', Arr(U8, u, U16 if sized else None)), ('z', U16)], bo)
        spec.cls()
        pool = []
        for pv, t in members.items():
            v = pv if t is pt else (pv, 258) if t.items[1] is U16 else (pv, b'str')
            pool.append((t.enc(v, bo, None), v))
        for n in range(4):
            for combo in itertools.product(pool, repeat=n):
                body = b''.join(c[0] for c in combo)
                from mc.model import spack
                head = spack(bo + 'B', 7) + spack(bo + ('BH' if sized else 'B'),
                                                   *([n, len(body)] if sized else [n]))
                data = head + body + spack(bo + 'H', 515)
                want = spec.obj(7, [c[1] for c in combo], 515)
                got = model_decode(spec, data)
                if got[0] != 'ok' or got[1] != want:
                    raise AssertionError(f'model disagrees with itself: {got} {want}')
                if not check_unpacks(ctx, spec, data, None, sub=str(n)):
                    return
    return run


def overlap(pl, bo):
    """A peek that covers several fields after the union's own bytes."""
    def run(ctx):
        u = Ahead(U32, lambda o: 0, {0x01020304: U16, 0x04030201: U8}, U8)
        spec, wrap = place(pl, u, bo)
        spec.cls()
        for bs in itertools.product((1, 2, 3, 4), repeat=5):
            for lead in (b'\2', b'\2\0', b'p\0\2\1t'):
                if not check_unpacks(ctx, spec, lead + bytes(bs) + b'\1' * 8, None):
                    return
        for n in range(10):
            if not check_unpacks(ctx, spec, b'\1' * n, None, post=b''):
                return
    return run


def cases(tier):
    quick = tier == 'quick'
    names = list(LEAF)
    n = 0
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if a == b:
                continue
            for d in (None, names[(i + j + 1) % len(names)]) if quick else (
                    None, names[(i + j + 1) % len(names)], a, names[(i * j) % len(names)]):
                for p, pl in enumerate(PLACES):
                    n += 1
                    if quick and (i + j + p) % 3:
                        continue
                    for bo in (ALL_BO[n % 6],) if quick else ALL_BO:
                        yield (f'back:{a}:{b}:{d}:{pl}:{bo or "default"}',
                               lookback(a, b, d, pl, bo))
    for kind in KEYS:
        for default in (False, True):
            for pl in PLACES:
                yield f'keys:{kind}:{default}:{pl}', keys(kind, default, pl)
    for i, peek in enumerate(PEEKS):
        for j, a in enumerate(names):
            for default in (None, True):
                for p, pl in enumerate(PLACES):
                    if quick and (i + j + p) % 4:
                        continue
                    for bo in (ALL_BO[(i + j + 2 * p) % 6],) if quick else ALL_BO:
                        yield (f'ahead:{peek}:{a}:{bool(default)}:{pl}:{bo or "default"}',
                               lookahead(peek, a, default, pl, bo))
        for bo in ALL_BO:
            for sized in (False, True):
                if len(PEEKS[peek][1]) >= 3 and peek != 'ahead':
                    yield f'mixed:{peek}:{sized}:{bo or "default"}', mixed(peek, bo, sized)
    for pl in PLACES:
        for bo in ALL_BO:
            yield f'overlap:{pl}:{bo or "default"}', overlap(pl, bo)
    # what deciders see, at every position
    spies = [s for s in visible.SPIES if not s.startswith('cond')]
    for s in spies:
        for k in REP if quick else NONFINAL:
            if not k.final:
                yield f'view:{k}:{s}', visible.explore((k,), (s,))
        for s2 in spies:
            for k in REP[::3]:
                if not k.final:
                    yield f'view2:{k}:{s}:{s2}', visible.explore((k, REP[0]), (s, s2))
