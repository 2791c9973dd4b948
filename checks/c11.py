"""C11 Conditional fields are present exactly when their condition holds."""
import itertools

from mc import compose, visible
from mc.kinds import BY_NAME, KINDS, NAMED, NONFINAL, REP, getter
from mc.model import (
    BASIC, I32, U16, U32, U8, Arr, Back, Char, CharDyn, CharEnd, CharTerm, Cond, Nest, Pad,
    SelfT, Spec, Tup, Uni)
from mc.ops import check_record, check_packs, check_unpacks, diff, to_lib
from mc.space import ALL_BO, rotate

ID = 'C11'
LEVEL = 'model_checking'
RULE = ('every leaf and composition of containers (depth 2 in the thorough tier) as a '
        'conditional field x truthy and falsy results of every kind x placement x byte '
        'order; all on/off combinations of up to four conditionals; and the exact fields '
        'visible to every callback at every position. state = (class, instance or '
        'callback position), transition = operation')
ASSUMPTIONS = ['conditions are functions of the object']


class Truth:
    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return self.b

    def __repr__(self):
        return f'Truth({self.b})'


class Length:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


# results of a condition, selected by the field `c`
RESULTS = [True, False, 1, 0, 2, -1, 'x', '', b'', b'0', None, [], [0], (), 0.0, 0.5, {}, {1: 2},
           Truth(True), Truth(False), Length(0), Length(2), object()]
DEFAULTS = [None, 0, b'', 'dflt', (1, 2), Truth(False)]


def place(name, t, fn, bo, default, cond):
    c = cond
    pad = not t.nvals
    inner = Cond(fn, t, *(() if pad else (default,)))
    if name == 'mid':
        s = Spec('C', [('c', U8), ('_' if pad else 'v', inner), ('z', U16)], bo)
        return s, lambda c, v: s.obj(c, *([] if pad else [v]), 772)
    if name == 'first':
        # the condition reads nothing of the object
        s = Spec('C', [('_' if pad else 'v', Cond(lambda o: RESULTS[cond[0]], t,
                                                  *(() if pad else (default,)))),
                       ('z', U32)], bo)
        return s, lambda c, v: s.obj(*([] if pad else [v]), 70000)
    if name == 'last':
        s = Spec('C', [('s', CharDyn(U8)), ('c', U8), ('_' if pad else 'v', inner)], bo)
        return s, lambda c, v: s.obj(b'pre', c, *([] if pad else [v]))
    if name == 'basic':
        s = Spec('C', [('c', U8), ('x', U32), ('_' if pad else 'v', inner), ('y', U8), ('z', I32)],
                 bo)
        return s, lambda c, v: s.obj(c, 1, *([] if pad else [v]), 2, -3)
    if name == 'twice':
        s = Spec('C', [('c', U8), ('_' if pad else 'v', inner), ('_' if pad else 'w', inner),
                       ('z', U8)], bo)
        return s, lambda c, v: s.obj(c, *([] if pad else [v, v]), 4)
    if name == 'tup':
        s = Spec('C', [('c', U8), ('t', Tup(U8, inner, U16)), ('z', U8)], bo)
        return s, lambda c, v: s.obj(c, (1, *([] if pad else [v]), 515), 4)
    if name == 'arr':
        if pad:
            return None, None
        s = Spec('C', [('c', U8), ('t', Arr(U8, inner)), ('z', U8)], bo)
        return s, lambda c, v: s.obj(c, [v, v], 4)
    if name == 'rec':
        i = Spec('In', [('c', U8), ('_' if pad else 'v', inner), ('q', U8)], bo)
        s = Spec('C', [('c', U16), ('r', Nest(i)), ('z', U8)], '>')
        return s, lambda c, v: s.obj(999, i.obj(c, *([] if pad else [v]), 3), 4)
    if name == 'nested':
        # a condition on a conditional type
        if pad:
            return None, None
        s = Spec('C', [('c', U8), ('d', U8), ('v', Cond(getter('d'), inner, 'outer')), ('z', U8)],
                 bo)
        return s, lambda c, v: s.obj(c, 1, v, 4)
    if name == 'union':
        if pad:
            return None, None
        s = Spec('C', [('c', U8), ('v', Back(lambda o: 1, {1: inner, 2: U32})), ('z', U8)], bo)
        return s, lambda c, v: s.obj(c, v, 4)
    if name == 'only':
        s = Spec('C', [('_' if pad else 'v', Cond(lambda o: RESULTS[cond[0]], t,
                                                  *(() if pad else (default,))))], bo)
        return s, lambda c, v: s.obj(*([] if pad else [v]))
    raise KeyError(name)


PLACES = ('mid', 'first', 'last', 'basic', 'twice', 'tup', 'arr', 'rec', 'nested', 'union', 'only')


def presence(t, vals, pl, bo, default):
    def run(ctx):
        cur = [0]
        fn = lambda o: RESULTS[o.c]                                  # noqa: E731
        spec, wrap = place(pl, t, fn, bo, default, cur)
        if spec is None:
            return
        cls = spec.cls()
        for c, r in enumerate(RESULTS):
            cur[0] = c
            for v in (vals if r else [default]):
                m = wrap(c, v)
                if not check_record(ctx, spec, m, sub=repr(r)[:20]):
                    return
            if not r and t.nvals:
                # the attribute's own value does not matter when packing
                m = wrap(c, vals[0])
                if not check_packs(ctx, spec, m, sub='kept value'):
                    return
                d = cls.create_unpack(spec.enc(m))
                # ... and the default object itself comes back
                if pl in ('mid', 'last', 'basic') and d.v is not default:
                    return ctx.fail(f'{spec}: default {default!r} came back as {d.v!r}')
                ctx.op()
            ctx.outcome('present' if r else 'absent')
    return run


def several(kinds, bo):
    """All on/off combinations of several conditionals, flags up front and
    interleaved; then all of them one after another on the same class."""
    def run(ctx):
        for interleaved in (False, True):
            flags = [(f'c{i}', U8) for i in range(len(kinds))]
            fields = [] if interleaved else list(flags)
            for i, (n, t, vs) in enumerate(kinds):
                if interleaved:
                    fields.append(flags[i])
                fields.append((f'v{i}', Cond(getter(f'c{i}'), t, f'd{i}')))
            fields.append(('z', U16))
            spec = Spec('M', fields, bo)
            spec.cls()
            ms = []
            for combo in itertools.product((0, 1), repeat=len(kinds)):
                env = {f'c{i}': c for i, c in enumerate(combo)}
                env |= {f'v{i}': (kinds[i][2][0] if c else f'd{i}') for i, c in enumerate(combo)}
                env['z'] = 772
                m = spec.obj(*[env[n] for n, _ in spec.attrs])
                ms.append(m)
                if not check_record(ctx, spec, m, sub=f'{interleaved}{combo}'):
                    return
            # alternation between objects whose conditions differ
            libs = [to_lib(m) for m in ms]
            for a, b in itertools.permutations(range(len(ms)), 2):
                pa, pb = libs[a].pack(), libs[b].pack()
                ctx.op(2)
                if pa != spec.enc(ms[a]) or pb != spec.enc(ms[b]):
                    return ctx.fail(f'{spec}: packing {ms[a]} then {ms[b]}: {pa!r} {pb!r}')
                oa, ob = spec.cls().create_unpack(pa), spec.cls().create_unpack(pb)
                ctx.op(2)
                d = diff(oa, ms[a]) or diff(ob, ms[b])
                if d:
                    return ctx.fail(f'{spec}: unpacking {ms[a]} then {ms[b]}: {d}')
    return run


def inherited(t, vals, bo):
    """A conditional of a base class, and one redeclared by a subclass."""
    def run(ctx):
        from mc.lib import BO
        from mc.model import build_class
        base = Spec('Base', [('c', U8), ('v', Cond(getter('c'), t, 'base')), ('y', U8)], bo)
        cb = base.cls()
        kid = Spec('Kid', base.fields + [('d', U8), ('w', Cond(lambda o: o.d and o.c, t, 'kid'))],
                   bo)
        kid._cls = build_class('Kid', [(n, x.hint()) for n, x in kid.fields[3:]], bo, (cb,))
        redo = Spec('Redo', [('c', U8), ('v', Cond(lambda o: not o.c, t, 'redo')), ('y', U8)], bo)
        redo._cls = build_class('Redo', [('v', redo.fields[1][1].hint())], bo, (cb,))
        for order in ((base, kid, redo), (redo, kid, base)):
            for s in order:
                for c in (0, 1):
                    for d in (0, 1):
                        v = vals[0]
                        env = {'c': c, 'd': d, 'y': 9,
                               'v': v if (bool(c) != (s is redo)) else ('redo' if s is redo else 'base'),
                               'w': v if c and d else 'kid'}
                        m = s.obj(*[env[n] for n, _ in s.attrs])
                        if not check_record(ctx, s, m, sub=f'{s.name}{c}{d}'):
                            return
    return run


def final_cond(bo):
    def run(ctx):
        for t, vs in ((CharEnd(), [b'', b'tail\0']), (Uni(CharEnd(), 'utf8'), ['', 'tail']),
                      (Tup(U8, CharEnd()), [(1, b'')])):
            spec = Spec('F', [('c', U8), ('v', Cond(getter('c'), t, 'none'))], bo)
            for c in (0, 1):
                for v in vs if c else ['none']:
                    if not check_record(ctx, spec, spec.obj(c, v)):
                        return
            if not check_unpacks(ctx, spec, b'\0xyz', lambda: to_lib(spec.obj(0, 'none'))):
                return
    return run


def cases(tier):
    quick = tier == 'quick'
    comps = list(compose.LEAVES) + list(compose.composites(1))
    if not quick:
        comps += list(compose.composites(2))
    comps = [c for c in comps if not compose.own_sel(c[1])]
    comps += [('pad1', Pad(1), [None]), ('pad5', Pad(5), [None]), ('pad0', Pad(0), [None])]
    n = 0
    for i, (name, t, vals) in enumerate(comps):
        for p, pl in enumerate(PLACES):
            bos = ALL_BO if not quick and i < 100 else (
                ALL_BO[(i + p) % 6], ALL_BO[(i + p + 1) % 6])
            for bo in bos[:1] if quick and i > 14 else bos:
                n += 1
                yield (f'presence:{name}:{pl}:{bo or "default"}',
                       presence(t, vals, pl, bo, DEFAULTS[n % len(DEFAULTS)]))
    few = [c for c in compose.LEAVES]
    for k, combo in enumerate(itertools.product(few, repeat=2)):
        yield f'two:{combo[0][0]}:{combo[1][0]}', several(combo, ALL_BO[k % 6])
    for k, combo in enumerate(itertools.product(few[:10:3] + few[10:], repeat=3)):
        yield f'three:{":".join(c[0] for c in combo)}', several(combo, ALL_BO[k % 6])
    if not quick:
        for k, combo in enumerate(itertools.product(few[::2], repeat=4)):
            yield f'four:{":".join(c[0] for c in combo)}', several(combo, ALL_BO[k % 6])
    for i, (name, t, vals) in enumerate(comps):
        if t.nvals:
            yield f'inherit:{name}', inherited(t, vals, ALL_BO[i % 6])
    for bo in ALL_BO:
        yield f'final:{bo or "default"}', final_cond(bo)
    spies = list(visible.SPIES)
    kinds = NONFINAL if not quick else [k for k in REP if not k.final]
    for k in NONFINAL:
        for s in spies:
            yield f'view:{k}:{s}', visible.explore((k,), (s,))
    for a, b in itertools.product(spies, repeat=2):
        for k in kinds:
            yield f'view2:{k}:{a}:{b}', visible.explore((k, kinds[0]), (a, b))
