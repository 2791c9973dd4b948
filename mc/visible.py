"""What conditions and deciders see: records instrumented at every position.

spy() kinds of fields; each callback appends what it saw to LOG."""
from .kinds import KINDS, NAMED, NONFINAL, POINT, make_spec
from .model import (U16, U32, U8, Ahead, Arr, Back, CharDyn, CharTerm, Cond, Nest, Obj, Pad,
                    Spec, Tup, Uni)
from .ops import attempt, diff, to_lib
import io

LOG = []


def spy(names, tag, result):
    """A callback that logs every field visible on the object."""
    def fn(o):
        if isinstance(o, Obj):          # called by the model
            return result
        LOG.append((tag, o, {n: getattr(o, n) for n in names if hasattr(o, n)}))
        return result
    return fn


SPIES = {
    'cond': (lambda s: Cond(s(True), CharDyn(U8), None), [b'pr']),
    'condb': (lambda s: Cond(s('yes'), U16, 0), [515]),
    'condno': (lambda s: Cond(s(0), U16, -7), [-7]),
    'back': (lambda s: Back(s(1), {1: CharTerm(b'\0'), 2: U8}), [b'un']),
    'backd': (lambda s: Back(s(1), {2: U8}, U32), [70000]),
    'arr': (lambda s: Arr(U8, Back(s(1), {1: U16, 2: U8})), [[1, 2]]),
    'arrc': (lambda s: Arr(2, Cond(s([0]), U16, 0)), [[3, 4]]),
    'arrs': (lambda s: Arr(2, Back(s(1), {1: CharDyn(U8), 2: U8}), U16), [[b'', b'x']]),
    'tup': (lambda s: Tup(U8, Cond(s(1.5), U16, 0), CharDyn(U8)), [(1, 2, b'x')]),
    'tuparr': (lambda s: Tup(U8, Arr(U8, Back(s(1), {1: U16, 2: U8}))), [(1, [2])]),
    'aheadinner': (lambda s: Ahead(U8, lambda o: 1, {
        1: Tup(U8, Back(s(1), {1: U16, 2: U8})), 2: U8}), [(1, 515)]),
    'aheadpeek': (lambda s: Ahead(Back(s(1), {1: U16, 2: U8}), lambda o: 513,
                                  {513: Tup(U16, U8), 2: U8}), [(513, 1)]),
}


def explore(shape, spies, methods=True):
    """A record [shape kinds..., spy, shape kinds..., spy2, tail]."""
    def run(ctx):
        fields, vals = [], []

        def add(kind, p):
            fs = kind.make(p)
            fields.extend(fs)
            vals.append(kind.vals[0])
        for i, k in enumerate(shape):
            add(k, f'f{i}')
        made = []
        for j, s in enumerate(spies):
            made.append(len(fields))
            fields.append((f's{j}', None))
            vals.append((SPIES[s][1][0],))
            k = shape[j % len(shape)]
            add(k, f'g{j}')
        names = [n for n, t in fields if n != '_']
        for j, s in enumerate(spies):
            make = SPIES[s][0]
            fields[made[j]] = (f's{j}', make(lambda r, j=j: spy(names, f's{j}', r)))
        spec = Spec('V', fields, '>')
        attrs = [n for n, _ in spec.attrs]
        m = spec.obj(*[v for vs in vals for v in vs])
        cls = spec.cls()
        data = spec.enc(m)
        want = spec.dec(data)[0]
        obj = to_lib(m)
        other = to_lib(m)

        def check(op, packing, o):
            seen = {t for t, _, _ in LOG}
            # (a peeked type is only used while unpacking)
            if seen != {f's{j}' for j, s in enumerate(spies)
                        if not packing or s != 'aheadpeek'}:
                return f'{op}: callbacks called: {sorted(seen)}'
            for tag, o_, view in LOG:
                i = attrs.index(tag)
                src = m if packing else want
                must = attrs if packing else attrs[:i]
                if packing and o_ is not o:
                    return f'{op}: the callback of {tag} got {o_!r}, not the object being packed'
                if o is None or packing:
                    if set(view) != set(must):
                        return (f'{op}: the callback of {tag} sees {sorted(view)}, should see '
                                f'{sorted(must)}')
                for n in must:
                    if n not in view:
                        return f'{op}: the callback of {tag} does not see {n}'
                    d = diff(view[n], src.__dict__[n])
                    if d:
                        return f'{op}: the callback of {tag} sees {n}{d}'
            return None
        runs = [('pack', True, obj, obj.pack),
                ('pack_into', True, obj, lambda: obj.pack_into(bytearray(len(data)))),
                ('pack_write', True, obj, lambda: obj.pack_write(io.BytesIO())),
                ('create_unpack', False, None, lambda: cls.create_unpack(data)),
                ('create_unpack_from', False, None,
                 lambda: cls.create_unpack_from(b'zz' + data, 2)),
                ('create_unpack_read', False, None,
                 lambda: cls.create_unpack_read(io.BytesIO(data))),
                ('unpack', False, other, lambda: other.unpack(data)),
                ('unpack_from', False, other, lambda: other.unpack_from(data)),
                ('unpack_read', False, other, lambda: other.unpack_read(io.BytesIO(data)))]
        for op, packing, o, fn in runs:
            if o is other:
                # fill with other values: what is decoded must replace them in time
                for n in attrs:
                    setattr(other, n, 'stale')
            LOG.clear()
            fn()
            ctx.op()
            ctx.state()
            bad = check(op, packing, o)
            LOG.clear()
            if bad:
                return ctx.fail(f'{spec}: {bad}', op)
            ctx.outcome('packing view' if packing else 'unpacking view')
        ctx.trace()
    return run
