"""C01 Packing then unpacking returns the same object."""
from mc.ops import diff, model_decode, packers, to_lib, unpackers
from mc.space import records

ID = 'C01'
LEVEL = 'model_checking'
RULE = ('every record class of the record space (all sequences of field kinds up '
        'to the length bound, under the byte orders) x the product of the boundary '
        'values of its kinds; state = one (class, instance), transition = one '
        'pack or unpack (any method, buffer type, stream type) of the real code')
ASSUMPTIONS = ['values are drawn from the boundary alphabet of mc/kinds.py',
               'classes have at most three field groups, but for the windows of seven kinds '
               'and the runs of 8 to 110 basic fields']


def explore(shape, limit):
    def run(ctx):
        spec = shape.spec()
        cls = spec.cls()
        for n, m in enumerate(shape.instances(spec, limit)):
            ctx.state()
            obj = to_lib(m)
            data = obj.pack()
            ctx.op()
            for name, fn in packers(obj).items():
                ctx.op()
                if (got := fn(len(data))) != data:
                    ctx.fail(f'{spec}: {m} packed by {name} to {got!r}, by pack to {data!r}')
                    return
            # what documented normalisations make of the value
            kind, want, end = model_decode(spec, spec.enc(m))
            same = want == m
            for name, fn in unpackers(cls, lambda: to_lib(m)).items():
                ctx.op()
                back = fn(b'', data, b'')[0]
                d = diff(back, want)
                if d:
                    ctx.fail(f'{spec}: {m} packed to {data!r} came back different by {name}: {d}')
                    return
            ctx.trace()
            ctx.outcome('identical' if same else 'normalised')
            if same and not (back == obj and obj == back and not back != obj):
                ctx.fail(f'{spec}: {m} came back as {back!r}, which does not compare equal')
                return
            if back.pack() != (data if same else spec.enc(want)):
                ctx.fail(f'{spec}: {m} packs to {data!r}, but once unpacked to {back.pack()!r}')
                return
            ctx.op()
    return run


def cases(tier):
    limit = 12 if tier == 'quick' else 30
    for s in records(tier):
        yield s.key, explore(s, limit if len(s.kinds) < 3 else 3)
