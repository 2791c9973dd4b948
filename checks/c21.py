"""C21 Short reads never yield a wrong object."""
import io

from mc.model import diff, to_lib
from mc.ops import JUNK, Endless, attempt
from mc.space import ALL_BO, nested, pairs, rotate, singles, triples, long_shapes, wide
from mc.kinds import REP

ID = 'C21'
LEVEL = 'fault_enumeration'
RULE = ('every record of the space is unpacked from a stream under every placement of up to 2 '
        'deviating reads: each read returning each possible smaller number of bytes (for long '
        'reads: the shortest and longest ones and the powers of two), or raising, or '
        'returning None, or the stream giving nothing more from that read on; plus streams '
        'that never return more than 1, 2, 3 or 5 bytes. distinct_nontrivial counts the '
        'distinct (record, placement) pairs in which a deviation happened, evaluations the '
        'unpack calls, including the healthy read afterwards')
ASSUMPTIONS = ['read() without a size returns everything up to the end of the stream (or raises)',
               'tell and seek work']


class Broken(Exception):
    pass


class Faulty:
    """A stream whose i-th read deviates as told: a byte count, 'raise', 'none'
    (None: nothing is there yet), or 'dead' (there is nothing from then on)."""

    def __init__(self, data, plan, most=None, exc=OSError):
        self.f, self.plan, self.most, self.exc = io.BytesIO(data), plan, most, exc
        self.log = []           # bytes each read would return
        self.hit = 0
        self.dead = False

    def read(self, n=-1):
        i = len(self.log)
        if i > 5000:
            raise Endless(f'{i} reads')
        data = self.f.read(n)
        all_ = n is None or n < 0
        self.log.append((len(data), all_))
        dev = self.plan.get(i)
        if dev == 'raise':
            self.hit += 1
            self.f.seek(-len(data), 1)
            raise self.exc('the disk is gone')
        if dev == 'none':
            self.hit += 1
            self.f.seek(-len(data), 1)
            return None
        if dev == 'dead' or self.dead:
            self.dead = True
            self.hit += bool(data)
            self.f.seek(-len(data), 1)
            return b''
        if self.most is not None and not all_:
            dev = self.most
        if dev is not None and dev < len(data) and not all_:
            self.hit += 1
            self.f.seek(dev - len(data), 1)
            data = data[:dev]
        return data

    def readinto(self, b):
        data = self.read(len(b))
        if data is None:
            return None
        b[:len(data)] = data
        return len(data)

    def readable(self):
        return True

    seekable = readable

    def tell(self):
        return self.f.tell()

    def seek(self, *args):
        return self.f.seek(*args)


def shorts(n, all_):
    if all_:
        return []
    if n <= 9:
        return range(n)
    return sorted({0, 1, 2, 3, n - 1, n - 2, n // 2, *(1 << k for k in range(n.bit_length() - 1))})


def explore(shape, limit, depth):
    def run(ctx):
        spec = shape.spec()
        cls = spec.cls()
        for m in shape.instances(spec, limit, product=limit is None):
            data = spec.enc(m)
            # a read-to-end field rightly takes such an end for the record's
            dead = [] if spec.final else ['dead']
            want = spec.dec(data)[0]
            full = JUNK[:2] + data + (b'' if spec.final else JUNK[:3])

            def one(plan, most=None, inplace=False, exc=OSError):
                s = Faulty(full, plan, most, exc)
                s.seek(2)
                try:
                    if inplace:
                        old = to_lib(m)
                        res = attempt(lambda: old.unpack_read(s))
                        res = ('ok', old) if res[0] == 'ok' else res
                    else:
                        res = attempt(cls.create_unpack_read, s)
                except Endless as e:
                    ctx.fail(f'{spec}: {m} from {full!r} with reads {plan or most}: '
                             f'never stops reading ({e})', 'endless')
                    return None
                ctx.op()
                size = cls.serializer.size
                what = f'{spec}: {m} from {full!r} with reads {plan or most}: '
                if s.hit:
                    ctx.state()
                elif res[0] == 'exc':
                    ctx.fail(what + f'raises {res[1]!r}', 'good')
                    return None
                if res[0] == 'ok':
                    d = diff(res[1], want)
                    if d is None and s.tell() != 2 + len(data):
                        d = f'the stream is at {s.tell() - 2}, the record has {len(data)} bytes'
                    if d is None and size != len(data):
                        d = f'the size is {size}, the record has {len(data)} bytes'
                    if d:
                        ctx.fail(what + f'gives {res[1]!r}: {d}', 'wrong')
                        return None
                    ctx.outcome('right object')
                else:
                    ctx.outcome('raised')
                if s.hit:
                    # the same stream, well-behaved from now on
                    s.plan, s.most, s.dead, s.log, log = {}, None, False, [], s.log
                    s.seek(2)
                    res = attempt(cls.create_unpack_read, s)
                    ctx.op()
                    d = repr(res[1]) if res[0] == 'exc' else diff(res[1], want)
                    if d or s.tell() != 2 + len(data) or cls.serializer.size != len(data):
                        ctx.fail(what + f'a good read afterwards gives {res[1]!r} at {s.tell()} '
                                 f'(size {cls.serializer.size}): {d}', 'after')
                        return None
                    s.log = log         # the reads of the faulty run
                return s

            def extend(plan, first, log, left):
                for i in range(first, min(len(log), first + (40 if len(log) <= 400 else 12))):
                    for dev in [*shorts(*log[i]), 'raise', 'none', *dead]:
                        p = {**plan, i: dev}
                        s = one(p, inplace=(i + len(p)) % 2 == 1)
                        if s is None:
                            return False
                        if left > 1 and not extend(p, i + 1, s.log, left - 1):
                            return False
                return True
            s = one({})
            if s is None:
                return
            n = len(s.log)
            ctx.bound('reads', n)
            if not extend({}, 0, s.log, depth):
                return
            for most in (1, 2, 3, 5) if n <= 400 else (3,):
                if one({}, most) is None or one({}, most, True) is None:
                    return
            for i in range(n) if n <= 60 else [*range(30), *range(30, n - 9, n // 20), *range(n - 9, n)]:
                for exc in (EOFError, ValueError, KeyError, Broken, StopIteration):
                    if one({i: 'raise'}, None, False, exc) is None:
                        return
        ctx.bound('deviations', depth)
    return run


def cases(tier):
    quick = tier == 'quick'
    for s in singles():
        yield s.key, explore(s, None, 2 if quick else 3)
    for s in long_shapes(tier):
        if len(s.kinds) == 1 and s.kinds[0].name not in ('long_arr_rec_s', 'long_arr_str'):
            yield s.key, explore(s, None, 1)
    for s in wide(tier):
        yield s.key, explore(s, 1, 1)
    for s in nested(2 if quick else 3, rotate(ALL_BO)):
        yield s.key, explore(s, None, 2)
    for s in pairs(rotate(ALL_BO)):
        yield s.key, explore(s, 2 if quick else None, 1 if quick else 2)
    for s in triples(rotate(ALL_BO), REP[::2] if quick else REP):
        yield s.key, explore(s, 2, 2)
