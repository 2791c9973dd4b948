"""C20 Record streams and buffers can be written and read back to back."""
import io
import itertools
import os
import tempfile

from mc.kinds import BY_NAME, KINDS, REP, make_spec, instances
from mc.model import Bad, diff, to_lib
from mc.ops import JUNK, attempt, model_decode

ID = 'C20'
LEVEL = 'model_checking'
RULE = ('all histories up to a depth over: read (new object / in place) as any of the classes '
        'at the current position, write an instance there, seek to the start of any record or '
        'to the end - on a stream (BytesIO, buffered and raw files), and the same with offsets and reported '
        'sizes in one buffer; for all ordered pairs of record classes and triples over the '
        'representative ones. state = (medium contents, position, history), transition = '
        'operation on the real library; after each the contents, position, result and reported '
        'size are compared with the model')
ASSUMPTIONS = ['after a read that fails the position is unspecified']

PRE = JUNK[:3]


class Medium:
    """Contents and position, in the model and for real."""

    def clone(self):
        raise NotImplementedError


class Stream(Medium):
    name = 'stream'
    grows = True

    def __init__(self, content, pos):
        self.content, self.pos = content, pos
        self.f = io.BytesIO(content)
        self.f.seek(pos)

    def clone(self):
        return type(self)(self.content, self.pos)

    def close(self):
        pass

    def read(self, cls, old):
        if old is None:
            return cls.create_unpack_read(self.f)
        old.unpack_read(self.f)
        return old

    def write(self, obj):
        obj.pack_write(self.f)

    def seek(self, pos):
        self.f.seek(pos)
        self.pos = pos

    def check(self, failed, size):
        got = self.f.tell()
        if failed:
            self.pos = got
        elif got != self.pos:
            return f'the stream is at {got}, expected {self.pos}'
        data = self.data()
        if data != self.content:
            return f'the stream holds {data!r}, expected {self.content!r}'

    def data(self):
        return self.f.getvalue()


class File(Stream):
    name = 'file'
    buffering = 16

    def __init__(self, content, pos):
        self.content, self.pos = content, pos
        fd, self.path = tempfile.mkstemp(prefix='mc-c20-')
        os.unlink(self.path)
        self.f = os.fdopen(fd, 'w+b', buffering=self.buffering)
        self.f.write(content)
        self.f.seek(pos)

    def close(self):
        self.f.close()

    def data(self):
        at = self.f.tell()
        self.f.seek(0)
        d = self.f.read()
        self.f.seek(at)
        return d


class RawFile(File):
    name = 'raw file'
    buffering = 0


class Buffer(Medium):
    """A bytearray and the running offset a user keeps from reported sizes."""
    name = 'buffer'
    grows = False

    def __init__(self, content, pos):
        self.content, self.pos, self.off = content, pos, pos
        self.buf = bytearray(content)

    def clone(self):
        return Buffer(self.content, self.pos)

    def close(self):
        pass

    def read(self, cls, old):
        if old is None:
            old = cls.create_unpack_from(self.buf, self.off)
        else:
            old.unpack_from(memoryview(self.buf), self.off)
        self.off += cls.serializer.size
        return old

    def write(self, obj):
        obj.pack_into(self.buf, self.off)
        self.off += obj.serializer.size

    def seek(self, pos):
        self.pos = self.off = pos

    def check(self, failed, size):
        if failed:
            self.off = self.pos
        elif self.off != self.pos:
            return f'the sizes reported lead to offset {self.off}, expected {self.pos}'
        if bytes(self.buf) != self.content:
            return f'the buffer holds {bytes(self.buf)!r}, expected {self.content!r}'


def explore(names, bo, depth, media, gap=b''):
    def run(ctx):
        specs, insts, encs = [], [], []
        for i, n in enumerate(names):
            k = BY_NAME[n]
            spec = make_spec((k,), bo[i % len(bo)], f'R{i}')
            ms = list(instances((k,), spec, None))
            specs.append(spec)
            insts.append(ms)
            encs.append([spec.enc(m) for m in ms])
        # the initial records: for every class all its instances, in turn
        order = [(i, j) for j in range(max(map(len, insts))) for i in range(len(specs))
                 if j < len(insts[i])]
        for medium in media:
            content, starts = PRE, []
            for i, j in order:
                starts.append(len(content))
                content += encs[i][j] + gap
            end = len(content)
            content = content + JUNK[:2]
            # written by the library, back to back
            m = medium(PRE + bytes(len(content) - len(PRE)) if not medium.grows else PRE, len(PRE))
            blank = len(content)
            for i, j in order:
                m.write(to_lib(insts[i][j]))
                ctx.op()
                m.content = m.content[:m.pos] + encs[i][j] + m.content[m.pos + len(encs[i][j]):]
                m.pos += len(encs[i][j])
                why = m.check(False, None)
                if why:
                    return ctx.fail(f'{specs}: writing {insts[i][j]} to a {medium.name}: {why}', medium.name)
                if gap:
                    m.seek(m.pos + len(gap))
                    if medium.grows:
                        m.content += gap
                        m.f.seek(0, 2)
                        m.f.write(gap)
                    else:
                        m.buf[m.pos - len(gap):m.pos] = gap
                        m.content = bytes(m.buf)
            m.close()
            # read back to back
            m = medium(content, len(PRE))
            for n, (i, j) in enumerate(order):
                if specs[i].final:
                    m.seek(starts[n] + len(encs[i][j]) + len(gap))
                    continue
                res = attempt(m.read, specs[i].cls(), None)
                ctx.op()
                if res[0] == 'exc':
                    return ctx.fail(f'{specs}: reading {insts[i][j]} from a {medium.name}: {res[1]!r}', medium.name)
                m.pos += len(encs[i][j])
                want = model_decode(specs[i], content, starts[n])[1]
                why = diff(res[1], want) or m.check(False, None)
                if why:
                    return ctx.fail(f'{specs}: reading {insts[i][j]} from a {medium.name}: {why}', medium.name)
                m.seek(m.pos + len(gap))
            m.close()
            # and all interleavings
            places = [('seek', p) for p in dict.fromkeys(starts[:len(specs) + 1])] + [
                ('seek', end), ('seek', len(content))]
            ops = places + [('read', i) for i in range(len(specs))] + [
                ('update', i) for i in range(len(specs))] + [
                ('write', i) for i in range(len(specs))]

            def step(m, op):
                """Returns a description of what is wrong, or None."""
                kind, i = op
                ctx.op()
                if kind == 'seek':
                    m.seek(i)
                    return
                spec = specs[i]
                if kind == 'write':
                    inst = insts[i][-1]
                    enc = encs[i][-1]
                    res = attempt(m.write, to_lib(inst))
                    fits = m.grows or m.pos + len(enc) <= len(m.content)
                    if not fits:
                        if res[0] == 'ok':
                            return f'{inst} is written into {len(m.content) - m.pos} bytes'
                        ctx.outcome('refused write')
                        # what a refused write leaves behind is not promised,
                        # but nothing before it may change
                        if bytes(m.buf[:m.pos]) != m.content[:m.pos] or len(m.buf) != len(m.content):
                            return f'a refused write changed {m.content!r} to {bytes(m.buf)!r}'
                        m.content = bytes(m.buf)
                        return m.check(True, None)
                    if res[0] == 'exc':
                        return f'write raises {res[1]!r}'
                    base = m.content.ljust(m.pos, b'\0')
                    m.content = base[:m.pos] + enc + base[m.pos + len(enc):]
                    m.pos += len(enc)
                    ctx.outcome('written')
                    return m.check(False, None)
                want = model_decode(spec, m.content, m.pos)
                if want[0] == 'big':
                    ctx.skip('count above the item bound')
                    return 'big'
                old = to_lib(insts[i][0]) if kind == 'update' else None
                res = attempt(m.read, spec.cls(), old)
                if want[0] == 'bad':
                    if res[0] == 'ok':
                        return f'read gives {res[1]!r}, but {want[1]}'
                    ctx.outcome('refused read')
                    return m.check(True, None)
                if res[0] == 'exc':
                    return f'read raises {res[1]!r}, expected {want[1]}'
                m.pos = want[2]
                ctx.outcome('read')
                return diff(res[1], want[1]) or m.check(False, None)

            def dfs(m, path):
                for op in ops:
                    if op[0] == 'seek' and path and path[-1][0] == 'seek':
                        continue
                    c = m.clone()
                    try:
                        why = step(c, op)
                        ctx.state()
                        if why == 'big':
                            continue
                        if why:
                            ctx.fail(f'{specs}: {medium.name} {content!r}: after {path}, {op}: {why}',
                                     medium.name)
                            return False
                        if len(path) + 1 < depth:
                            if not dfs(c, path + [op]):
                                return False
                        else:
                            ctx.trace()
                    finally:
                        c.close()
                return True
            start = medium(content, len(PRE))
            ok = dfs(start, [])
            start.close()
            if not ok:
                return
            ctx.bound('depth', depth)
    return run


def whole(names, bo, medium, depth):
    """Every history without cloning: one medium lives through it all."""
    def run(ctx):
        specs = [make_spec((BY_NAME[n],), bo, f'R{i}') for i, n in enumerate(names)]
        insts = [list(instances((BY_NAME[n],), s, 2)) for n, s in zip(names, specs)]
        choices = [(i, j) for i, ms in enumerate(insts) for j in range(len(ms))]
        for seq in itertools.product(choices, repeat=depth):
            m = medium(PRE + bytes(0 if medium.grows else 300), len(PRE))
            starts = []
            for i, j in seq:
                starts.append(m.pos)
                obj = to_lib(insts[i][j])
                m.write(obj)
                ctx.op()
                enc = specs[i].enc(insts[i][j])
                m.content = m.content[:m.pos] + enc + m.content[m.pos + len(enc):]
                m.pos += len(enc)
                why = m.check(False, None)
                if why:
                    return ctx.fail(f'{specs}: writing {seq}: {why}')
            stop = m.pos
            for perm in (range(depth), range(depth)[::-1], [*range(0, depth, 2), *range(1, depth, 2)]):
                for x in perm:
                    i, j = seq[x]
                    m.seek(starts[x])
                    got = m.read(specs[i].cls(), None)
                    ctx.op()
                    m.pos += len(specs[i].enc(insts[i][j]))
                    want = model_decode(specs[i], m.content, starts[x])
                    why = diff(got, want[1]) or m.check(False, None)
                    if why:
                        return ctx.fail(f'{specs}: {seq} read back in order {list(perm)}: {why}')
            m.seek(starts[0])
            for x, (i, j) in enumerate(seq):        # no seeks in between
                got = m.read(specs[i].cls(), to_lib(insts[i][-1 - j]))
                m.pos += len(specs[i].enc(insts[i][j]))
                ctx.op()
                why = diff(got, model_decode(specs[i], m.content, starts[x])[1]) or m.check(False, None)
                if why:
                    return ctx.fail(f'{specs}: {seq} read back in sequence: {why}')
            if m.pos != stop:
                return ctx.fail(f'{specs}: {seq} ends at {m.pos}, not {stop}')
            m.close()
            ctx.state()
            ctx.trace()
    return run


def cases(tier):
    quick = tier == 'quick'
    bos = ('', '<', '>', '=', '@', '!')
    names = [k.name for k in KINDS]
    rep = [k.name for k in REP] + ['ahead_term', 'ahead_char', 'uninet', 'mixed', 'link', 'unicustom',
                                   'cond_term', 'arr_back', 'tup_cond']
    for i, a in enumerate(names):
        for j, bo in enumerate(bos):
            yield f'single:{a}/{bo}', explore([a], [bo], 4 if quick else 6, (Stream, Buffer))
        yield f'file:{a}', explore([a], [bos[i % 6]], 2 if quick else 3, (File, RawFile))
    for i, a in enumerate(rep):
        for j, b in enumerate(rep):
            bo = (bos[(i + j) % 6], bos[(i + 2 * j + 1) % 6])
            yield f'pair:{a}+{b}', explore([a, b], bo, 3 if quick else 4, (Stream, Buffer))
            if (i + j) % 5 == 0 or not quick:
                yield f'gap:{a}+{b}', explore([a, b], bo, 2, (Stream, Buffer, RawFile if i % 2 else File), b'\x01\0gap')
    small = ['uint8', 'chardyn16', 'null_char', 'charnet', 'arr_pt_s', 'tupdyn', 'named', 'node',
             'cond_arr', 'back_cpx', 'ahead_u8', 'ahead_term', 'charinf', 'unidyn16']
    for idx in itertools.product(range(len(small)), repeat=3):
        if quick and sum(idx) % 3:
            continue
        ns = [small[i] for i in idx]
        yield f'triple:{"+".join(ns)}', explore(ns, [bos[(sum(idx) + i) % 6] for i in range(3)],
                                                2 if quick else 3, (Stream, Buffer))
    if not quick:
        for i, a in enumerate(names):
            for j, b in enumerate(names):
                yield f'all:{a}+{b}', explore([a, b], [bos[(i + j) % 6], bos[i % 6]], 2, (Stream, Buffer))
    live = [n for n in small if n != 'charinf']
    for i, (a, b, c) in enumerate(itertools.combinations(live, 3)):
        for d, m in ((3, Stream), (3, Buffer)) if quick else ((4, Stream), (4, Buffer), (3, File)):
            yield f'whole:{a}+{b}+{c}:{m.name}', whole([a, b, c], bos[i % 6], m, d)
