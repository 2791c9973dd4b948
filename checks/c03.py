"""C03 All pack methods write the same bytes, only where asked."""
import array
import io

from mc.ops import attempt, to_lib
from mc.space import cuts, pack_only, records

ID = 'C03'
LEVEL = 'model_checking'
RULE = ('every class and instance of the record space x {bytes, every buffer size from 0 '
        'to too big at several offsets, in bytearray / memoryview / array, streams at '
        'several positions}; state = (class, instance, destination), transition = one '
        'real pack')
ASSUMPTIONS = ['offsets are non-negative and within the buffer',
               'records over 200 bytes: too-small sizes at the ends, around multiples of '
               '128 and every 41st only']
FILL = 0xAA


class WriteOnly:
    """A stream that can only be written (a pipe, a socket file)."""

    def __init__(self):
        self.data = bytearray()

    def write(self, b):
        self.data += bytes(b)
        return len(b)


def explore(shape, limit, offsets, every_size):
    def run(ctx):
        spec = shape.spec()
        for m in shape.instances(spec, limit):
            data = to_lib(m).pack()
            ctx.op()
            ctx.trace()
            size = len(data)
            ctx.bound('record_size', size)

            def bad(what):
                ctx.fail(f'{spec}: {m}: {what}; pack() gives {data!r}')

            if type(data) is not bytes:
                return bad('pack() did not return bytes')
            # --- buffers that are large enough
            for off in offsets:
                for tail in (0, 3):
                    for kind in ('bytearray', 'memoryview', 'array'):
                        if kind != 'bytearray' and (tail == 0 or off == 0):
                            continue
                        raw = bytearray([FILL]) * (off + size + tail)
                        buf = (raw if kind == 'bytearray' else memoryview(raw)
                               if kind == 'memoryview' else array.array('B', raw))
                        obj = to_lib(m)
                        if off == 0 and tail == 0:
                            r = attempt(obj.pack_into, buf)
                        else:
                            r = attempt(obj.pack_into, buf, off)
                        ctx.op()
                        ctx.state()
                        if r[0] == 'exc':
                            return bad(f'pack_into({kind} of {len(raw)}, {off}) raised {r[1]!r}')
                        out = bytes(buf)
                        if len(out) != off + size + tail:
                            return bad(f'pack_into changed the buffer length to {len(out)}')
                        want = bytes([FILL]) * off + data + bytes([FILL]) * tail
                        if out != want:
                            return bad(f'pack_into({kind} of {len(raw)}, {off}) left {out!r}')
            # --- buffers that are too small, every size
            for off in offsets:
                for n in ([off + i for i in cuts(size)] if every_size else
                          sorted({off, off + size // 2, off + size - 1})):
                    if n < off or n >= off + size:
                        continue
                    buf = bytearray([FILL]) * n
                    r = attempt(to_lib(m).pack_into, buf, off)
                    ctx.op()
                    ctx.state()
                    if r[0] == 'ok':
                        return bad(f'pack_into a buffer of {n} bytes at {off} was not refused')
                    if len(buf) != n or bytes(buf[:off]) != bytes([FILL]) * off:
                        return bad(f'pack_into a too small buffer of {n} at {off} left {bytes(buf)!r}')
                    ctx.outcome('too small, refused')
            # --- streams
            for pos in offsets:
                junk = bytes([FILL]) * (pos + size + 3)
                s = io.BytesIO(junk)
                s.seek(pos)
                to_lib(m).pack_write(s)
                ctx.op()
                ctx.state()
                if s.tell() != pos + size:
                    return bad(f'pack_write at {pos} ended at {s.tell()}')
                if s.getvalue() != junk[:pos] + data + junk[pos + size:]:
                    return bad(f'pack_write at {pos} left {s.getvalue()!r}')
            w = WriteOnly()
            to_lib(m).pack_write(w)
            ctx.op()
            ctx.state()
            if bytes(w.data) != data:
                return bad(f'pack_write to a write-only stream wrote {bytes(w.data)!r}')
            # the bytes result is not affected by packing elsewhere
            if to_lib(m).pack() != data:
                return bad('pack() changed')
            ctx.op()
            ctx.outcome('written')
    return run


def cases(tier):
    quick = tier == 'quick'
    for s in pack_only(tier):
        yield 'pack:' + s.key, explore(s, None, (0, 3), len(s.kinds) == 1)
    for s in records(tier, light=True):
        n = len(s.kinds)
        yield s.key, explore(s, None if n == 1 else (4 if quick else 12) if n == 2 else 2,
                             (0, 1, 5) if n == 1 or not quick else (0, 3), n == 1 or not quick)
