"""The operations a user performs on a record class, one function per method."""
import array
import io
import itertools
import mmap

from .endless import Endless
from .model import Bad, TooBig, diff, to_lib

JUNK = bytes(range(0xA1, 0xB1))
BUFFERS = {'bytes': bytes, 'bytearray': bytearray,
           'memoryview': lambda b: memoryview(bytes(b)),
           'memoryview_rw': lambda b: memoryview(bytearray(b)),
           'array': lambda b: array.array('B', b), 'mmap': lambda b: mapped(b)}


def mapped(data):
    """A memory map holding the data (bytes if there is nothing to map)."""
    if not data:
        return data
    m = mmap.mmap(-1, len(data))
    m[:] = data
    return m


class Stream(io.BytesIO):
    """A BytesIO that notices endless reading."""
    empty = 0

    def read(self, n=-1):
        data = super().read(n)
        if not data and n:
            self.empty += 1
            if self.empty > 2000:
                raise Endless(f'{self.empty} reads returned nothing')
        return data


def model_decode(spec, data, pos=0):
    """('ok', value, end) | ('bad', why) | ('big',)"""
    try:
        v, end = spec.dec(data, pos)
    except Bad as e:
        return ('bad', str(e))
    except TooBig:
        return ('big',)
    return ('ok', v, end)


class Raw(io.RawIOBase):
    """An unbuffered stream (which never reads short)."""

    def __init__(self, data):
        self.f = io.BytesIO(data)

    def readinto(self, b):
        return self.f.readinto(b)

    def readable(self):
        return True

    seekable = readable

    def seek(self, *args):
        return self.f.seek(*args)

    def tell(self):
        return self.f.tell()


class Duck:
    """A stream that is none of io's."""
    closed = False

    def __init__(self, data):
        self.f = io.BytesIO(data)
        self.read, self.readinto = self.f.read, self.f.readinto
        self.seek, self.tell = self.f.seek, self.f.tell

    def readable(self):
        return True

    seekable = readable


STREAMS = {'': io.BytesIO, '(raw)': Raw, '(duck)': Duck,
           '(buffered)': lambda data: io.BufferedReader(Raw(data), 8)}


def accepted(spec, length, alphabet=(0x00, 0x01, 0x02, 0x80, 0x81, 0xFF)):
    """Every byte string over the alphabet, up to the length, that is exactly one
    record - also those no value packs to.  Yields (data, value)."""
    for n in range(length + 1):
        for bs in itertools.product(alphabet, repeat=n):
            data = bytes(bs)
            res = model_decode(spec, data)
            if res[0] == 'ok' and res[2] == n:
                yield data, res[1]


def attempt(fn, *args):
    """('ok', result) or ('exc', exception) of calling into the library."""
    try:
        return ('ok', fn(*args))
    except Exception as e:
        return ('exc', e)


# values of user-defined subtypes of what a field holds
DRESS = {t: type(f'My{t.__name__}', (t,), {'__str__': lambda s: 'a', '__repr__': lambda s: 'b'})
         for t in (int, float, bytes, str, list, tuple)}


def dressed(v):
    """The library object for a model value, made of subtypes throughout."""
    if hasattr(v, '_spec'):
        return v._spec.cls()(*[dressed(x) for x in v._values()])
    if type(v) in (list, tuple):
        v = [dressed(x) for x in v] if type(v) is list else tuple(dressed(x) for x in v)
    return DRESS[type(v)](v) if type(v) in DRESS else v


def inplace(method):
    def run(cls, old, *args):
        obj = old()
        getattr(obj, method)(*args)
        return obj
    return run


# name -> fn(cls, old, pre, data, post) -> (object, stream or None)
def unpackers(cls, old):
    """Every way to unpack `data`; `old` makes an instance to overwrite."""
    def u_create(buf):
        return lambda pre, data, post: (cls.create_unpack(BUFFERS[buf](data + post)), None)

    def u_in(buf):
        def run(pre, data, post):
            o = old()
            o.unpack(BUFFERS[buf](data + post))
            return o, None
        return run

    def u_cfrom(buf):
        return lambda pre, data, post: (
            cls.create_unpack_from(BUFFERS[buf](pre + data + post), len(pre)), None)

    def u_from(buf):
        def run(pre, data, post):
            o = old()
            o.unpack_from(BUFFERS[buf](pre + data + post), len(pre))
            return o, None
        return run

    def u_cread(stream):
        def run(pre, data, post):
            s = stream(pre + data + post)
            s.seek(len(pre))
            return cls.create_unpack_read(s), s
        return run

    def u_read(stream):
        def run(pre, data, post):
            s = stream(pre + data + post)
            s.seek(len(pre))
            o = old()
            o.unpack_read(s)
            return o, s
        return run
    res = {}
    for b in BUFFERS:
        res[f'create_unpack({b})'] = u_create(b)
        res[f'unpack({b})'] = u_in(b)
        res[f'create_unpack_from({b})'] = u_cfrom(b)
        res[f'unpack_from({b})'] = u_from(b)
    for n, stream in STREAMS.items():
        res[f'create_unpack_read{n}'] = u_cread(stream)
        res[f'unpack_read{n}'] = u_read(stream)
    return res


def uses_pre(name):
    return 'from' in name or 'read' in name


def packers(obj):
    """Every way to pack: name -> fn(size) -> bytes."""
    def p_into(size):
        buf = bytearray(size + 4)
        obj.pack_into(buf, 2)
        return bytes(buf[2:2 + size])

    def p_write(size):
        s = io.BytesIO()
        obj.pack_write(s)
        return s.getvalue()
    return {'pack': lambda size: obj.pack(), 'pack_into': p_into, 'pack_write': p_write}


__all__ = ['JUNK', 'accepted', 'BUFFERS', 'model_decode', 'attempt', 'unpackers', 'uses_pre',
           'packers', 'diff', 'to_lib']


# ---------------------------------------------------- whole-record conformance
def check_packs(ctx, spec, m, loose=False, sub='', obj=None):
    """Pack `m` through every method; bytes, untouched surroundings and size
    must be the model's.  If the model refuses the value, every method must."""
    try:
        want = spec.enc(m)
    except Bad as e:
        want = None
        why = str(e)
    obj = to_lib(m) if obj is None else obj
    cls = type(obj)
    big = len(want) + 9 if want is not None else 70000
    buf = bytearray(b'\xA5' * big)
    out = io.BytesIO(b'\xA5' * 3)
    out.seek(3)
    for name, fn, got in (
            ('pack', obj.pack, None),
            ('pack_into', lambda: obj.pack_into(buf, 4), lambda: bytes(buf)),
            ('pack_write', lambda: obj.pack_write(out), out.getvalue)):
        res = attempt(fn)
        ctx.op()
        if want is None:
            if res[0] == 'ok':
                ctx.fail(f'{spec}: {name} of {m} is accepted, but {why}', sub)
                return False
            continue
        if res[0] == 'exc':
            ctx.fail(f'{spec}: {name} of {m} raises {res[1]!r}, expected {want!r}', sub)
            return False
        size = obj.serializer.size
        data = res[1] if got is None else got()
        full = (want if got is None else b'\xA5' * 4 + want + b'\xA5' * 5
                if name == 'pack_into' else b'\xA5' * 3 + want)
        if data != full:
            ctx.fail(f'{spec}: {name} of {m} gives {data!r}, expected {full!r}', sub)
            return False
        if size != len(want):
            ctx.fail(f'{spec}: after {name} of {m} the size is {size}, not {len(want)}', sub)
            return False
    ctx.state()
    ctx.trace()
    ctx.outcome('packed' if want is not None else 'pack refused')
    return True


def check_unpacks(ctx, spec, data, old=None, pre=JUNK[:3], post=JUNK[:4], loose=False,
                  sub='', cls=None, exc=None):
    """Unpack `data` through the unpack methods (bytes, buffer at an offset,
    stream; new instance and in place) and compare with the model: values,
    stream position and size - or refusal by all (with `exc`, that type)."""
    cls = cls or spec.cls()
    if spec.final:
        post = b''
    want = model_decode(spec, data + post)
    if want[0] == 'big':
        ctx.skip('count above the item bound')
        return True
    s1 = io.BytesIO(pre + data + post)
    s2 = io.BytesIO(pre + data + post)
    s1.seek(len(pre))
    s2.seek(len(pre))

    def inplace(name, *args):
        def go():
            o = old()
            getattr(o, name)(*args)
            return o
        return go
    full = pre + data + post
    runs = [('create_unpack', lambda: cls.create_unpack(data + post), None),
            ('create_unpack_from', lambda: cls.create_unpack_from(full, len(pre)), None),
            ('create_unpack_from(bytearray)',
             lambda: cls.create_unpack_from(bytearray(full), len(pre)), None),
            ('create_unpack_read', lambda: cls.create_unpack_read(s1), s1)]
    if old is not None:
        runs += [('unpack', inplace('unpack', memoryview(data + post)), None),
                 ('unpack_from', inplace('unpack_from', full, len(pre)), None),
                 ('unpack_read', inplace('unpack_read', s2), s2)]
    for name, fn, stream in runs:
        res = attempt(fn)
        ctx.op()
        if want[0] == 'bad':
            if res[0] == 'ok':
                ctx.fail(f'{spec}: {name} of {data!r} gives {res[1]!r}, but {want[1]}', sub)
                return False
            if exc and not isinstance(res[1], exc):
                ctx.fail(f'{spec}: {name} of {data!r} ({want[1]}) raises {res[1]!r} '
                         f'instead of {exc.__name__}', sub)
                return False
            continue
        if res[0] == 'exc':
            ctx.fail(f'{spec}: {name} of {data!r} raises {res[1]!r}, expected {want[1]}', sub)
            return False
        size = cls.serializer.size
        d = diff(res[1], want[1], loose=loose)
        if d:
            ctx.fail(f'{spec}: {name} of {data!r} gives {res[1]!r}, expected {want[1]}: {d}', sub)
            return False
        if stream is not None and stream.tell() != len(pre) + want[2]:
            ctx.fail(f'{spec}: {name} of {data!r} ends {stream.tell() - len(pre)} bytes in, '
                     f'the record has {want[2]}', sub)
            return False
        if size != want[2]:
            ctx.fail(f'{spec}: after {name} of {data!r} the size is {size}, not {want[2]}', sub)
            return False
    ctx.state()
    ctx.trace()
    ctx.outcome('unpacked' if want[0] == 'ok' else 'unpack refused')
    return True


def check_record(ctx, spec, m, **kw):
    """Both directions of one instance."""
    if not check_packs(ctx, spec, m, sub=kw.get('sub', '')):
        return False
    try:
        data = spec.enc(m)
    except Bad:
        return True
    return check_unpacks(ctx, spec, data, lambda: to_lib(m), **kw)
