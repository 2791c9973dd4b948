"""Reference model of the documented wire format.

Written from the README only: every node of a type tree knows how to encode a
value, how to decode bytes, and which type hint a user writes for it.  Nothing
here uses the library's serializers; the only shared ground is `struct`, which
the README names as the definition of the basic formats.

Conventions
    bo    byte order prefix of the class, one of '', '<', '>', '=', '@', '!'
    env   the record being encoded/decoded (an Obj): what deciders look at
    Bad   raised by dec() for input the documented format does not accept, and
          by enc() for values it cannot represent
"""
import math
import operator
import struct
import types
import typing
from typing import Annotated, Union

from . import lib
from .lib import BO, L, Structured


class Bad(Exception):
    pass


class TooBig(Exception):
    """The input asks for more items than the exploration bound."""


MAX_ITEMS = 2000


def spack(fmt, *vals):
    try:
        return struct.pack(fmt, *vals)
    except (struct.error, OverflowError, TypeError) as e:
        raise Bad(f'{fmt}: {e}') from None


def sunpack(fmt, buf, pos):
    size = struct.calcsize(fmt)
    if pos + size > len(buf):
        raise Bad(f'truncated {fmt}')
    return struct.unpack_from(fmt, buf, pos), pos + size


# ---------------------------------------------------------------- type trees
class T:
    basic = False       # may share one struct format with its neighbours
    nvals = 1           # values it contributes (0 for padding)
    final = False       # may read to the end of the input
    joins = None        # joins(next type): the two as one type, or None
    _hint = None

    def hint(self):
        if self._hint is None:
            self._hint = self.mkhint()
        return self._hint

    def enc(self, v, bo, env):
        raise NotImplementedError

    def dec(self, buf, pos, bo, env):
        raise NotImplementedError


class Basic(T):
    basic = True

    def __init__(self, name, fmt):
        self.name, self.fmt = name, fmt

    def mkhint(self):
        if not hasattr(L, self.name):       # a format of the user's own
            return Annotated[object, lib.StructSerializer(self.fmt)]
        return getattr(L, self.name)

    def wrap(self, v):          # what the user gets
        return v

    def raw(self, v):
        return v

    def enc(self, v, bo, env):
        return spack(bo + self.fmt, *([self.raw(v)] if self.nvals else []))

    def dec(self, buf, pos, bo, env):
        vals, pos = sunpack(bo + self.fmt, buf, pos)
        return (self.wrap(vals[0]) if self.nvals else None), pos

    def __repr__(self):
        return self.name


BASIC = {n: Basic(n, f) for n, f in dict(
    bool8='?', int8='b', uint8='B', int16='h', uint16='H', int32='i',
    uint32='I', int64='q', uint64='Q', float16='e', float32='f',
    float64='d').items()}
U8, U16, U32, U64 = (BASIC[n] for n in ('uint8', 'uint16', 'uint32', 'uint64'))
I8, I16, I32, I64 = (BASIC[n] for n in ('int8', 'int16', 'int32', 'int64'))


class Pad(Basic):
    nvals = 0

    def __init__(self, n):
        self.name, self.fmt, self.n = f'pad[{n}]', f'{n}x', n

    def mkhint(self):
        return L.pad[self.n]


class Char(Basic):
    def __init__(self, n):
        self.name, self.fmt, self.n = f'char[{n}]', f'{n}s', n

    def mkhint(self):
        return L.char[self.n]


class Pascal(Basic):
    def __init__(self, n):
        self.name, self.fmt, self.n = f'pascal[{n}]', f'{n}p', n

    def mkhint(self):
        return L.pascal[self.n]


class SerAs(Basic):
    """A custom type packed as a basic one.  `cls` is the type, `factory` how
    it is made from the decoded basic value (default: the type itself)."""

    def __init__(self, basic, cls, factory=None):
        self.inner, self.cls, self.factory = basic, cls, factory
        self.fmt = basic.fmt
        self.name = f'{cls.__name__}<{basic.name}>' + ('*' if factory else '')

    def mkhint(self):
        h = L.SerializeAs(self.inner.hint())
        if self.factory:
            h = h.with_factory(self.factory)
        return Annotated[self.cls, h]

    def wrap(self, v):
        try:
            return (self.factory or self.cls)(v)
        except ValueError as e:
            raise Bad(str(e)) from None


class CharDyn(T):
    def __init__(self, length):
        self.length = length

    def mkhint(self):
        return L.char[self.length.hint()]

    def enc(self, v, bo, env):
        return spack(bo + self.length.fmt, len(v)) + v

    def dec(self, buf, pos, bo, env):
        (n,), pos = sunpack(bo + self.length.fmt, buf, pos)
        if pos + n > len(buf):
            raise Bad('truncated string')
        return bytes(buf[pos:pos + n]), pos + n

    def __repr__(self):
        return f'char[{self.length}]'


class CharTerm(T):
    def __init__(self, term, alias=None):
        self.term, self.alias = term, alias

    def mkhint(self):
        return getattr(L, self.alias) if self.alias else L.char[self.term]

    def enc(self, v, bo, env):
        return v if v[-1:] == self.term else v + self.term

    def dec(self, buf, pos, bo, env):
        end = bytes(buf).find(self.term, pos)
        if end < 0:
            raise Bad('unterminated')
        return bytes(buf[pos:end]), end + 1

    def __repr__(self):
        return f'char[{self.term!r}]'


class CharNET(T):
    def mkhint(self):
        return L.char[L.NET]

    def enc(self, v, bo, env):
        n = len(v)
        if n > 0x7FFF:
            raise Bad('too long for .NET')
        if n < 0x80:
            return bytes([n]) + v
        return bytes([0x80 | n & 0x7F, n >> 7]) + v

    def dec(self, buf, pos, bo, env):
        (n,), pos = sunpack('B', buf, pos)
        if n >= 0x80:
            (hi,), pos = sunpack('B', buf, pos)
            n = n & 0x7F | hi << 7
        if pos + n > len(buf):
            raise Bad('truncated string')
        return bytes(buf[pos:pos + n]), pos + n

    def __repr__(self):
        return 'char[NET]'


class CharEnd(T):
    final = True

    def mkhint(self):
        return L.char[math.inf]

    def enc(self, v, bo, env):
        return v

    def dec(self, buf, pos, bo, env):
        return bytes(buf[pos:]), len(buf)

    def __repr__(self):
        return 'char[inf]'


class Upside(L.EncoderDecoder):
    """A user's own codec (reverses the text)."""
    @classmethod
    def encode(cls, s):
        return s[::-1].encode('ascii')

    @classmethod
    def decode(cls, b):
        return bytes(b).decode('ascii')[::-1]


class Uni(T):
    """Text over any of the char framings."""

    def __init__(self, inner, encoding='utf8', alias=None):
        self.inner, self.encoding, self.alias = inner, encoding, alias
        self.final = inner.final

    def mkhint(self):
        if self.alias:
            return getattr(L, self.alias)
        c = self.inner
        count = (c.n if isinstance(c, Char) else
                 c.length.hint() if isinstance(c, CharDyn) else
                 c.term if isinstance(c, CharTerm) else
                 L.NET if isinstance(c, CharNET) else math.inf)
        if self.encoding is None:
            return L.unicode[count]
        return L.unicode[count, self.encoding]

    def enc(self, v, bo, env):
        e = self.encoding or 'utf8'
        try:
            raw = v.encode(e) if isinstance(e, str) else e.encode(v)
        except UnicodeError as x:
            raise Bad(str(x)) from None
        return self.inner.enc(raw, bo, env)

    def dec(self, buf, pos, bo, env):
        raw, pos = self.inner.dec(buf, pos, bo, env)
        e = self.encoding or 'utf8'
        try:
            v = raw.decode(e) if isinstance(e, str) else e.decode(raw)
        except UnicodeError as x:
            raise Bad(str(x)) from None
        return v.rstrip('\0'), pos

    def __repr__(self):
        e = self.encoding
        return f'unicode[{self.inner},{e if isinstance(e, str) or e is None else e.__name__}]'


class Arr(T):
    """count: int or a size type; size: size type of the data-size word."""

    def __init__(self, count, item, size=None):
        self.count, self.item, self.size = count, item, size

    def mkhint(self):
        c = self.count if isinstance(self.count, int) else self.count.hint()
        h = L.Header[c] if self.size is None else L.Header[c, self.size.hint()]
        return L.array[h, self.item.hint()]

    def _header(self):
        fmt = '' if isinstance(self.count, int) else self.count.fmt
        return fmt + (self.size.fmt if self.size else '')

    def enc(self, v, bo, env):
        if isinstance(self.count, int) and len(v) != self.count:
            raise Bad('array length')
        if self.item.basic:
            body = spack(bo + self.item.fmt * len(v),
                         *[self.item.raw(x) for x in v])
        else:
            body = b''.join(self.item.enc(x, bo, env) for x in v)
        words = [] if isinstance(self.count, int) else [len(v)]
        if self.size:
            words.append(len(body))
        return (spack(bo + self._header(), *words) if words else b'') + body

    def dec(self, buf, pos, bo, env):
        words, pos = sunpack(bo + self._header(), buf, pos)
        words = list(words)
        n = self.count if isinstance(self.count, int) else words.pop(0)
        if n > MAX_ITEMS:
            raise TooBig
        start, items = pos, []
        for _ in range(n):
            v, pos = self.item.dec(buf, pos, bo, env)
            items.append(v)
        if self.size and words[0] != pos - start:
            raise Bad('array data size')
        return items, pos

    def __repr__(self):
        s = f',{self.size}' if self.size else ''
        return f'array[Header[{self.count}{s}],{self.item}]'


def joined(types_):
    """The types, neighbours that join into one replaced by it."""
    out = []
    for t in types_:
        both = out[-1].joins(t) if out and out[-1].joins else None
        if both is None:
            out.append(t)
        else:
            out[-1] = both
    return out


def enc_fields(types_, values, bo, env):
    """Encode a sequence of types: consecutive basic ones are one format."""
    out, run, vals = [], [], []
    values = iter(values)
    if any(t.joins for t in types_):
        types_ = joined(types_)

    def flush():
        if run:
            out.append(spack(bo + ''.join(t.fmt for t in run), *vals))
            run.clear()
            vals.clear()
    for t in types_:
        if t.basic:
            run.append(t)
            if t.nvals:
                vals.append(t.raw(next(values)))
        else:
            flush()
            if t.nvals > 1:
                v = [next(values) for _ in range(t.nvals)]
            else:
                v = next(values) if t.nvals else None
            out.append(t.enc(v, bo, env))
    flush()
    return b''.join(out)


def dec_fields(types_, buf, pos, bo, env, assign=None):
    """Decode a sequence of types; assign(i, value) is called for each value
    once the serializer it belongs to (a whole run of basic ones) is done."""
    out = []

    def give(v):
        if assign:
            assign(len(out), v)
        out.append(v)
    i, types_ = 0, list(types_)
    if any(t.joins for t in types_):
        types_ = joined(types_)
    while i < len(types_):
        if types_[i].basic:
            j = i
            while j < len(types_) and types_[j].basic:
                j += 1
            run = types_[i:j]
            vals, pos = sunpack(bo + ''.join(t.fmt for t in run), buf, pos)
            for t, v in zip((t for t in run if t.nvals), vals):
                give(t.wrap(v))
            i = j
        else:
            v, pos = types_[i].dec(buf, pos, bo, env)
            if types_[i].nvals > 1:
                for x in v:
                    give(x)
            elif types_[i].nvals:
                give(v)
            i += 1
    return out, pos


class Tup(T):
    def __init__(self, *items, typing_tuple=False):
        self.items, self.typing_tuple = items, typing_tuple
        self.final = any(t.final for t in items)

    def mkhint(self):
        args = tuple(t.hint() for t in self.items)
        return typing.Tuple[args] if self.typing_tuple else tuple[args]

    def enc(self, v, bo, env):
        if len(v) != sum(t.nvals for t in self.items):
            raise Bad('tuple length')
        return enc_fields(self.items, v, bo, env)

    def dec(self, buf, pos, bo, env):
        vals, pos = dec_fields(self.items, buf, pos, bo, env)
        return tuple(vals), pos

    def __repr__(self):
        return f'tuple[{",".join(map(repr, self.items))}]'


class Nest(T):
    def __init__(self, spec):
        self.spec = spec

    @property
    def final(self):
        return any(t.final for _, t in self.spec.fields)

    def mkhint(self):
        return self.spec.cls()

    def enc(self, v, bo, env):
        return v._spec.enc(v)

    def dec(self, buf, pos, bo, env):
        return self.spec.dec(buf, pos)

    def __repr__(self):
        return self.spec.name


class SelfT(T):
    def mkhint(self):
        return typing.Self

    def enc(self, v, bo, env):
        return v._spec.enc(v)

    def dec(self, buf, pos, bo, env):
        return env._spec.dec(buf, pos)

    def __repr__(self):
        return 'Self'


class Cond(T):
    def __init__(self, fn, inner, *default):
        self.fn, self.inner, self.default = fn, inner, default
        self.nvals = inner.nvals
        self.final = inner.final

    def mkhint(self):
        return Annotated[self.inner.hint(), L.Condition(self.fn, *self.default)]

    def enc(self, v, bo, env):
        return self.inner.enc(v, bo, env) if self.fn(env) else b''

    def dec(self, buf, pos, bo, env):
        if self.fn(env):
            return self.inner.dec(buf, pos, bo, env)
        if self.nvals > 1:
            return list(self.default), pos
        return (self.default[0] if self.nvals else None), pos

    def __repr__(self):
        return f'Cond({self.inner})'


class Back(T):
    """Look-back union."""

    def __init__(self, fn, members, default=None):
        self.fn, self.members, self.default = fn, members, default

    @property
    def final(self):
        return any(t.final for t in self._all())

    def _all(self):
        return list(self.members.values()) + ([self.default] if self.default else [])

    def _union(self):
        hints = []
        for t in self._all():
            if t.hint() not in hints:
                hints.append(t.hint())
        return Union[tuple(hints)]

    def _map(self):
        return ({k: t.hint() for k, t in self.members.items()},
                self.default.hint() if self.default else None)

    def mkhint(self):
        return Annotated[self._union(), L.LookbackDecider(self.fn, *self._map())]

    def pick(self, key):
        t = self.members.get(key, self.default)
        if t is None:
            raise Bad(f'unmapped {key!r}')
        return t

    def enc(self, v, bo, env):
        return self.pick(self.fn(env)).enc(v, bo, env)

    def dec(self, buf, pos, bo, env):
        return self.pick(self.fn(env)).dec(buf, pos, bo, env)

    def __repr__(self):
        m = ','.join(f'{k}:{t}' for k, t in self.members.items())
        return f'{type(self).__name__}({m}|{self.default})'


class Ahead(Back):
    """Look-ahead union."""

    def __init__(self, peek, fn, members, default=None):
        super().__init__(fn, members, default)
        self.peek = peek

    def mkhint(self):
        return Annotated[self._union(), L.LookaheadDecider(
            self.peek.hint(), self.fn, *self._map())]

    def dec(self, buf, pos, bo, env):
        key, _ = self.peek.dec(buf, pos, bo, env)
        return self.pick(key).dec(buf, pos, bo, env)


# ------------------------------------------------------------------- records
class Obj:
    """A record of the model: what deciders see, and what is compared."""

    def __init__(self, spec, *vals):
        self.__dict__['_spec'] = spec
        for (n, _), v in zip(spec.attrs, vals):
            self.__dict__[n] = v

    def _values(self):
        return [self.__dict__[n] for n, _ in self._spec.attrs]

    def __eq__(self, other):
        return (isinstance(other, Obj) and self._spec is other._spec
                and self.__dict__ == other.__dict__)

    def __repr__(self):
        vs = ', '.join(f'{n}={self.__dict__[n]!r}' for n, _ in self._spec.attrs
                       if n in self.__dict__)
        return f'{self._spec.name}({vs})'


def build_class(name, hints, bo='', bases=(Structured,), **kw):
    """Define a class the way a `class` statement does."""
    def body(ns):
        for n, h in hints:
            ns['__annotations__'][n] = h
        ns['__module__'] = __name__
    return types.new_class(name, bases, {'byte_order': BO[bo], **kw}, body)


class Spec:
    """A record class: ordered (name, type) fields and a byte order."""

    def __init__(self, name, fields, bo=''):
        self.name, self.fields, self.bo = name, list(fields), bo
        self.types = [t for _, t in self.fields]
        self.attrs = [(n, t) for n, t in self.fields if t.nvals]
        self._cls = None
        self.retargeted = False     # instances are re-targeted to this byte order

    def cls(self):
        if self._cls is None:
            self._cls = build_class(
                self.name, [(n, t.hint()) for n, t in self.fields], self.bo)
        return self._cls

    def enc(self, obj):
        return enc_fields(self.types, obj._values(), self.bo, obj)

    def dec(self, buf, pos=0):
        env = Obj(self)

        def assign(i, v):
            env.__dict__[self.attrs[i][0]] = v
        _, pos = dec_fields(self.types, buf, pos, self.bo, env, assign)
        return env, pos

    @property
    def final(self):
        return any(t.final for t in self.types)

    def obj(self, *vals):
        return Obj(self, *vals)

    def __repr__(self):
        fs = ', '.join(f'{n}: {t}' for n, t in self.fields)
        return f'{self.name}{{{fs}}} byte_order={self.bo!r}'


def to_lib(v):
    """The library object a user would pass for a model value."""
    if isinstance(v, Obj):
        o = v._spec.cls()(*[to_lib(x) for x in v._values()])
        return o.with_byte_order(BO[v._spec.bo]) if v._spec.retargeted else o
    if type(v) is list:
        return [to_lib(x) for x in v]
    if type(v) is tuple:
        return tuple(to_lib(x) for x in v)
    return v


def retarget(m, bo):
    """The instance `m`, re-targeted to another byte order."""
    spec = Spec(m._spec.name, m._spec.fields, bo)
    spec._cls, spec.retargeted = m._spec.cls(), True
    return spec.obj(*m._values())


def diff(lv, mv, path='', loose=False):
    """None if the library value is the model value (same types, same bits),
    else a description of the first difference.  `loose` accepts subclasses
    for records (specialised generics)."""
    if isinstance(mv, Obj):
        cls = mv._spec.cls()
        if type(lv) is not cls and not (loose and isinstance(lv, cls)) and not loose:
            return f'{path}: {lv!r} is a {type(lv).__name__}, expected {mv._spec.name}'
        for n, _ in mv._spec.attrs:
            try:
                x = getattr(lv, n)
            except AttributeError:
                return f'{path}.{n}: missing, expected {mv.__dict__[n]!r}'
            d = diff(x, mv.__dict__[n], f'{path}.{n}', loose)
            if d:
                return d
        return None
    if type(lv) is not type(mv):
        return (f'{path}: got {lv!r} ({type(lv).__name__}), expected {mv!r} '
                f'({type(mv).__name__})')
    if type(mv) in (list, tuple):
        if len(lv) != len(mv):
            return f'{path}: got {len(lv)} items {lv!r}, expected {mv!r}'
        for i, (a, b) in enumerate(zip(lv, mv)):
            d = diff(a, b, f'{path}[{i}]', loose)
            if d:
                return d
        return None
    if type(mv) is float:
        ok = struct.pack('d', lv) == struct.pack('d', mv) or (
            lv != lv and mv != mv)
    else:
        ok = lv == mv
    return None if ok else f'{path}: got {lv!r}, expected {mv!r}'


def fields_of(v, spec):
    """Snapshot of a library instance for error messages."""
    return {n: getattr(v, n, '<missing>') for n, _ in spec.attrs}
