"""C25 Invalid declarations are refused, valid ones are not."""
import functools
import itertools
import sys
import types

from mc import lib
from mc.child import in_child

ID = 'C25'
LEVEL = 'model_checking'
TECHNIQUE = ('bounded exhaustive exploration of class definitions, alone and as two-step '
             'histories from a fresh library state, against an independent table of the '
             'documented arguments')
RULE = ('declarations: every argument of a pool (integers, sized types, markers, terminators, '
        'and values and types of other kinds) in every slot of every hint that takes one, '
        'given directly, in a postponed annotation, or through a type variable of a generic '
        'class; every item type, unindexed hint, decider, condition and adapter declaration of '
        'a pool. Histories: every declaration alone in a fresh process, and every ordered '
        'pair for the same kind of hint (in the quick tier: with different verdicts); long '
        'histories of all declarations in both orders (in the thorough tier: after every '
        'first one). state = history, transition = definition or '
        'operation on what it defined')
ASSUMPTIONS = ['left open (neither demanded nor forbidden): booleans as counts, counts beyond '
               'the largest C size, pascal[0], infinities that are not floats, marker '
               'instances, annotated size types, unknown encoding names']

PRELUDE = '''
import math, fractions, decimal, functools
from typing import *
from structured import *
from structured.serializers import StructSerializer
Tv = TypeVar('Tv')
class Sub(Structured, byte_order=ByteOrder.BE):
    x: uint8
    y: uint16
class Fin(Structured, byte_order=ByteOrder.BE):
    x: uint8
    y: char[math.inf]
class Empty(Structured):
    pass
class Enc(EncoderDecoder):
    @classmethod
    def encode(cls, s): return s.encode('utf8')
    @classmethod
    def decode(cls, b): return b.decode('utf8')
class NotEnc:
    encode = Enc.encode
    decode = Enc.decode
class Plain: pass
def yes(*a): return True
def zero(*a): return 0
'''
BASE = {'__name__': __name__}
exec(compile(PRELUDE, __name__, 'exec', dont_inherit=True), BASE)
OK, BAD, OPEN = 'ok', 'bad', 'open'
BE = ', byte_order=ByteOrder.BE'


class Decl:
    def __init__(self, label, src, verdict, args='', data=b'', group='', extra=''):
        self.label, self.src, self.verdict = label, src, verdict
        self.args, self.data, self.group, self.extra = args, data, group, extra


# ------------------------------------------------------------- the arguments
SIZES = {'uint8': 1, 'uint16': 2, 'uint32': 4, 'uint64': 8}
COUNTS = ['0', '1', '2', '3', '7']
TERMS = ["b'\\0'", "b'|'"]
OTHERS = ['-1', '-7', '1.0', '2.0', '1.5', '0.0', '-0.0', 'math.nan', '-math.inf', 'None', "'3'", "''", "b''",
          "b'ab'", 'int8', 'int16', 'int32', 'int64', 'float32', 'bool8', 'int', 'bytes', 'str', 'Plain', 'Plain()',
          'Sub', '[1]', '(1, 2)', '()', 'uint8, uint8, uint8', 'char[2]', 'char', 'fractions.Fraction(2)',
          'decimal.Decimal(2)', '1j', '1 + 0j', '{}', 'bytearray(b"|")', 'Ellipsis', 'Header[2]', 'array[Header[2], uint8]']
OPENS = ['True', 'False', '2**70', "decimal.Decimal('Infinity')", 'NET()', "Annotated[uint8, 'doc']",
         'Annotated[int, uint8]']
ARGS = COUNTS + [*SIZES] + ['NET', 'math.inf'] + TERMS + OTHERS + OPENS


def be(n, size):
    return n.to_bytes(size, 'big')


def text_sample(arg, value):
    """(value, bytes) of char[arg] for the documented arguments, else None."""
    if arg in COUNTS:
        v = (value * 9)[:int(arg)]
        return v, v
    if arg in SIZES:
        return value, be(len(value), SIZES[arg]) + value
    if arg == 'NET':
        return value, be(len(value), 1) + value
    if arg == 'math.inf':
        return value, value
    if arg in TERMS:
        return value, value + eval(arg)
    return None


def verdict(arg, sample):
    return OPEN if arg in OPENS else OK if sample else BAD


def count_sample(arg):
    """(items, header bytes) of Header[arg]."""
    if arg in COUNTS:
        return list(range(1, int(arg) + 1)), b''
    if arg in SIZES:
        return [1, 2], be(2, SIZES[arg])
    return None


def slots():
    """slot -> (hint with @ for the argument, fn(arg) -> (verdict, args, bytes))"""
    def char(arg):
        s = text_sample(arg, b'ab')
        return verdict(arg, s), *((repr((s[0],)), s[1]) if s else ('', b''))

    def text(arg):
        s = text_sample(arg, b'ab')
        return verdict(arg, s), *((repr((s[0].decode(),)), s[1]) if s else ('', b''))

    def text2(arg):
        # a tuple in the first place makes too many arguments
        return text(arg)

    def header(arg):
        s = count_sample(arg)
        if arg == 'uint8, uint8, uint8':
            return BAD, '', b''
        return verdict(arg, s), *((repr((s[0],)), s[1] + bytes(s[0])) if s else ('', b''))

    def datasize(prefix, n):
        def f(arg):
            if arg == 'None':
                return OPEN, '', b''
            ok = arg in SIZES
            items = [1, 2]
            data = prefix + be(2, SIZES[arg]) + bytes(items) if ok else b''
            return (OPEN if arg in OPENS else OK if ok else BAD), repr((items,)), data
        return f

    def pad(arg):
        ok = arg in COUNTS
        return (OPEN if arg in OPENS else OK if ok else BAD), '()', bytes(int(arg)) if ok else b''

    def pascal(arg):
        ok = arg in COUNTS and arg != '0'
        n = int(arg) if ok else 0
        v = b'ab'[:max(0, n - 1)]
        data = (bytes([len(v)]) + v).ljust(n, b'\0') if ok else b''
        return (OPEN if arg in OPENS + ['0'] else OK if ok else BAD), repr((v,)), data

    return {
        'char': ('char[@]', char),
        'unicode': ('unicode[@]', text),
        'unicode2': ('unicode[@, "utf8"]', text2),
        'header': ('array[Header[@], uint8]', header),
        'static_size': ('array[Header[2, @], uint8]', datasize(b'', 2)),
        'dynamic_size': ('array[Header[uint16, @], uint8]', datasize(b'\0\2', 2)),
        'pad': ('pad[@]', pad),
        'pascal': ('pascal[@]', pascal),
    }


ATTR = {'pad': '_'}


def klass(hint, attr='a'):
    return f'class X(Structured{BE}):\n    {attr}: {hint}\n'


def argument_decls():
    for slot, (hint, fn) in slots().items():
        for arg in ARGS:
            if slot in ('header', 'unicode') and arg == '(1, 2)':
                continue            # the same as two arguments: see below
            v, args, data = fn(arg)
            src = klass(hint.replace('@', arg), ATTR.get(slot, 'a'))
            if slot in ('unicode2', 'static_size', 'dynamic_size') and arg.startswith('uint8,'):
                v = BAD
            yield Decl(f'{slot}/{arg}', src, v, args, data, slot)
    # through a type variable
    for slot, hint in {'char': 'char[Tv]', 'unicode': 'unicode[Tv]', 'unicode2': 'unicode[Tv, "utf8"]',
                       'header': 'array[Header[Tv], uint8]', 'static_size': 'array[Header[2, Tv], uint8]',
                       'dynamic_size': 'array[Header[uint16, Tv], uint8]'}.items():
        fn = slots()[slot][1]
        for arg in ARGS:
            if arg in ("'3'", "''", 'None', '[1]', '(1, 2)', '()', 'uint8, uint8, uint8', '{}',
                       'bytearray(b"|")', 'Ellipsis'):
                continue            # typing itself gives these a meaning or refuses them
            v, args, data = fn(arg)
            src = (f'class G(Generic[Tv], Structured{BE}):\n    a: {hint}\n'
                   f'class X(G[{arg}]{BE}):\n    pass\n')
            yield Decl(f'generic {slot}/{arg}', src, v, args, data, slot)


GOOD_ENC = ["'utf8'", "'ascii'", "'utf-8'", 'Enc', 'Enc()']
BAD_ENC = ['5', 'None', 'int', 'str', 'Plain', 'Plain()', "b'utf8'", 'NotEnc', 'uint8', 'EncoderDecoder.encode',
           '1.0', "['utf8']", "'utf8', 'utf8'"]

# item type -> (two values, bytes), or None if it can't be an item
ITEMS = {
    'uint8': ('[1, 2]', b'\1\2'), 'int16': ('[1, -1]', b'\0\1\xff\xff'), 'char[2]': ("[b'ab', b'cd']", b'abcd'),
    'char[uint8]': ("[b'', b'a']", b'\0\1a'), 'unicode[NET]': ("['', 'a']", b'\0\1a'),
    'null_char': ("[b'', b'a']", b'\0a\0'), 'Sub': ('[Sub(1, 2), Sub(3, 4)]', b'\1\0\2\3\0\4'),
    'tuple[uint8, uint8]': ('[(1, 2), (3, 4)]', b'\1\2\3\4'), 'Tuple[uint8, uint8]': ('[(1, 2), (3, 4)]', b'\1\2\3\4'),
    'array[Header[1], uint8]': ('[[1], [2]]', b'\1\2'), 'pascal[2]': ("[b'a', b'']", b'\1a\0\0'),
    "Annotated[uint8, 'doc']": ('[1, 2]', b'\1\2'), 'Annotated[int, SerializeAs(uint8)]': ('[1, 2]', b'\1\2'),
    'Annotated[Union[uint8, char[2]], LookbackDecider(zero, {0: uint8})]': ('[1, 2]', b'\1\2'),
    'int': None, 'str': None, 'bytes': None, 'None': None, 'object': None, 'Plain': None, 'Plain()': None, '5': None,
    'char': None, 'unicode': None, 'pad': None, 'pascal': None, 'array': None, 'Header': None, 'Header[2]': None,
    'char[math.inf]': None, 'unicode[math.inf]': None, 'Fin': None, 'tuple[uint8, char[math.inf]]': None,
    'tuple[uint8, int]': None, 'tuple[uint8, ...]': None, 'tuple': None, 'list': None, 'list[uint8]': None,
    'Union[uint8, uint16]': None, 'Optional[uint8]': None, 'Annotated[int, 5]': None, 'ClassVar[uint8]': None,
    'tuple[uint8, char]': None, 'Annotated[uint8, LookbackDecider(zero, {0: uint8})]': None,
    'Annotated[int, Condition(yes, 0)]': None,
    'Annotated[char[math.inf], Condition(yes, b"")]': None,
}

UNINDEXED = ['char', 'unicode', 'pad', 'pascal', 'array']
CONTEXTS = ['@', "Annotated[@, 'doc']", "Annotated[int, 'doc', @]", 'tuple[uint8, @]', 'Tuple[@, uint8]', 'array[Header[2], @]',
            'Annotated[@, Condition(yes, 0)]', 'Annotated[Union[uint8, char[2]], LookbackDecider(zero, {0: @})]',
            'Annotated[Union[uint8, char[2]], LookbackDecider(zero, {0: uint8}, @)]',
            'Annotated[Union[uint8, char[2]], LookaheadDecider(@, zero, {0: uint8})]',
            'Annotated[int, SerializeAs(@)]']

# basic type for SerializeAs -> (value, bytes) of the converted field
ADAPT = {
    'uint8': ('5', b'\5'), 'int16': ('5', b'\0\5'), "Annotated[uint8, 'doc']": ('5', b'\5'),
    'float32': None, 'bool8': None,
}
ADAPT_BAD = ['int', 'str', 'Plain', 'Plain()', '5', 'None', 'Sub', 'char[uint8]', 'char[NET]', 'null_char',
             'char[math.inf]', 'unicode[3]', 'null_unicode', 'array[Header[2], uint8]', 'array[Header[2], Sub]',
             'tuple[uint8, uint8]', 'tuple[uint8]', 'pad[1]', 'pad[3]', "StructSerializer('BH')", "StructSerializer('')",
             'Union[uint8, uint16]', 'Annotated[uint8, Condition(yes, 0)]',
             'Annotated[Union[uint8, char[2]], LookbackDecider(zero, {0: uint8})]', 'NET', 'Header[2]']

UNION = 'Annotated[Union[uint8, char[2]], @]'
RESULT_OK = {'uint8': ('5', b'\5'), 'char[2]': ("b'ab'", b'ab'), 'char[uint8]': ("b'a'", b'\1a'),
             'Sub': ('Sub(1, 2)', b'\1\0\2'), 'tuple[uint8, uint8]': ('(1, 2)', b'\1\2'),
             'array[Header[2], uint8]': ('[1, 2]', b'\1\2'), "StructSerializer('H')": ('5', b'\0\5'),
             'Annotated[uint8, Condition(yes, 0)]': ('5', b'\5')}
RESULT_BAD = ['int', 'str', 'Plain', 'Plain()', '5', "'uint8'", 'pad[1]', 'pad[2]', "StructSerializer('BH')",
              "StructSerializer('')", 'Union[uint8, uint16]', 'tuple[uint8, int]', 'NET', 'Header[2]', 'list[uint8]']
NOT_UNION = ['uint8', 'char[2]', 'char[uint8]', 'Sub', 'tuple[uint8, uint8]', 'array[Header[2], uint8]', 'int', 'Plain',
             'unicode[NET]']

# condition: hint -> number of values
COND = {'uint8': 1, 'char[2]': 1, 'char[NET]': 1, 'unicode[uint8]': 1, 'Sub': 1, 'tuple[uint8, uint8]': 1,
        'array[Header[2], uint8]': 1, "Annotated[Plain, SerializeAs(uint8)]": 1, 'char[math.inf]': 1,
        'Annotated[Union[uint8, char[2]], LookbackDecider(zero, {0: uint8})]': 1}
COND_BAD = ['int', 'str', 'Plain', 'list[uint8]', 'tuple[uint8, int]', 'None', 'Optional[uint8]']


def other_decls():
    for e in GOOD_ENC:
        yield Decl(f'encoding/{e}', klass(f'unicode[uint8, {e}]'), OK, "('ab',)", b'\2ab', 'unicode2')
        yield Decl(f'encoding2/{e}', klass(f'unicode[2, {e}]'), OK, "('ab',)", b'ab', 'unicode2')
    for e in BAD_ENC:
        yield Decl(f'encoding/{e}', klass(f'unicode[uint8, {e}]'), BAD, group='unicode2')
        yield Decl(f'encoding2/{e}', klass(f'unicode[2, {e}]'), BAD, group='unicode2')
    for a in ('Header[2]', 'Header[2], uint8, uint8', 'uint8, Header[2]', '3, uint8', 'uint8, uint8', 'Header, uint8',
              '()', '[Header[2], uint8]', 'None, uint8', 'NET, uint8', 'Header[2], ()', 'uint8', '2', 'char[2], uint8',
              "Header['x'], uint8"):
        yield Decl(f'array/{a}', klass(f'array[{a}]'), BAD, group='item')
    for it, s in ITEMS.items():
        for head, hb in (('2', b''), ('uint8', b'\2')):
            yield Decl(f'item {head}/{it}', klass(f'array[Header[{head}], {it}]'), OK if s else BAD,
                       f'({s[0]},)' if s else '', hb + s[1] if s else b'', 'item')
        if s:
            yield Decl(f'item sized/{it}', klass(f'array[Header[2, uint16], {it}]'), OK, f'({s[0]},)',
                       be(len(s[1]), 2) + s[1], 'item')
        else:
            yield Decl(f'item sized/{it}', klass(f'array[Header[2, uint16], {it}]'), BAD, group='item')
        if it != 'None' and it[0] not in 'C5':
            src = (f'class G(Generic[Tv], Structured{BE}):\n    a: array[Header[2], Tv]\n'
                   f'class X(G[{it}]{BE}):\n    pass\n')
            yield Decl(f'generic item/{it}', src, OK if s else BAD, f'({s[0]},)' if s else '', s[1] if s else b'', 'item')
    for u, c in itertools.product(UNINDEXED, CONTEXTS):
        yield Decl(f'unindexed/{u} in {c}', klass(c.replace('@', u)), BAD, group='unindexed')
        if c == '@':
            yield Decl(f'unindexed _/{u}', klass(u, '_'), BAD, group='unindexed')
    for t, s in ADAPT.items():
        if s:
            yield Decl(f'adapt/{t}', klass(f'Annotated[int, SerializeAs({t})]'), OK, f'({s[0]},)', s[1], 'adapt')
            yield Decl(f'adapt2/{t}', klass(f'Annotated[int, SerializeAs({t}).with_factory(int)]'), OK, f'({s[0]},)', s[1], 'adapt')
    for t in ADAPT_BAD:
        yield Decl(f'adapt/{t}', klass(f'Annotated[Plain, SerializeAs({t})]'), BAD, group='adapt')
    deciders = {'back': 'LookbackDecider(zero, {0: @})', 'back2': 'LookbackDecider(zero, {1: uint8, 0: @})',
                'back default': 'LookbackDecider(zero, {1: uint8}, @)',
                'ahead': None}
    for t, s in RESULT_OK.items():
        for n, d in deciders.items():
            if d is None:
                k = s[1][0]
                d = f'LookaheadDecider(uint8, lambda o: {k}, {{{k}: @}})'
            yield Decl(f'union {n}/{t}', klass(UNION.replace('@', d.replace('@', t))), OK, f'({s[0]},)', s[1], 'union')
    for t in RESULT_BAD + ['None', 'int8()']:
        for n, d in deciders.items():
            if n == 'back default' and t in ('None', 'int8()'):
                continue            # an absent (or false) default is none
            d = d or 'LookaheadDecider(uint8, zero, {0: @})'
            yield Decl(f'union {n}/{t}', klass(UNION.replace('@', d.replace('@', t))), BAD, group='union')
    for t in ['int', 'str', 'Plain', '5', 'None', "'uint8'", 'NET', 'Header[2]', 'Union[uint8, uint16]', 'list[uint8]']:
        yield Decl(f'peek/{t}', klass(UNION.replace('@', f'LookaheadDecider({t}, zero, {{0: uint8}})')), BAD, group='union')
    for t in NOT_UNION:
        for n, d in (('back', 'LookbackDecider(zero, {0: uint8})'), ('ahead', 'LookaheadDecider(uint8, zero, {0: uint8})')):
            yield Decl(f'not union {n}/{t}', klass(f'Annotated[{t}, {d}]'), BAD, group='union')
            yield Decl(f'not union {n} member/{t}', klass(f'tuple[uint8, Annotated[{t}, {d}]]'), BAD, group='union')
    yield Decl('union |', klass('Annotated[int8 | char[2], LookbackDecider(zero, {0: int8})]'), OK, '(-1,)', b'\xff', 'union')
    for t, n in COND.items():
        for k in range(4):
            args = ', '.join(['yes', 'None', '5', "b''"][:k + 1])
            ok = k == n
            yield Decl(f'condition {k}/{t}', klass(f'Annotated[{t}, Condition(lambda o: False, {args[5:]})]'), OK if ok else BAD,
                       '(None,)', b'', 'condition')
            if t != 'char[math.inf]':
                yield Decl(f'condition {k} item/{t}', klass(f'tuple[Annotated[{t}, Condition(lambda o: False, {args[5:]})], uint8]'),
                           OK if ok else BAD, '((None, 1),)', b'\1', 'condition')
    for n in (1, 3):
        for k in range(3):
            defaults = ''.join(', None' for _ in range(k))
            yield Decl(f'condition {k}/pad[{n}]', klass(f'Annotated[pad[{n}], Condition(yes{defaults})]', '_'),
                       OK if k == 0 else BAD, '()', bytes(n), 'condition')
    for t in COND_BAD:
        for k in range(3):
            defaults = ''.join(', None' for _ in range(k))
            yield Decl(f'condition {k}/{t}', klass(f'Annotated[{t}, Condition(yes{defaults})]'), BAD, group='condition')


@functools.lru_cache(None)
def decls():
    out = [*argument_decls(), *other_decls()]
    for d in list(out):
        if not d.label.startswith('generic'):
            p = Decl('postponed ' + d.label, 'from __future__ import annotations\n' + d.src, d.verdict, d.args, d.data, d.group)
            out.append(p)
    assert len({d.label for d in out}) == len(out)
    return out


_names = itertools.count()


def declare(d):
    """Run the declaration; returns (module, exception or None)."""
    mod = types.ModuleType(f'c25_{next(_names)}')
    sys.modules[mod.__name__] = mod
    mod.__dict__.update((k, v) for k, v in BASE.items() if not k.startswith('__'))
    try:
        exec(compile(d.src, mod.__name__, 'exec', dont_inherit=True), mod.__dict__)
    except Exception as e:
        return mod, e
    return mod, None


def judge(d, c):
    """None, or what is wrong with the outcome of the declaration."""
    mod, exc = declare(d)
    c.op()
    if d.verdict == OPEN:
        return None
    if d.verdict == BAD:
        if exc is None:
            return 'is accepted'
        if not isinstance(exc, (TypeError, ValueError)):
            return f'raises {exc!r}'
        return None
    if exc is not None:
        return f'is refused: {exc!r}'
    return works(mod, d, c)


def works(mod, d, c):
    try:
        args = eval(d.args, mod.__dict__)
        obj = mod.X(*args)
        got = obj.pack()
        c.op()
        if got != d.data:
            return f'packs {args} to {got!r}, not {d.data!r}'
        back = mod.X.create_unpack(d.data)
        c.op()
        if back != obj or tuple(getattr(back, a) for a in mod.X.attrs) != tuple(args):
            return f'unpacks {d.data!r} to {back!r}'
    except Exception as e:
        return f'cannot pack and unpack {d.args}: {e!r}'
    return None


def history(ds, c):
    """Declare everything, judging each; what worked keeps working."""
    done = []
    for i, d in enumerate(ds):
        bad = judge(d, c)
        if bad:
            before = ' after [' + '; '.join(x.src.strip() for x in ds[:i]) + ']' if i else ''
            return c.fail(f"{d.src.strip()} {bad}{before[:1500]}")
        c.state()
        c.trace()


def run(hs):
    def go(ctx):
        for ds in hs:
            s, o, t, bad = in_child(lambda c: history(ds, c), clear=False)
            ctx.state(s)
            ctx.op(o)
            ctx.trace(t)
            for d in ds[-1:]:
                ctx.outcome({OK: 'valid', BAD: 'refused', OPEN: 'left open'}[d.verdict])
            if bad:
                return ctx.fail(bad[0], ' > '.join(d.label for d in ds))
        ctx.bound('declarations in a history', max(map(len, hs)))
    return go


def cases(tier):
    quick = tier == 'quick'
    ds = decls()
    for d in ds:
        yield f'alone/{d.label}', run([[d]])
    plain = [d for d in ds if not d.label.startswith('postponed')]
    for d in plain:
        after = [x for x in plain if x is not d and x.group == d.group
                 and (not quick or _related(d, x))]
        for i in range(0, len(after), 60):
            yield f'pair/{d.label}/{i}', run([[d, x] for x in after[i:i + 60]])
        if not quick:
            others = [x for x in plain if x is not d]
            yield f'first/{d.label}', run([[d, *others], [d, *others[::-1]]])
    # one long history each way
    for name, seq in (('all', plain), ('all backwards', plain[::-1]), ('everything', ds)):
        yield f'long/{name}', run([seq])


def _related(a, b):
    return a.verdict != b.verdict or a.verdict == OPEN
