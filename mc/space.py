"""The record space: which classes (kinds x byte order) a check explores."""
import itertools

from . import compose
from .kinds import BY_NAME, FINAL, KINDS, LONG, NONFINAL, PACKED, REP, instances, make_spec

ALL_BO = ('', '<', '>', '=', '@', '!')


class Shape:
    """One record class of the space."""

    def __init__(self, kinds, bo):
        self.kinds, self.bo = kinds, bo
        self.key = f'{"+".join(k.name for k in kinds)}/{bo or "default"}'

    def spec(self):
        return make_spec(self.kinds, self.bo)

    def instances(self, spec, limit=None, product=True):
        return instances(self.kinds, spec, limit, product)


def singles(bos=ALL_BO):
    for k in KINDS:
        for bo in bos:
            yield Shape((k,), bo)


def pairs(bos, first=None, second=None):
    """All ordered pairs; with bos a function (i, j) -> byte orders."""
    for i, a in enumerate(first or NONFINAL):
        if a.final:
            continue
        for j, b in enumerate(second or KINDS):
            for bo in (bos(i, j) if callable(bos) else bos):
                yield Shape((a, b), bo)


def triples(bos, alphabet=None):
    alphabet = alphabet or REP
    nf = [k for k in alphabet if not k.final]
    for i, a in enumerate(nf):
        for j, b in enumerate(nf):
            for l, c in enumerate(alphabet):
                for bo in (bos(i, j, l) if callable(bos) else bos):
                    yield Shape((a, b, c), bo)


def rotate(bos):
    """Assign byte orders to tuples of indices round robin."""
    return lambda *ix: (bos[sum(ix) % len(bos)],)


def nested(depth, bos):
    """Records around every composition of containers up to a depth."""
    for d in range(1, depth + 1):
        for i, k in enumerate(compose.kinds(d)):
            for bo in (bos(i, d) if callable(bos) else bos):
                yield Shape((k,), bo)


class LongShape(Shape):
    def instances(self, spec, limit=None, product=True):
        return instances(self.kinds, spec, None, False)


def long_shapes(tier):
    """Values beyond the internal boundaries, alone and between other fields."""
    u8, dyn, nf = BY_NAME['uint8'], BY_NAME['unidyn16'], BY_NAME['int32']
    for i, k in enumerate(LONG):
        for bo in (('', '>') if tier == 'quick' else ALL_BO):
            yield LongShape((k,), bo)
        yield LongShape((u8, k), '<')
        if not k.final:
            yield LongShape((k, nf), '=')
            yield LongShape((dyn, k, k), '!')


RUNS = (8, 9, 10, 11, 12, 19, 20, 21, 60, 99, 100, 101, 110)


def runs(tier):
    """Long runs of adjacent basic fields: of one kind, of two kinds in turn,
    and between fields that are not basic."""
    basics = [k for k in NONFINAL if 'basic' in k.tags]
    dyn, term = BY_NAME['chardyn16'], BY_NAME['null_char']
    for i, k in enumerate(basics):
        for j, n in enumerate(RUNS):
            bo = ALL_BO[(i + j) % 6]
            other = basics[(i + j + 1) % len(basics)]
            if tier == 'quick' and (i + j) % 2:
                continue
            yield RunShape((k,) * n, bo, f'run:{k}*{n}/{bo}')
            yield RunShape((k,) * n + (other,) * (j + 1), bo, f'run:{k}*{n}+{other}*{j + 1}/{bo}')
            if n <= 21 or tier != 'quick':
                yield RunShape((dyn,) + (k, other) * (n // 2) + (k,) * n + (term,), bo,
                               f'run:({k}+{other})*{n // 2}+{k}*{n}/{bo}')


class RunShape(LongShape):
    def __init__(self, kinds, bo, key):
        super().__init__(kinds, bo)
        self.key = key


def pack_only(tier):
    """Values that unpack to something else, alone and between other fields."""
    u8, term = BY_NAME['uint8'], BY_NAME['null_char']
    for k in PACKED:
        for bo in ALL_BO:
            yield LongShape((k,), bo)
        for bo in ('', '>'):
            yield LongShape((u8, k, u8), bo)
            yield LongShape((k, term), bo)
    if tier != 'quick':
        for a, b in itertools.product(PACKED, repeat=2):
            yield LongShape((a, b), '')


def cuts(n, tier='quick'):
    """Positions inside n bytes: all of them up to 200 bytes (400 thorough),
    else the ends, the surroundings of multiples of 128 (1024 beyond 2000 bytes)
    and every 41st (7th; a fortieth of more than 2000 bytes)."""
    if n <= (200 if tier == 'quick' else 400):
        return range(n)
    step = 41 if tier == 'quick' else 7
    block, near, edge = 128, 2, 20
    if n > 2000:
        step, block, near, edge = max(step, n // 40 | 1), 1024, 1, 6
    return [i for i in range(n) if i < edge or n - i <= edge or i % step == 0 or
            min(i % block, -i % block) <= near]


def wide(tier):
    """Records of many fields: every window of the kinds in several strides."""
    n = len(NONFINAL)
    for stride in ((1, 7) if tier == 'quick' else (1, 5, 7, 11, 13, 17)):
        for start in range(n):
            ks = tuple(NONFINAL[(start + i * stride) % n] for i in range(7))
            yield LongShape(ks, ALL_BO[(start + stride) % 6])
    if tier != 'quick':
        yield LongShape(tuple(NONFINAL), '<')
        yield LongShape(tuple(reversed(NONFINAL)), '')


def records(tier, light=False):
    """The shared record space: all single kinds under all six byte orders,
    all pairs, and triples over the representative alphabet.  `light` drops
    the byte-order product for the pairs of the quick tier."""
    yield from singles()
    yield from long_shapes(tier)
    yield from wide(tier)
    yield from runs(tier)
    if tier == 'quick':
        yield from nested(2, rotate(('', '>', '<')) if light else ('', '>'))
    else:
        yield from nested(2, ALL_BO)
        yield from nested(3, rotate(ALL_BO))
    if tier == 'quick':
        yield from pairs(rotate(('', '>')) if light else ('', '>'))
        if not light:
            yield from triples(rotate(('', '>', '<')))
        else:
            yield from triples(rotate(('', '>')), REP[::2])
    else:
        yield from pairs(ALL_BO if not light else ('', '>', '<'))
        yield from triples(('', '>') if light else ('', '>', '='))
        if not light:
            for s in triples(rotate(ALL_BO), KINDS):
                yield s
