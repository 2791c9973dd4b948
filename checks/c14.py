"""C14 Self-containing records work for every nesting shape."""
import functools
import itertools
import operator

from mc.kinds import CELSIUS, Celsius
from mc.lib import Structured
from mc.model import (
    I16, U16, U32, U8, Ahead, Arr, Back, Char, CharDyn, CharTerm, Cond, Nest, Obj, Pad, SelfT,
    Spec, Tup, Uni, build_class, to_lib)
from mc.ops import JUNK, check_packs, check_unpacks
from mc.space import ALL_BO

ID = 'C14'
LEVEL = 'model_checking'
RULE = ('placements of Self (conditions, look-back and look-ahead unions, arrays with every '
        'header, tuples, and their nestings) x payloads around it x field names x byte order x '
        'unpacking the class or a subclass x ALL trees of up to n nodes, and every truncation '
        'of the small ones. state = (class, tree), transition = pack/unpack operation')
ASSUMPTIONS = ['trees are bounded by node count; a read-to-end field cannot be combined with '
               'a record that is repeated']

G = operator.attrgetter


class Form:
    """A way to put Self into a class.  fields(names) -> fields;
    fill(kids) -> list of value tuples using exactly those kids."""

    def __init__(self, name, fields, fill):
        self.name, self.fields, self.fill = name, fields, fill


def arr(kids):
    return [(list(kids),)]


def pairs(kids):
    return [([(7 + i, k) for i, k in enumerate(kids)],)]


def opt(kids):
    return {0: [(0, None)], 1: [(1, kids[0])] if kids else []}.get(len(kids), [])


def binary(kids):
    return {0: [(0, None, None)],
            1: [(1, k, None) for k in kids] + [(2, None, k) for k in kids],
            2: [(3, *kids)]}.get(len(kids), [])


def bintup(kids):
    return [(h, (a, b)) for h, a, b in binary(kids)]


def tupopt(kids):
    return {0: [(0, None)], 1: [(1, (5, k, 600)) for k in kids]}.get(len(kids), [])


def back(kids):
    return {0: [(2, 513), (9, b'dflt')], 1: [(1, k) for k in kids]}.get(len(kids), []) + \
        [(3, list(kids))]


def arrtwo(kids):
    return [(kids[:i], kids[i:]) for i in range(len(kids) + 1)]


def arrtup(kids):
    return [([[*kids[i:i + 2]] for i in range(0, len(kids), 2)],)]


def fix(kids):
    return {0: [(0, None)], 2: [(1, list(kids))]}.get(len(kids), [])


def bit(name, k):
    return lambda o: getattr(o, name) & k


FORMS = [
    Form('arr8', lambda a, b, c: [(a, Arr(U8, SelfT()))], arr),
    Form('arr32', lambda a, b, c: [(a, Arr(U32, SelfT()))], arr),
    Form('arr8s', lambda a, b, c: [(a, Arr(U8, SelfT(), U16))], arr),
    Form('arr16s', lambda a, b, c: [(a, Arr(U16, SelfT(), U32))], arr),
    Form('cond', lambda a, b, c: [(a, U8), (b, Cond(G(a), SelfT(), None))], opt),
    Form('binary', lambda a, b, c: [(a, U8), (b, Cond(bit(a, 1), SelfT(), None)),
                                    (c, Cond(bit(a, 2), SelfT(), None))], binary),
    Form('bintup', lambda a, b, c: [(a, U8), (b, Tup(Cond(bit(a, 1), SelfT(), None),
                                                     Cond(bit(a, 2), SelfT(), None)))], bintup),
    Form('condtup', lambda a, b, c: [(a, U8), (b, Cond(G(a), Tup(U8, SelfT(), U16), None))],
         tupopt),
    Form('back', lambda a, b, c: [(a, U8), (b, Back(
        G(a), {1: SelfT(), 2: U16, 3: Arr(U8, SelfT())}, CharDyn(U8)))], back),
    Form('arrtup', lambda a, b, c: [(a, Arr(U8, Tup(U8, SelfT())))], pairs),
    Form('arrtups', lambda a, b, c: [(a, Arr(U16, Tup(U8, SelfT()), U32))], pairs),
    Form('two', lambda a, b, c: [(a, Arr(U8, SelfT())), (b, Arr(U16, SelfT(), U16))], arrtwo),
    Form('arrarr', lambda a, b, c: [(a, Arr(U8, Arr(U8, SelfT())))], arrtup),
    Form('fixed', lambda a, b, c: [(a, U8), (b, Cond(G(a), Arr(2, SelfT()), None))], fix),
    Form('fixeds', lambda a, b, c: [(a, U8), (b, Cond(G(a), Arr(2, SelfT(), U32), None))], fix),
    Form('tuparr', lambda a, b, c: [(a, Tup(U8, Arr(U8, SelfT()), U16))],
         lambda kids: [((3, list(kids), 700),)]),
    Form('backarr', lambda a, b, c: [(a, U8), (b, Arr(U8, Back(G(a), {1: SelfT(), 2: CharDyn(U8)})))],
         lambda kids: [(1, list(kids))] + ([(2, [b'', b'leaf'])] if not kids else [])),
    Form('backtup', lambda a, b, c: [(a, U8), (b, Back(
        G(a), {1: Tup(SelfT(), U16), 2: Tup(U8, Arr(U8, SelfT()))}))],
        lambda kids: ([(1, (kids[0], 258))] if len(kids) == 1 else []) + [(2, (9, list(kids)))]),
    # the next byte says whether another record follows: a record starts with 1
    Form('ahead', lambda a, b, c: [(a, U8), (b, Ahead(
        U8, lambda o: 1 if isinstance(getattr(o, b), (Structured, Obj)) else 0,
        {1: SelfT(), 0: Tup(U8, U16)}))],
        lambda kids: {0: [(1, (0, 300))], 1: [(1, k) for k in kids]}.get(len(kids), [])),
    Form('aheadarr', lambda a, b, c: [(a, U8), (b, Arr(U8, Ahead(
        U8, lambda o: getattr(o, a), {1: SelfT(), 2: U16})))],
        lambda kids: [(1, list(kids))]),
]

# payloads before and after the self-containing fields
PAYLOADS = {
    'none': ([], []),
    'u8': ([('v', U8, (1, 255))], []),
    'u32 after': ([], [('v', U32, (70000, 1))]),
    'both': ([('v', I16, (-2, 600))], [('w', U16, (258, 3))]),
    'str': ([('v', CharDyn(U16), (b'', b'abc'))], []),
    'str after': ([('u', U8, (1, 2))], [('v', CharDyn(U8), (b'xy', b''))]),
    'term': ([('v', CharTerm(b'\0'), (b'', b'end'))], [('w', U8, (4, 0))]),
    'arr': ([('v', Arr(U8, U16), ([], [1, 2]))], [('w', Arr(2, U8), ([1, 2], [3, 4]))]),
    'pads': ([('_', Pad(2), None), ('v', U8, (1, 2))], [('_', Pad(1), None)]),
    'uni': ([('v', Uni(CharDyn(U8), 'utf-16-le'), ('', 'h\u00e9'))],
            [('w', CELSIUS, (Celsius(3), Celsius(-3)))]),
    'ch': ([('v', Char(3), (b'abc', b'\0\0\0'))], [('w', Tup(U8, CharDyn(U8)), ((1, b''), (2, b'q')))]),
}
NAMES = [('kids', 'nxt', 'oth'), ('cls', 'serializers', 'size'), ('self_', 'obj', 'proxy'),
         ('_a', '__b', 'c_'), ('partial_object', 'args', 'value'), ('a', 'cls', 'type')]


def compositions(n):
    if n == 0:
        yield ()
    for first in range(1, n + 1):
        for rest in compositions(n - first):
            yield (first, *rest)


class Family:
    """One class and all its trees."""

    def __init__(self, form, payload, names, bo, extra=None):
        pre, post = PAYLOADS[payload]
        self.form = form
        if form.name.startswith('ahead'):       # its first byte is looked at
            pre = []
        fields = [(n, t) for n, t, _ in pre]
        fields += form.fields(*names)
        fields += [(n, t) for n, t, _ in post]
        self.vals = ([v for _, t, v in pre if t.nvals], [v for _, t, v in post if t.nvals])
        self.spec = Spec('Rec', fields, bo)
        self.base = self.spec
        self.extra = []
        if extra:
            s = Spec('SubRec', fields + [(n, t) for n, t, _ in extra], bo)
            s._cls = build_class('SubRec', [(n, t.hint()) for n, t, _ in extra], bo,
                                 (self.base.cls(),))
            self.spec, self.extra = s, [v for _, t, v in extra if t.nvals]
        self.trees = functools.cache(self._trees)

    def _trees(self, n):
        """All trees of n nodes."""
        out = []
        for comp in compositions(n - 1):
            for kids in itertools.product(*map(self.trees, comp)):
                for mid in self.form.fill(list(kids)):
                    k = n + len(out)
                    p = [v[k % 2] for v in self.vals[0]]
                    q = [v[k % 2] for v in self.vals[1]]
                    x = [v[k % 2] for v in self.extra]
                    out.append(self.spec.obj(*p, *mid, *q, *x))
        return out


def run_family(form, payload, names, bo, extra, nodes, cut):
    def run(ctx):
        f = Family(form, payload, names, bo, extra)
        ctx.bound('nodes', nodes)
        old = None
        for n in range(1, nodes + 1):
            for m in f.trees(n):
                lib = to_lib(m)
                if not check_packs(ctx, f.spec, m, obj=lib):
                    return
                data = f.spec.enc(m)
                prev = old or m
                if not check_unpacks(ctx, f.spec, data, lambda: to_lib(prev)):
                    return
                if n <= cut:
                    for i in range(len(data)):
                        if not check_unpacks(ctx, f.spec, data[:i], lambda: to_lib(prev),
                                             post=b'', sub='cut'):
                            return
                old = m
        ctx.outcome('family')
    return run


def together(form, payload, names, bo):
    """Classes of one family - a class, its subclasses at two levels, and an
    unrelated one made from the same hints - used in every order."""
    def run(ctx):
        f = Family(form, payload, names, bo)
        members = [f]
        for parent, extra in ((0, ('x', U32, (5, 70000))), (1, ('y', CharDyn(U8), (b'', b'ext'))),
                              (0, None)):
            up = members[parent]
            kid = Family(form, payload, names, bo)
            more = [extra] if extra else []
            kid.spec = Spec(f'Rec{len(members)}',
                            [*up.spec.fields, *((n, t) for n, t, _ in more)], bo)
            # the last one has no relation but its hints
            kid.spec._cls = build_class(
                kid.spec.name, [(n, t.hint()) for n, t in (
                    kid.spec.fields if not more else [(n, t) for n, t, _ in more])],
                bo, (up.spec.cls() if more else Structured,))
            kid.extra = up.extra + [v for _, t, v in more]
            kid.trees = functools.cache(kid._trees)
            members.append(kid)
        trees = [[m.trees(n)[-1] for n in (1, 2, 3) if m.trees(n)] for m in members]
        last = (0, 0)
        k = 0
        for seq in itertools.product(range(len(members)), repeat=3):
            for i in seq:
                m = trees[i][k % len(trees[i])]
                k += 1
                spec = members[i].spec
                if not check_packs(ctx, spec, m, sub=f'{spec.name} after {last}'):
                    return
                if not check_unpacks(ctx, spec, spec.enc(m), lambda: to_lib(m),
                                     sub=f'{spec.name} after {last}'):
                    return
                last = (last[1], i)
            ctx.trace()
        ctx.outcome('together')
    return run


def mutual(bo, nodes):
    """Two classes containing themselves and one the other."""
    def run(ctx):
        leaf = Spec('B', [('s', CharDyn(U8)), ('own', Arr(U8, SelfT()))], '>')
        top = Spec('A', [('cls', Arr(U8, SelfT(), U16)), ('bs', Arr(U8, Nest(leaf), U32)),
                         ('k', U8), ('t', Tup(U8, Nest(leaf), Cond(lambda o: o.k, SelfT(), None)))],
                   bo)

        @functools.cache
        def bs(n):
            return [leaf.obj(b'b' * (n % 3), list(kids)) for comp in compositions(n - 1)
                    for kids in itertools.product(*map(bs, comp))]

        @functools.cache
        def tops(n):
            out = []
            for na in range(0, n):
                for comp in compositions(na):
                    for kids in itertools.product(*map(tops, comp)):
                        for compb in compositions(n - 1 - na):
                            for bb in itertools.product(*map(bs, compb)):
                                b = leaf.obj(b'one', [])
                                out.append(top.obj(list(kids), list(bb), 0, (1, b, None)))
                                if kids:
                                    out.append(top.obj(list(kids[1:]), list(bb), 3,
                                                       (2, leaf.obj(b'', list(bb)), kids[0])))
            return out
        for n in range(1, nodes + 1):
            for m in tops(n):
                if not check_packs(ctx, top, m):
                    return
                if not check_unpacks(ctx, top, top.enc(m), lambda: to_lib(m)):
                    return
    return run


EXTRAS = [None, [('x', U32, (5, 70000))], [('x', CharDyn(U16), (b'', b'ext')), ('y', U8, (1, 2))]]


def cases(tier):
    quick = tier == 'quick'
    pl = list(PAYLOADS)
    for i, form in enumerate(FORMS):
        for j, p in enumerate(pl):
            for k, names in enumerate(NAMES):
                for l, bo in enumerate(ALL_BO):
                    for m, extra in enumerate(EXTRAS):
                        if quick and ((k and j != k) or (l + j) % 3 != i % 3 or (m + l + k) % 2):
                            continue
                        if form.name in ('arr8', 'cond', 'binary', 'back') and not (j or l > 1):
                            nodes = 6 if quick else 8
                        else:
                            nodes = 5 if quick else 6
                        yield (f'{form.name}/{p}/{names[0]}/{bo or "default"}/{m}',
                               run_family(form, p, names, bo, extra, nodes - (form.name == 'back'), 3))
    for i, form in enumerate(FORMS):
        for j, p in enumerate(pl):
            if quick and (i + j) % 3:
                continue
            names = NAMES[(i + j) % len(NAMES)]
            for bo in ALL_BO if not quick else (ALL_BO[(i + j // 3) % 6],):
                yield f'together:{form.name}/{p}/{names[0]}/{bo or "default"}', together(
                    form, p, names, bo)
    for bo in ALL_BO:
        yield f'mutual/{bo}', mutual(bo, 4 if quick else 5)
