"""The simple error type (C28)."""
from lin import num, add, sub
from interp import some, NONE, UNIT, Unknown, Pushed, mk_list, lst, list_len, show, vref, is_opaque, OPTION
from layer import Layer, Missing, CR, ERROR, FALLBACK, AT
from natives import HASHSET
from specs import Ctx

SIMPLE = CR + '::error::Simple'
ZERO = num(0)


class ErrLayer(Layer):
    delay = 2

    def trait_call(self, eng, st, info, args, dest, target):
        if info['trait'] in (ERROR, FALLBACK):
            ks = self.prog.find_impl(info['trait'], info['name'], SIMPLE)
            if len(ks) == 1:
                eng.push_body(st, ks[0], args, dest, target, {})
                raise Pushed()
        return Layer.trait_call(self, eng, st, info, args, dest, target)

    def adt_of(self, eng, st, v):
        # the expected tokens: None for the end of input
        return OPTION if v[0] == 'el' and v[1][0][:1] == 'X' else None

    def initial(self, eng):
        st = Layer.initial(self, eng)
        for s in ('#nx', '#ny'):
            st.assume((s,))
        return st


def at(l, kind, tag):
    names = [v['name'] for v in l.prog.adts[AT]['variants']]
    return ('a', AT, names.index(kind), () if kind == 'None' else ((tag + kind,),))


def sset(tag):
    return ('a', HASHSET, 0, (('l', (('x', ('X' + tag,), ZERO, ('#n' + tag,)),)),))


def fields(l, kind, tag, a):
    """field values of a variant; tag keeps two errors apart"""
    g = lambda s: (s + tag,)
    return {'ExpectedFound': (sset(tag), g('FOUND'), a), 'UnmatchedLeftDelimiter': (g('LT'), g('LS'), a),
            'UnmatchedRightDelimiter': (g('RT'), g('RS'), a), 'UnmatchedDelimiterType': (g('LT'), g('LS'), g('RT'), g('RS')),
            'Custom': (g('MSG'), a)}[kind]


VARIANTS = ['ExpectedFound', 'UnmatchedLeftDelimiter', 'UnmatchedRightDelimiter', 'UnmatchedDelimiterType', 'Custom']


def variant_of(l, kind):
    if SIMPLE not in l.prog.adts:
        raise Missing(SIMPLE)
    names = [v['name'] for v in l.prog.adts[SIMPLE]['variants']]
    if kind not in names:
        raise Missing(SIMPLE + '::' + kind)
    return names.index(kind)


def error(l, kind, tag, a):
    return ('a', SIMPLE, variant_of(l, kind), fields(l, kind, tag, a))


def same_set(c, a, b):
    """do two lists have the same items, up to order and repetition?"""
    a, b = c.eng.as_list(c.st, a), c.eng.as_list(c.st, b)
    for v, x in c.st.ghost.get('inset', ()):
        # an item found in a set whose items are all here is here too
        for l in (a, b):
            if all(s in l[1] for s in v[1]):
                y = ('l', l[1] + (('e', x),))
                a, b = (y if l is a else a), (y if l is b else b)
    return covered(c, a, b) and covered(c, b, a)


def piece(s):
    """(sequence, from, to) of a segment, or None for a single value"""
    if s[0] == 'x':
        return s[1], s[2], s[3]
    if s[1][0] == 'el':
        return s[1][1], s[1][2], add(s[1][2], num(1))
    return None


def covered(c, a, b):
    """is every item of a also in b?"""
    have = [piece(s) for s in b[1]]
    for s in a[1]:
        p = piece(s)
        if p is None:
            if any(x[0] == 'e' and c.same(x[1], s[1]) for x in b[1]):
                continue
            # an item that was looked into and put together again
            if any(in_range(c, k, h) for k, m in c.st.mat.items() if c.same(m, s[1]) for h in have if h):
                continue
            return False
        S, cur, hi = p
        while c.eng.ge0(c.st, sub(sub(hi, cur), num(1))):
            for h in have:
                if h and h[0] == S and c.eng.entails_range(c.st, cur, h[1], h[2]):
                    cur = h[2]
                    break
            else:
                m = c.eng.resolve(c.st, ('el', S, cur))
                if not any(x[0] == 'e' and c.same(x[1], m) for x in b[1]):
                    return False
                cur = add(cur, num(1))
    return True


def in_range(c, k, h):
    return k[0] == 'el' and k[1] == h[0] and c.eng.entails_range(c.st, k[2], h[1], h[2])


def check_error(c, v, kind, want):
    v = c.eng.resolve(c.st, v)
    if v[0] != 'a' or v[1] != SIMPLE:
        raise Unknown('error is ' + show(v))
    name = c.l.prog.adts[SIMPLE]['variants'][v[2]]['name']
    if name != kind:
        c.bad('errval', 'builds %s instead of %s' % (name, kind))
        return
    for i, (x, y) in enumerate(zip(v[3], want)):
        x = c.eng.resolve(c.st, x)
        if y[0] == 'a' and y[1] == HASHSET:
            if x[0] != 'a' or x[1] != HASHSET:
                raise Unknown('expected set is ' + show(x))
            if not same_set(c, x[3][0], y[3][0]):
                c.bad('errval', 'expected tokens are %s instead of %s' % (show(x[3][0]), show(y[3][0])))
        elif not c.same(x, y):
            c.bad('errval', 'field %d of %s is %s instead of %s' % (i, kind, show(x), show(y)))


def CTOR(trait, name, args):
    def f(l, eng, st, vals):
        return l.api.impl(trait, name, SIMPLE), args(l), None
    return f


def ctor_spec(kind, want):
    def g(l, eng, st, vals):
        c = Ctx(l, eng, st, vals)
        check_error(c, vals[-1], kind, want(l))
        c.flush()
    return g


def ON(name, kind, a):
    def f(l, eng, st, vals):
        return l.api.impl(ERROR, name, SIMPLE), [vref(error(l, kind, 'x', at(l, a, 'W')))], None
    return f


def location_spec(kind, a):
    def g(l, eng, st, vals):
        c = Ctx(l, eng, st, vals)
        v = eng.resolve(st, vals[-1])
        want = at(l, a, 'W')
        want = want[3]
        wk = 'Span' if kind == 'UnmatchedDelimiterType' else a
        if kind == 'UnmatchedDelimiterType':
            want = (('RSx',),)
        if v[0] != 'a' or v[1] != AT:
            raise Unknown('location is ' + show(v))
        k = l.prog.adts[AT]['variants'][v[2]]['name']
        if k != wk or [eng.strip(st, x) for x in v[3]] != list(want):
            c.bad('errval', 'location() of %s at %s is %s' % (kind, a, show(v)))
        c.flush()
    return g


def isef_spec(kind):
    def g(l, eng, st, vals):
        c = Ctx(l, eng, st, vals)
        v = vals[-1]
        if not isinstance(v, bool):
            v = eng.pred(st, v)
        if v != (kind == 'ExpectedFound'):
            c.bad('errval', 'is_expected_found() is %s for %s' % (v, kind))
        c.flush()
    return g


def MERGE(k1, k2, a1='Span', a2='Location'):
    def f(l, eng, st, vals):
        h, h2 = st.fresh, st.fresh + 1
        st.fresh += 2
        st.heap[h] = error(l, k1, 'x', at(l, a1, 'W'))
        st.heap[h2] = error(l, k2, 'y', at(l, a2, 'U'))
        st.ghost['cells'] = (('r', ('H', h), ()), ('r', ('H', h2), ()))
        return l.api.impl(ERROR, 'merge_expected_found', SIMPLE), list(st.ghost['cells']), None
    return f


def merge_spec(k1, k2, a1='Span', a2='Location'):
    def g(l, eng, st, vals):
        c = Ctx(l, eng, st, vals)
        a, b = (eng.read(st, r[1], ()) for r in st.ghost['cells'])
        w1 = list(error(l, k1, 'x', at(l, a1, 'W'))[3])
        w2 = error(l, k2, 'y', at(l, a2, 'U'))[3]
        if k1 == k2 == 'ExpectedFound':
            w1[0] = ('a', HASHSET, 0, (mk_list(w1[0][3][0][1] + w2[0][3][0][1]),))
        check_error(c, a, k1, w1)
        check_error(c, b, k2, w2)
        c.flush()
    return g
