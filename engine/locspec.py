"""Location trackers (C23): the state of the public trackers after any tokens."""
import lin
from lin import num, add, sub, const
from interp import Infeasible, UNIT, Unknown, is_int, show, vref
from layer import Layer, Missing, CR, TRACKER
from specs import Ctx

SIMPLE = CR + '::location::Simple'
RICH = CR + '::location::Rich'
FILE, CONV = ('FILE',), ('CONV',)
TOKENS = [('T1',), ('T2',), ('T3',)]
IDX = [('#i0',), ('#i1',)]


def text(i):
    return ('app', CONV, TOKENS[i])


class LocLayer(Layer):
    """the reference counts rows and columns as the characters of the texts come by"""
    delay = 2

    def initial(self, eng):
        st = Layer.initial(self, eng)
        for i in range(3):
            st.assume(('#nchars', text(i)))
        st.ghost['at'] = ((num(1), num(1), num(0)),)     # row, column, offset after each token
        st.ghost['ci'] = None
        return st

    def on_item(self, eng, st, x):
        """a character was taken from a text"""
        if st.ghost['ci'] is None or x[0] != 'el' or x[1] != ('chars', st.ghost['ci'][0]):
            return
        t, k = st.ghost['ci']
        if not eng.same(st, x[2], k) and not eng.eq_int(st, x[2], k):
            st.ghost['ci'] = None        # in another order: the reference has to do without
            return
        nl = eng.eq_int(st, x, num(10))
        row, col, off = st.ghost['at'][-1]
        st.ghost['bytes'] = add(st.ghost['bytes'], ('#utf8', x))
        st.ghost['at'] = st.ghost['at'][:-1] + (((add(row, num(1)), num(1), off) if nl else (row, add(col, num(1)), off)),)
        st.ghost['ci'] = (t, add(k, num(1)))

    def callback(self, eng, st, f, args):
        r = Layer.callback(self, eng, st, f, args)
        return vref(r) if f == CONV else r

    def trait_call(self, eng, st, info, args, dest, target):
        return NotImplemented


class TextLayer(LocLayer):
    """texts of at most three characters, of one or two bytes each"""
    most = 3
    delay = 8

    def chars(self, eng, st, i):
        out = []
        while len(out) < self.most:
            k = ('#k%d' % len(out), TOKENS[i])
            if not eng.pred(st, ('more',) + k):
                break
            if eng.pred(st, ('newline',) + k):
                out.append((num(10), 1))
                continue
            w = 2 if eng.pred(st, ('wide',) + k) else 1
            c = ('#chr',) + k + (num(w),)
            st.assume(sub(c, num(128 if w == 2 else 11)))
            if w == 1:
                st.assume(sub(num(127), c))
            else:
                for j in range(w):
                    st.assume(sub(('#byte', c, num(j)), num(128)))
            out.append((c, w))
        return ('txt', tuple(out))

    def callback(self, eng, st, f, args):
        if f == CONV:
            return vref(self.chars(eng, st, TOKENS.index(eng.strip(st, args[0]))))
        return Layer.callback(self, eng, st, f, args)

    def on_item(self, eng, st, x):
        pass

    def settle(self, eng, st, i):
        row, col, off = st.ghost['at'][-1]
        for c, w in self.chars(eng, st, i)[1]:
            row, col = (add(row, num(1)), num(1)) if c == num(10) else (row, add(col, num(1)))
            off = add(off, num(w))
        st.ghost['at'] = st.ghost['at'][:-1] + ((row, col, off),)


class LongText(TextLayer):
    """two long texts"""
    delay = 5000
    round_limit = 5000
    max_states = 4000000
    texts = ()          # of (character, how often)

    def chars(self, eng, st, i):
        return ('txt', tuple((num(ord(c)), len(c.encode())) for x, n in self.texts[i] for c in x * n))


def NEW(l, eng, st, vals):
    return l.api.inherent(RICH, 'new'), [FILE, CONV], None


def settle_text(l, eng, st, i):
    """reference state after the token whose text is being looked at"""
    base = st.ghost['before']
    row, col, off = st.ghost['at'][-1]
    n = ('#nchars', text(i))
    ci = st.ghost['ci']
    if ci is None or not eng.eq_int(st, ci[1], n):
        row, col = base[0], base[1]
        k = 0
        st.ghost['bytes'] = num(0)
        while not eng.eq_int(st, n, num(k)):
            if k >= 6:
                raise Unknown('characters of the text are not looked at one by one')
            c = ('el', ('chars', text(i)), num(k))
            if eng.eq_int(st, c, num(10)):
                row, col = add(row, num(1)), num(1)
            else:
                col = add(col, num(1))
            st.ghost['bytes'] = add(st.ghost['bytes'], ('#utf8', c))
            k += 1
    d = sub(('#len', text(i)), st.ghost['bytes'])
    st.assume(d)
    st.assume(lin.scale(d, -1))
    st.ghost['at'] = st.ghost['at'][:-1] + ((row, col, add(off, ('#len', text(i)))),)
    st.ghost['ci'] = None


def finish_text(l, eng, st):
    if st.ghost.get('open') is not None and l.adt == RICH:
        if isinstance(l, TextLayer):
            l.settle(eng, st, st.ghost['open'])
        else:
            settle_text(l, eng, st, st.ghost['open'])
        st.ghost['open'] = None


def new_cell(st, v):
    h = st.fresh
    st.fresh += 1
    st.heap[h] = v
    return ('r', ('H', h), ())


def tracker(l):
    if l.adt not in l.prog.adts:
        raise Missing(l.adt)
    return l.adt


def ADVANCE(i):
    def f(l, eng, st, vals):
        finish_text(l, eng, st)
        if not st.ghost.get('trk'):
            st.ghost['trk'] = cell_of(l, eng, st, vals)
        st.ghost['before'] = st.ghost['at'][-1]
        st.ghost['at'] += (st.ghost['at'][-1],)
        st.ghost['ci'] = (text(i), num(0))
        st.ghost['bytes'] = num(0)
        st.ghost['open'] = i
        return l.api.impl(TRACKER, 'advance', tracker(l)), [st.ghost['trk'], vref(TOKENS[i])], None
    return f


def cell_of(l, eng, st, vals):
    return new_cell(st, eng.resolve(st, vals[-1]) if vals else ('a', SIMPLE, 0, ()))


def CLONE(l, eng, st, vals):
    finish_text(l, eng, st)
    if not st.ghost.get('trk'):
        st.ghost['trk'] = cell_of(l, eng, st, vals)
    st.ghost['cloned'] = (len(st.ghost['at']) - 1, len(vals))
    return l.api.impl('core::clone::Clone', 'clone', tracker(l)), [st.ghost['trk']], None


def the_clone(l, eng, st, vals):
    return vref(eng.resolve(st, vals[st.ghost['cloned'][1]]))


def LOCATION(which):
    def f(l, eng, st, vals):
        finish_text(l, eng, st)
        if which == 'clone':
            r, k = the_clone(l, eng, st, vals), st.ghost['cloned'][0]
        else:
            if not st.ghost.get('trk'):
                st.ghost['trk'] = cell_of(l, eng, st, vals)
            r, k = st.ghost['trk'], len(st.ghost['at']) - 1
        st.ghost['want'] = ((k, IDX[0]),)
        return l.api.impl(TRACKER, 'location', tracker(l)), [r, IDX[0]], None
    return f


def SPAN(a, b):
    def f(l, eng, st, vals):
        finish_text(l, eng, st)
        rs = dict(clone=(the_clone(l, eng, st, vals), st.ghost['cloned'][0]), orig=(st.ghost['trk'], len(st.ghost['at']) - 1))
        st.ghost['want'] = ((rs[a][1], IDX[0]), (rs[b][1], IDX[1]))
        return l.api.impl(TRACKER, 'spanning_to', tracker(l)), [rs[a][0], IDX[0], rs[b][0], IDX[1]], None
    return f


def field(l, v, name):
    fs = l.prog.adts[v[1]]['variants'][v[2]]['fields']
    for f, x in zip(fs, v[3]):
        if f['name'] == name:
            return x
    raise Missing('%s.%s' % (v[1], name))


def by_bytes(s):
    # how bytes and characters relate is beyond this analysis
    return "('bytesof'" in s or "('el', ('app', ('CONV'" in s or "'#choff'" in s


def rich_spec(l, eng, st, vals):
    c = Ctx(l, eng, st, vals)
    v = eng.resolve(st, vals[-1])
    want = st.ghost['want']
    if v[0] != 'a':
        raise Unknown('location is ' + show(v))
    names = ['offset'] if len(want) == 1 else ['from', 'to']
    fn = eng.strip(st, field(l, v, 'filename'))
    while not isinstance(fn, bool) and fn[0] in ('rc', 'r', 'box'):
        fn = eng.strip(st, st.heap[fn[1]]) if fn[0] == 'rc' else eng.strip(st, fn)
    if fn != ('tostr', FILE):
        c.bad('location', 'file name is %s' % show(fn))
    for n, (k, idx) in zip(names, want):
        o = eng.resolve(st, field(l, v, n))
        for f, w in zip(('row', 'column', 'offset', 'index'), st.ghost['at'][k] + (idx,)):
            x = eng.resolve(st, field(l, o, f))
            if not c.same_int(x, w):
                if by_bytes(repr(st.lin) + repr(x)):
                    raise Unknown('the text is looked at byte by byte')
                c.bad('location', '%s.%s is %s instead of %s after %d tokens' % (n, f, show(x), show(w), k))
    c.flush()


def simple_spec(l, eng, st, vals):
    c = Ctx(l, eng, st, vals)
    v = eng.resolve(st, vals[-1])
    want = [i for _, i in st.ghost['want']]
    got = [v] if len(want) == 1 else list(v[3]) if v[0] == 'a' and v[1] == 'core::ops::range::Range' else None
    if got is None:
        raise Unknown('span is ' + show(v))
    for x, w in zip(got, want):
        if not c.same_int(x, w):
            c.bad('location', 'is %s instead of %s' % (show(x), show(w)))
    c.flush()


A0, A1, A2 = ADVANCE(0), ADVANCE(1), ADVANCE(2)
PLANS = [('0', [LOCATION('orig')]), ('1', [A0, LOCATION('orig')]), ('2', [A0, A1, LOCATION('orig')]), ('3', [A0, A1, A2, LOCATION('orig')]),
         ('clone', [A0, CLONE, A1, LOCATION('clone')]), ('cloned', [A0, CLONE, A1, LOCATION('orig')]),
         ('span', [A0, CLONE, A1, SPAN('clone', 'orig')]), ('span_back', [A0, CLONE, A1, SPAN('orig', 'clone')]),
         ('span0', [CLONE, A0, SPAN('clone', 'orig')]), ('empty_span', [A0, CLONE, SPAN('clone', 'orig')])]
SCN = []
for _n, _p in PLANS:
    if _n != '3':
        SCN.append(('tracker.rich_' + _n, [NEW] + _p, rich_spec, dict(cls=LocLayer, adt=RICH)))
    if _n in ('1', '2', 'span'):
        SCN.append(('tracker.text_' + _n, [NEW] + _p, rich_spec, dict(cls=TextLayer, adt=RICH, most=3 if _n == '1' else 2)))
    SCN.append(('tracker.simple_' + _n, _p, simple_spec, dict(cls=LocLayer, adt=SIMPLE)))
LONG = ((('\n', 270), ('a', 280), ('\u20ac', 30), ('\nb', 50)), (('ab\u00e4', 100), ('\n', 3), ('z', 270)))
for _n, _p in PLANS:
    if _n in ('1', '2', 'span'):
        SCN.append(('tracker.long_' + _n, [NEW] + _p, rich_spec, dict(cls=LongText, adt=RICH, texts=LONG)))
