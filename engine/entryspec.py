"""Entry points, streaming and result accessors (C24, C25)."""
import lin
from lin import num, add, sub
from interp import some, NONE, UNIT, Unknown, Infeasible, mk_list, lst, list_len, show, vref, is_opaque
from layer import Layer, N, PRES, PARSER, CR
from specs import Ctx, Exp, NIL, cat, names, tmpl_map, kname, B, M, FN

A, F = ('A',), ('F',)
SRC, LOC = ('SRC',), ('LOC',)
ITER = 'core::iter::traits::iterator::Iterator'
STD_RESULT = 'core::result::Result'
FROM = 'core::convert::From'
PSTREAM = CR + '::parser::Stream'
ZERO = num(0)


class EntryLayer(Layer):
    """the stream under construction starts at 0; 'spos' is where the next run has to start"""
    delay = 2

    def __init__(self, *a):
        Layer.__init__(self, *a)
        self.hooks['shims::sink'] = self.sink

    def initial(self, eng):
        st = Layer.initial(self, eng)
        st.ghost['mode'] = None
        st.ghost['spos'] = ZERO
        st.ghost['rv'] = None
        return st

    def on_run(self, eng, st, X, p, rec, k):
        if not st.ghost.get('source'):
            self.problem(eng, st, ('entry',), 'runs the parser before there is a stream')
        if X != A:
            self.problem(eng, st, ('entry',), 'runs %s' % show(X))
        if not rec:
            self.problem(eng, st, ('entry',), 'runs the parser with recovery disabled')
        if st.ghost['rv'] is not None:
            again = st.ghost['rv'][2] == self.api.F and eng.same(st, p, st.ghost['spos'])
            self.problem(eng, st, ('entry', 'stuck') if again else ('entry',),
                         'runs the parser again%s' % (' where it just failed' if again else ''))
            raise Infeasible()
        if not eng.same(st, p, st.ghost['spos']) and not eng.eq_int(st, p, st.ghost['spos']):
            self.problem(eng, st, ('entry',), 'runs the parser at %s instead of %s' % (show(p), show(st.ghost['spos'])))
        if st.ghost['mode'] == 'stream' and not eng.ge0(st, sub(sub(N, p), num(1))):
            self.problem(eng, st, ('entry',), 'runs the parser although the input is exhausted')
            raise Infeasible()
        k, out, end, fi, es = self.child_result(eng, st, A, p, rec)
        api = self.api
        st.ghost['rv'] = ('a', PRES, api.S, (out,)) if k == 'S' else ('a', PRES, api.R, (out, es)) if k == 'R' else ('a', PRES, api.F, (fi, es))
        st.ghost['spos'] = end

    def sink(self, eng, st, info, args, dest, target):
        x = eng.strip(st, args[0])
        m = st.ghost['mode']
        if m == 'stream':
            self.check_item(eng, st, x)
        elif m == 'tail':
            p = st.ghost['spos']
            if x != ('tok', p) and not (x[0] == 'tok' and eng.same(st, x[1], p)):
                self.problem(eng, st, ('entry',), 'tail yields %s instead of the token at %s' % (show(x), show(p)))
                raise Infeasible()
            st.ghost['spos'] = add(p, num(1))
        else:
            p = st.ghost['spos']
            if not (x[0] == 'el' and x[1] == ('ES',) and eng.same(st, x[2], p)):
                self.problem(eng, st, ('result',), 'yields %s instead of error %s' % (show(x), show(p)))
                raise Infeasible()
            st.ghost['spos'] = add(p, num(1))
        return UNIT

    def check_item(self, eng, st, x):
        rv = st.ghost['rv']
        if rv is None:
            self.problem(eng, st, ('entry',), 'yields %s without running the parser' % show(x))
            raise Infeasible()
        if not eng.same(st, x, rv):
            self.problem(eng, st, ('entry',), 'yields %s instead of the result of the parser' % show(x))
        st.ghost['rv'] = None


def new_cell(l, eng, st, v):
    h = st.fresh
    st.fresh += 1
    st.heap[h] = v
    return ('r', ('H', h), ())


def set_mode(mode):
    """put the iterator returned last into a cell"""
    def f(st, ref):
        st.ghost['mode'] = mode
        st.ghost['it'] = ref
    return f


def NEXT_OF(mode, adt):
    """call next() on the iterator that a phase returned"""
    def f(l, eng, st, vals):
        if st.ghost.get('it') is None or st.ghost['mode'] != mode:
            st.ghost['it'] = new_cell(l, eng, st, eng.resolve(st, vals[-1]))
            st.ghost['mode'] = mode
        return l.api.impl(ITER, 'next', eng.resolve(st, eng.read(st, st.ghost['it'][1], ()))[1]), [st.ghost['it']], None
    return f


def DRIVE(mode):
    def f(l, eng, st, vals):
        if st.ghost.get('it') is None or st.ghost['mode'] != mode:
            st.ghost['it'] = new_cell(l, eng, st, eng.resolve(st, vals[-1]))
            st.ghost['mode'] = mode
        return 'shims::drive', [st.ghost['it']], None
    return f


def TAIL(l, eng, st, vals):
    v = eng.read(st, st.ghost['it'][1], ()) if st.ghost.get('it') else vals[-1]
    v = eng.resolve(st, v)
    st.ghost['rv'] = None
    return l.api.inherent(v[1], 'tail'), [v], None


def ENTRY(name, *args):
    def f(l, eng, st, vals):
        return l.api.provided(PARSER, name), [vref(A)] + list(args), None
    return f


def sources(c, loc):
    src = c.st.ghost.get('source', ())
    if len(src) != 1:
        c.bad('entry', 'creates %d streams' % len(src))
    elif src[0][0] != SRC:
        c.bad('entry', 'reads from %s' % show(src[0][0]))
    elif loc is None and src[0][1][0] != 'default' or loc is not None and src[0][1] != loc:
        c.bad('entry', 'starts at the location %s instead of %s' % (show(src[0][1]), 'the default' if loc is None else 'the given one'))


def errs_first(c, es):
    """first of a list, or None if empty"""
    if c.eng.ge0(c.st, sub(list_len(es), num(1))):
        return c.eng.list_get(c.st, es, ZERO)
    return None


def check_std(c, v, k, out, es, asp):
    """v is the standard result that corresponds to a result of kind k"""
    v = c.eng.resolve(c.st, v)
    if v[0] != 'a' or v[1] != STD_RESULT:
        raise Unknown('result is ' + show(v))
    ok_ = c.l.prog.adts[STD_RESULT]['variants'][v[2]]['name'] == 'Ok' if STD_RESULT in c.l.prog.adts else v[2] == 0
    x = v[3][0]
    if k == 'S':
        if not ok_ or not c.same(x, out):
            c.bad(asp, 'gives %s instead of Ok with the output' % show(v))
        return
    e = errs_first(c, es)
    if ok_:
        c.bad(asp, 'gives Ok for a %s result' % kname(k))
    elif e is not None and not c.same(x, e):
        c.bad(asp, 'gives the error %s instead of the first one' % show(x))
    elif e is None and x != ('err', 'simple', c.eng.strip(c.st, x[2] if len(x) > 2 else UNIT)):
        c.bad(asp, 'gives %s for an empty error list' % show(x))


def entry_spec(loc, std):
    def g(l, eng, st, vals):
        c = Ctx(l, eng, st, vals)
        sources(c, loc)
        rv = st.ghost['rv']
        if rv is None:
            c.bad('entry', 'does not run the parser')
        elif std:
            k = {l.api.S: 'S', l.api.R: 'R', l.api.F: 'F'}[rv[2]]
            check_std(c, vals[-1], k, rv[3][0], rv[3][1] if k != 'S' else None, 'entry')
        elif not c.same(c.eng.resolve(st, vals[-1]), rv):
            c.bad('entry', 'returns %s instead of the result of the parser' % show(vals[-1]))
        c.flush()
    return g


def stream_spec(loc, n_drive):
    """after driving the stream to its end: everything was consumed, and it stays at the end"""
    def g(l, eng, st, vals):
        c = Ctx(l, eng, st, vals)
        sources(c, loc)
        if st.ghost['rv'] is not None:
            c.bad('entry', 'drops a result of the parser')
        if c.exists(st.ghost['spos']):
            c.bad('entry', 'ends although there is a token at %s' % show(st.ghost['spos']))
        if n_drive and eng.resolve(st, vals[-1])[2] != NONE[2]:
            c.bad('entry', 'yields %s after it ended' % show(vals[-1]))
        c.flush()
    return g


# ------------------------------------------------------------------ results
OUT, FI = ('OUT',), ('#FI',)
ES = ('l', (('x', ('ES',), ZERO, ('#nes',)),))


class ResLayer(EntryLayer):
    kind_ = 'S'
    params = (('#N',), ('#start',), ('#nes',), FI)

    def initial(self, eng):
        st = EntryLayer.initial(self, eng)
        st.assume(('#nes',))
        st.assume(FI)
        return st


def result(l):
    a = l.api
    return {'S': ('a', PRES, a.S, (OUT,)), 'R': ('a', PRES, a.R, (OUT, ES)), 'F': ('a', PRES, a.F, (FI, ES))}[l.kind_]


def RES(name, *args, byref=False):
    def f(l, eng, st, vals):
        v = result(l)
        return l.api.inherent(PRES, name), [vref(v) if byref else v] + list(args), None
    return f


def INTO(l, eng, st, vals):
    ks = l.prog.find_impl(FROM, 'from', STD_RESULT)
    ks = [k for k in ks if l.prog.bodies[k]['crate'] == CR]
    if len(ks) != 1:
        from layer import Missing
        raise Missing('From<parser::Result> for std::result::Result')
    return ks[0], [result(l)], None


def is_ok_spec(l, eng, st, vals):
    c = Ctx(l, eng, st, vals)
    v = eng.resolve(st, vals[-1])
    if v != (l.kind_ == 'S'):
        c.bad('result', 'is_ok() is %s for %s' % (show(v), kname(l.kind_)))
    c.flush()


def tree_spec(l, eng, st, vals):
    c = Ctx(l, eng, st, vals)
    v = eng.resolve(st, vals[-1])
    if l.kind_ == 'F':
        ok_ = v == NONE
    else:
        ok_ = v[2] == some(OUT)[2] and eng.strip(st, v[3][0]) == OUT
    if not ok_:
        c.bad('result', 'tree() is %s for %s' % (show(v), kname(l.kind_)))
    c.flush()


def errors_spec(l, eng, st, vals):
    c = Ctx(l, eng, st, vals)
    n = ZERO if l.kind_ == 'S' else ('#nes',)
    if not c.same_int(st.ghost['spos'], n):
        c.bad('result', 'errors() ends after %s errors' % show(st.ghost['spos']))
    v = eng.resolve(st, vals[-1])
    if v != NONE:
        c.bad('result', 'errors() yields %s after its end' % show(v))
    c.flush()


def std_spec(l, eng, st, vals):
    c = Ctx(l, eng, st, vals)
    check_std(c, vals[-1], l.kind_, OUT, ES, 'result')
    c.flush()


def mapped(l, eng, st, vals, out=lambda c: OUT, errs=lambda c: ES):
    c = Ctx(l, eng, st, vals)
    c.start = None
    v = eng.resolve(st, vals[-1])
    if v[0] != 'a' or v[1] != PRES:
        raise Unknown('result is ' + show(v))
    k = {l.api.S: 'S', l.api.R: 'R', l.api.F: 'F'}[v[2]]
    if k != l.kind_:
        c.bad('result', 'turns %s into %s' % (kname(l.kind_), kname(k)))
        return c.flush()
    f = v[3]
    if k in 'SR' and not c.same(f[0], out(c)):
        c.bad('result', 'output is %s instead of %s' % (show(f[0]), show(out(c))))
    if k in 'RF':
        es = eng.as_list(st, f[1])
        if not c.same(es, errs(c)):
            c.bad('result', 'errors are %s instead of %s' % (show(es), show(errs(c))))
    if k == 'F' and not c.same(f[0], FI):
        c.bad('result', 'failure index is %s instead of the original one' % show(f[0]))
    c.flush()
    return c


def map_out_spec(l, eng, st, vals):
    c = mapped(l, eng, st, vals, out=lambda c: ('app', F, OUT))


def map_err_spec(l, eng, st, vals):
    mapped(l, eng, st, vals, errs=lambda c: tmpl_map(c, ES, lambda e: ('app', F, e)))


def try_map_res_spec(l, eng, st, vals):
    c = Ctx(l, eng, st, vals)
    v = eng.resolve(st, vals[-1])
    if l.kind_ == 'F':
        if not c.same(v, result(l)):
            c.bad('result', 'changes a failed result to %s' % show(v))
        return c.flush()
    r = ('app', F, OUT)
    if l.kind_ == 'S':
        if not c.same(v, eng.resolve(st, r)):
            c.bad('result', 'yields %s instead of what the function returned' % show(v))
        return c.flush()
    m = eng.materialise(st, r, PRES)
    k = {l.api.S: 'S', l.api.R: 'R', l.api.F: 'F'}[m[2]]
    if v[0] != 'a' or v[1] != PRES:
        raise Unknown('result is ' + show(v))
    want = l.api.F if k == 'F' else l.api.R
    if v[2] != want:
        c.bad('result', 'a recovered result becomes %s' % show(v))
        return c.flush()
    es = ES if k == 'S' else cat(ES, c.seq_list(m[3][1]))
    if not c.same(v[3][0], m[3][0]):
        c.bad('result', 'first field is %s instead of %s' % (show(v[3][0]), show(m[3][0])))
    if not c.same(eng.as_list(st, v[3][1]), es):
        c.bad('result', 'errors are %s instead of %s' % (show(v[3][1]), show(es)))
    c.flush()
