"""Recovery strategies: the strategy under analysis is run in an arbitrary recovery
situation and compared, step by step, with its reference definition."""
import lin
from lin import num, add, sub
from interp import (UNIT, NONE, OPTION, some, vref, Unknown, Split, Infeasible, list_len, mk_list, lst, show)
from layer import Layer, Missing, CR, RECOVER, N, START
from loops import LOOP
from specs import Ctx, REC, where_only

CUR = ('#cur',)
FAILED = ('#failed',)
N0 = ('#n0',)
ERRS0 = ('l', (('x', ('errs0',), num(0), N0),))
PARSERC = ('P',)          # the parser being recovered


def RECOVER_PHASE(l, eng, st, vals):
    v = eng.resolve(st, vals[-1])
    st.ghost['pos'] = CUR
    for f in (sub(CUR, START), sub(N, CUR), sub(FAILED, START), sub(N, FAILED), sub(N0, num(1))):
        st.assume(f)
    hf = st.alloc(('saved', FAILED))
    he = st.alloc(ERRS0)
    st.ghost['cells'] = (('r', ('H', hf), ()), ('r', ('H', he), ()))
    st.ghost['mon'] = l.mon0
    st.ghost['exp'] = ERRS0
    return l.api.impl(RECOVER, 'recover', v[1]), [vref(v), vref(PARSERC), l.stream_ref(), vref(('saved', START))] + list(st.ghost['cells']), None


class RecLayer(Layer):
    params = (('#N',), ('#start',), ('#cur',), ('#failed',), ('#n0',))
    mon0 = ('off',)

    # ---- monitors: ghost 'mon' is the state of the automaton, 'exp' the expected errors
    def on_recover(self, eng, st, S, parser, p, started, failed, errs, ok_):
        m = st.ghost.get('mon', ('off',))
        key = ('rcv', S, p)
        # progress of a loop is measured from where the strategy it runs left the input
        st.ghost['lp'] = tuple((k, ('#rpos', key), f) for k, q, f in st.ghost.get('lp', ()))
        if m[0] != 'while' or S != m[1]:
            st.ghost['exp'] = self.rec_errs(errs, key)
            return
        _, S, F, q, st_, fl = m
        c = Ctx(self, eng, st, ())
        if st_ == 'done':
            self.problem(eng, st, ('smove', 'sresult'), 'runs the inner strategy again after it succeeded')
            return
        q = st.ghost['pos'] if q == ('first',) else q
        if not c.same_int(p, q):
            self.problem(eng, st, ('smove', 'progress'), 'the inner strategy runs at %s instead of %s' % (show(p), show(q)))
        elif not c.exists(p):
            self.problem(eng, st, ('smove',), 'the inner strategy runs at the end of input')
        elif eng.pred(st, ('app', F, ('tok', p))):
            self.problem(eng, st, ('smove',), 'the inner strategy runs on a token that satisfies the predicate')
        if parser != PARSERC or not c.same_int(started, START):
            self.problem(eng, st, ('schild',), 'the inner strategy is given another parser or start position')
        if fl is not None and not c.same_int(failed, fl):
            self.problem(eng, st, ('schild', 'sfail'), 'the inner strategy is given the failure position %s instead of %s' % (show(failed), show(fl)))
        if not c.same(errs, st.ghost['exp']):
            self.problem(eng, st, ('schild', 'serr'), 'the inner strategy is given the errors %s instead of %s' % (show(errs), show(st.ghost['exp'])))
        st.ghost['exp'] = self.rec_errs(errs, key)
        r = ('#rpos', key)
        if ok_:
            st.ghost['mon'] = ('while', S, F, r, 'done', ('#rfail', key))
        else:
            st.ghost['mon'] = ('while', S, F, ('after', r), 'run', ('#rfail', key))

    def on_scan(self, eng, st, T, tok, at, errs, stop):
        m = st.ghost.get('mon', ('off',))
        if m[0] != 'scan':
            return
        _, q, state, F = m
        c = Ctx(self, eng, st, ())
        q = st.ghost['pos'] if q == ('first',) else q
        if T != ('app', F):
            self.problem(eng, st, ('smove',), 'scans with %s' % show(T))
        if state != 'run':
            self.problem(eng, st, ('smove', 'progress'), 'the scanner is run again after it stopped')
            raise Infeasible()
        if not c.same(errs, st.ghost['exp']):
            self.problem(eng, st, ('serr',), 'the scanner is given the errors %s instead of %s' % (show(errs), show(st.ghost['exp'])))
        if tok is None:
            if c.exists(q):
                self.problem(eng, st, ('smove',), 'reports the end of input although there is a token at %s' % show(q))
            if not c.same(at, ('loc', q)):
                self.problem(eng, st, ('smove', 'span'), 'reports the end of input at %s instead of %s' % (show(at), show(q)))
            key = ('scn', T, 'eof')
            st.ghost['mon'] = ('scan', q, 'eof', F)
        else:
            if not c.same(tok, ('tok', q)):
                self.problem(eng, st, ('smove', 'progress'), 'the scanner is given %s instead of the token at %s' % (show(tok), show(q)))
            if not c.same(at, ('span', q, add(q, num(1)))):
                self.problem(eng, st, ('smove', 'span'), 'the scanner is given %s as the span of the token at %s' % (show(at), show(q)))
            key = ('scn', T, tok)
            st.ghost['mon'] = ('scan', q if stop else add(q, num(1)), 'stop' if stop else 'run', F)
        st.ghost['exp'] = mk_list(errs[1] + (('x', ('serr', key), num(0), ('#nserr', key)),))

    def at_loop(self, eng, st, fr, head):
        self.settle(eng, st)
        Layer.at_loop(self, eng, st, fr, head)

    def settle(self, eng, st):
        """after an unsuccessful inner strategy the loop moves over one token if there is one"""
        m = st.ghost.get('mon', ('off',))
        if m[0] == 'while' and isinstance(m[3], tuple) and m[3][0] == 'after':
            r = m[3][1]
            q = add(r, num(1)) if Ctx(self, eng, st, ()).exists(r) else r
            st.ghost['mon'] = m[:3] + (q,) + m[4:]


class RecCtx(Ctx):
    def __init__(self, layer, eng, st, vals, S):
        Ctx.__init__(self, layer, eng, st, vals)
        self.p, self.failed, self.errs = CUR, FAILED, ERRS0
        self.ev = [e for e in st.events if e[0] in ('recover', 'run')]
        self.S = S

    def next(self, what):
        if not self.ev:
            self.bad(('schild', 'sresult') if what[0] == 'recover' else ('sresult',), '%s is not run' % show(what[1]))
            return None
        e = self.ev.pop(0)
        if e[0] != what[0] or e[1] != what[1]:
            self.bad(('schild', 'sresult'), 'runs %s where %s is specified' % (show(e[1]), show(what[1])))
            return None
        return e

    def child(self, S, parser=PARSERC):
        """the strategy S runs here; its output or None (False: trace mismatch)"""
        e = self.next(('recover', S))
        if e is None:
            return False
        _, _, parser_, p, started, failed, errs = e
        if parser_ != parser:
            self.bad('schild', '%s is given another parser' % show(S))
        for what, a, b in (('runs at', p, self.p), ('is told that the parser started at', started, START), ('is told that the parser failed at', failed, self.failed)):
            if not self.same(a, b) and not self.same_int(a, b):
                self.bad(('schild',) + (('smove',) if what == 'runs at' else ()), '%s %s %s instead of %s' % (show(S), what, show(a), show(b)))
        if not self.same(errs, self.errs):
            self.bad(('schild', 'serr'), '%s is given the errors %s instead of %s' % (show(S), show(errs), show(self.errs)))
        key = ('rcv', S, p)
        self.errs = self.l.rec_errs(self.errs, key)
        self.failed = ('#rfail', key)
        self.p = ('#rpos', key)
        if self.eng.pred(self.st, ('recovers', key)):
            return ('rvout', key)
        return None

    def parse(self, A, rec):
        e = self.next(('run', A))
        if e is None:
            return False
        if not self.same(e[2], self.p) and not self.same_int(e[2], self.p):
            self.bad(('smove', 'sresult'), 'runs %s at %s instead of %s' % (show(A), show(e[2]), show(self.p)))
        if e[3] != rec:
            self.bad(('smode',), 'runs %s with recovery %s' % (show(A), 'on' if e[3] else 'off'))
        k, out, end, fi, es = self.l.child_result(self.eng, self.st, A, e[2], e[3])
        return k, out, end, fi, es

    def cell(self, i):
        r = self.st.ghost['cells'][i]
        return self.eng.read(self.st, r[1], r[2])


def rec_spec(child, act=None, out=None):
    """child: the strategy it was built from (None: attempt_to()); act(c) -> output or None:
    its own action"""
    def g(layer, eng, st, vals):
        layer.settle(eng, st)
        c = RecCtx(layer, eng, st, vals, child)
        o = None
        by_child = False
        if child is not None:
            o = c.child(child)
            by_child = o is not None
        if o is None:
            o = act(c) if act else None
        if o is not False:
            finish(c, o, by_child)
        c.flush()
    return g


def finish(c, o, by_child):
    x = ('schild',) if by_child else ()
    if any(e[0] in ('run', 'recover') for e in c.ev):
        c.bad(x + ('sresult',), '%s is run although it should not be' % show(c.ev[0][1]))
    v = c.eng.resolve(c.st, c.vals[-1])
    exp = NONE if o is None else some(o)
    if v[0] != 'a' or v[1] != OPTION:
        raise Unknown('result ' + show(v))
    if not c.same(v, exp):
        c.bad(x + ('sresult',), 'yields %s instead of %s' % (show(v), show(exp)))
        if v[2] != exp[2]:
            return
    pos = c.st.ghost['pos']
    if not c.same(pos, c.p) and not c.same_int(pos, c.p):
        c.bad(x + ('smove',), 'leaves the input at %s instead of %s' % (show(pos), show(c.p)))
    f = c.cell(0)
    if f[0] != 'saved' or not (c.same(f[1], c.failed) or c.same_int(f[1], c.failed)):
        c.bad(x + ('sfail',), 'leaves the failure position at %s instead of %s' % (show(f), show(c.failed)))
    es = c.eng.as_list(c.st, c.cell(1))
    if not c.same(es, c.errs):
        c.bad(x + ('serr',) + where_only(c, es, c.errs), 'leaves the errors %s instead of %s' % (show(es), show(c.errs)))


# ------------------------------------------------------------ own actions
def a_nothing(c):
    return None


def a_restart(c):
    c.p = START


def a_seek(c):
    c.p = c.failed


def a_skip(c):
    if c.exists(c.p):
        c.p = add(c.p, num(1))


def a_skip_if(F):
    def f(c):
        if c.exists(c.p) and c.eng.pred(c.st, ('app', F, ('tok', c.p))):
            c.p = add(c.p, num(1))
    return f


def a_find(F):
    def f(c):
        end = c.st.ghost['pos']
        if not c.eng.ge0(c.st, sub(end, c.p)):
            c.bad('smove', 'moves back to %s' % show(end))
            return False
        if not c.all_hold(c.p, end, lambda i: ('app', F, ('tok', i)), False):
            c.bad('smove', 'stops at %s although an earlier token satisfies the predicate' % show(end))
            return False
        if c.exists(end) and not c.eng.pred(c.st, ('app', F, ('tok', end))):
            c.bad('smove', 'stops at %s although that token does not satisfy the predicate' % show(end))
            return False
        c.p = end
    return f


def a_scan(F):
    def f(c):
        m = c.st.ghost['mon']
        if m[0] != 'scan' or m[2] == 'run':
            c.bad('smove', 'stops before the scanner or the end of input was reached')
            return False
        c.p = m[1]
        c.errs = c.st.ghost['exp']
    return f


def a_maybe(T):
    def f(c):
        p0 = c.p
        o = c.child(T)
        if o is None:
            c.p = p0
        return o
    return f


def a_while_not(F, T):
    def f(c):
        c.ev = [e for e in c.ev if not (e[0] == 'recover' and e[1] == T)]
        m = c.st.ghost['mon']
        _, _, _, q, state, fl = m
        if q != ('first',):
            c.failed = fl
            c.errs = c.st.ghost['exp']
            c.p = q
        if state == 'done':
            v = c.eng.resolve(c.st, c.vals[-1])
            if v[2] == 1 and v[3][0][0] == 'rvout' and c.same(q, ('#rpos', v[3][0][1])):
                return v[3][0]
            c.bad('sresult', 'yields %s after the inner strategy succeeded' % show(v))
            return False
        if c.exists(c.p) and not c.eng.pred(c.st, ('app', F, ('tok', c.p))):
            c.bad(('smove', 'sresult'), 'stops at %s although that token does not satisfy the predicate' % show(c.p))
            return False
        return None
    return f


def a_parse(A, exact, silent):
    def f(c):
        r = c.parse(A, not exact)
        if r is False:
            return False
        k, out, end, fi, es = r
        if k in 'RF' and not silent:
            from specs import cat
            c.errs = cat(c.errs, es)
        if k in 'SR':
            c.p = end
            return out
        at = c.maxi(fi, c.p)
        if not c.eng.ge0(c.st, sub(N, at)):
            at = N
        c.failed = at
        return None
    return f


def a_push(F, *args):
    def f(c):
        a = [x(c) for x in args]
        c.errs = mk_list(c.errs[1] + (('e', ('app', F) + tuple(a)),))
    return f


def a_update(F, *args):
    def f(c):
        r = ('app', F, c.errs) + tuple(x(c) for x in args)
        c.errs = ('l', (('x', ('upd', r), num(0), ('#nupd', r)),))
    return f


def here(c):
    return ('loc', c.p)


def up_to_here(c):
    return ('span', START, c.p)


def token(c):
    return some(vref(('tok', c.p))) if c.exists(c.p) else NONE


def token_span(c):
    return ('span', c.p, add(c.p, num(1)) if c.exists(c.p) else c.p)


def a_return(f):
    return lambda c: f(c)
