"""Repetition (C08): a reference automaton that follows the runs of item and separator."""
from lin import num, add, sub, const
from interp import some, NONE, Unknown, mk_list, lst, list_len, show, Infeasible
from layer import Layer, N, START
from specs import Ctx, Exp, REC, NIL, cat

MIN, MAX = ('#min',), ('#max',)


class RepLayer(Layer):
    params = (('#N',), ('#start',), MIN, MAX)
    part = ()
    item, sep = ('A',), None
    lo, hi = num(0), None        # bounds; hi None: unbounded
    lead = trail = False
    rounds = 0                   # so many matches at most, most of them plain
    plain = False                # all of them plain
    delay = 1

    def initial(self, eng):
        st = Layer.initial(self, eng)
        st.assume(MIN)
        st.assume(MAX)
        st.assume(sub(MAX, MIN))
        # phase, items so far, position, position before the separator, recovered?
        st.ghost['mon'] = ('top', num(0), START, None, False)
        st.ghost['mout'] = NIL
        st.ghost['merr'] = NIL
        return st

    def kind(self, eng, st, A, p, rec):
        if self.rounds:
            n = const(st.ghost['mon'][1])
            if n >= self.rounds:
                Layer.kind_facts(self, eng, st, A, p, rec, 'F')
                return 'F'
            if self.plain:
                return 'S'
            if n % 64 and (self.lo != num(0) or n % 20) or A == self.sep and n % 40:
                return 'S'
        return Layer.kind(self, eng, st, A, p, rec)

    def kind_facts(self, eng, st, A, p, rec, k):
        return self.plain and k == 'S' or Layer.kind_facts(self, eng, st, A, p, rec, k)

    def child_result(self, eng, st, A, p, rec):
        if self.plain and self.kind(eng, st, A, p, rec) == 'S':
            return 'S', ('out', A, p), add(p, num(1)), None, None
        return Layer.child_result(self, eng, st, A, p, rec)

    def expect(self, c):
        """the next action of the reference automaton"""
        ph, n, p, b, rcv = c.st.ghost['mon']
        if ph in ('stopped', 'failed'):
            return (ph,)
        full = self.hi is not None and c.eng.ge0(c.st, sub(n, self.hi))
        if full and not self.trail:
            return ('stop', p)
        first = c.same_int(n, num(0))
        below = not c.eng.ge0(c.st, sub(n, self.lo))
        if ph == 'top' and self.sep is not None and (self.lead or not first):
            return ('run', self.sep, p, c.rec() and below and not first, first, below)
        if full:
            return ('stop', p)
        return ('run', self.item, p, c.rec() and below, first, below)

    def on_run(self, eng, st, A, p, rec, k):
        c = Ctx(self, eng, st, ())
        e = self.expect(c)
        if e[0] != 'run':
            self.problem(eng, st, ('runs',), 'runs %s after the repetition is over' % show(A))
            raise Infeasible()
        _, X, q, mode, first, below = e
        if X != A:
            self.problem(eng, st, ('runs',), 'runs %s where %s is specified' % (show(A), show(X)))
            raise Infeasible()
        if not c.same_int(p, q):
            self.problem(eng, st, ('runpos',), 'runs %s at %s instead of %s' % (show(A), show(p), show(q)))
        if rec != mode:
            self.problem(eng, st, ('mode', 'mode_on') if rec else ('mode',), 'runs %s with recovery %s instead of %s' % (
                show(A), 'on' if rec else 'off', 'on' if mode else 'off'))
        k, out, end, fi, es = self.child_result(eng, st, A, p, rec)
        ph, n, q, b, rcv = st.ghost['mon']
        if k == 'R':
            st.ghost['merr'] = cat(st.ghost['merr'], es)
            rcv = True
        if A == self.sep and ph == 'top':
            if k == 'F':
                if first:
                    mon = ('item', n, p, p, rcv)
                elif below:
                    mon = ('failed', n, p, (fi, es), rcv)
                else:
                    mon = ('stopped', n, p, None, rcv)
            else:
                mon = ('item', n, end, p, rcv)
        elif k == 'F':
            if below:
                mon = ('failed', n, p, (fi, es), rcv)
            else:
                mon = ('stopped', n, p if b is None or self.trail else b, None, rcv)
        else:
            st.ghost['mout'] = mk_list(st.ghost['mout'][1] + (('e', out),))
            mon = ('top', add(n, num(1)), end, None, rcv)
        st.ghost['mon'] = mon


def rep_spec(layer, eng, st, vals):
    c = Ctx(layer, eng, st, vals)
    ph, n, p, b, rcv = st.ghost['mon']
    rec = c.rec()
    if ph == 'failed':
        e = Exp('F', fi=b[0], errs=b[1])
    else:
        x = layer.expect(c)
        if x[0] == 'run':
            c.bad(('runs', 'kind'), 'stops after %s items although %s is to be run at %s' % (show(n), show(x[1]), show(x[2])))
            return c.flush()
        e = Exp('R' if rcv else 'S', st.ghost['mout'], p, errs=st.ghost['merr'])
    c.check_result(e, runs=False)
    c.flush()


class TermLayer(Layer):
    """repetition of an item that consumes something whenever it matches: every second iteration
    at the latest starts at a later position (C32)"""
    params = RepLayer.params
    item = ('A',)
    delay = 1

    def initial(self, eng):
        st = Layer.initial(self, eng)
        for x in (MIN, MAX, sub(MAX, MIN)):
            st.assume(x)
        return st

    def child_result(self, eng, st, A, p, rec):
        self.looked(st)
        r = Layer.child_result(self, eng, st, A, p, rec)
        if A == self.item and r[0] != 'F':
            st.assume(sub(sub(r[2], p), num(1)))
        return r


def term_spec(layer, eng, st, vals):
    pass
