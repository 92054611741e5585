"""Specifications of the public parsers and combinators, as reference functions over the
decisions recorded on an abstract path, and the comparison of a path with them."""
import lin
from lin import num, add, sub, const
from interp import (UNIT, NONE, OPTION, some, vref, is_opaque, Unknown, Split, Infeasible, list_len, mk_list, lst, show)
from layer import (Layer, Missing, CR, PRES, PARSER, RECOVER, N, START, AT)

REC = ('rec',)
TMR = CR + '::combinator::TryMapResult'
NIL = ('l', ())


class Exp:
    """an expected result"""

    def __init__(self, kind, out=None, end=None, fi=None, errs=None):
        self.kind, self.out, self.end, self.fi, self.errs = kind, out, end, fi, errs


def cat(*ls):
    segs = ()
    for l in ls:
        segs += l[1]
    return mk_list(segs)


class Ctx:
    def __init__(self, layer, eng, st, vals):
        self.l, self.eng, self.st, self.vals = layer, eng, st, vals
        self.runs = []
        self.calls = []
        self.found = []
        self.start = START

    def rec(self):
        return self.eng.pred(self.st, REC)

    def run(self, A, p, rec):
        self.runs.append((A, p, rec))
        k, out, end, fi, es = self.l.child_result(self.eng, self.st, A, p, rec)
        return Exp(k, out, end, fi, es)

    def call(self, F, *args):
        self.calls.append((F,) + args)
        return ('app', F) + args

    def bad(self, aspects, msg):
        self.found.append((aspects if isinstance(aspects, tuple) else (aspects,), msg))

    def same(self, a, b):
        return self.eng.same(self.st, a, b)

    def same_int(self, a, b):
        return self.eng.eq_int(self.st, a, b)

    def exists(self, p):
        """is there a token at p?"""
        return self.eng.ge0(self.st, sub(sub(N, p), num(1)))

    def maxi(self, a, b):
        return a if self.eng.ge0(self.st, sub(a, b)) else b

    def concrete(self, v):
        """a constant if the facts pin v to a small one"""
        k = const(v)
        if k is not None:
            return k
        for k in range(0, 12):
            d = sub(v, num(k))
            if lin.entails(self.st.lin, d) and lin.entails(self.st.lin, lin.scale(d, -1)):
                return k
        return None

    def seq_list(self, v):
        """an opaque vector as a list"""
        return self.eng.as_list(self.st, v)

    def flush(self):
        for a, m in self.found:
            self.l.problem(self.eng, self.st, a, m)

    # -------------------------------------------------------------- compare
    def check_runs(self, runs=None):
        runs = self.runs if runs is None else runs
        act = [e for e in self.st.events if e[0] == 'run']
        a, b = [e[1] for e in act], [r[0] for r in runs]
        if a != b:
            self.bad('runs', 'runs %s where %s is specified' % (names(a), names(b)))
            return False
        for e, r in zip(act, runs):
            if not self.same(e[2], r[1]):
                self.bad('runpos', 'runs %s at %s instead of %s' % (show(e[1]), show(e[2]), show(r[1])))
            if e[3] != r[2]:
                self.bad(('mode', 'mode_on') if e[3] else ('mode',),
                         'runs %s with recovery %s instead of %s' % (show(e[1]), 'on' if e[3] else 'off', 'on' if r[2] else 'off'))
        return True

    def check_calls(self, what=None):
        act = [e[1:] for e in self.st.events if e[0] == 'call']
        if len(act) != len(self.calls) or any(a[0] != b[0] for a, b in zip(act, self.calls)):
            self.bad('calls', 'callbacks run: %s instead of %s' % (names([a[0] for a in act]), names([b[0] for b in self.calls])))
            return
        for a, b in zip(act, self.calls):
            if not self.same(a, b):
                self.bad(('calls',) + (('span',) if self.same(erase(a), erase(b)) else ()), 'callback called with %s instead of %s' % (show(('t', a[1:])), show(('t', b[1:]))))

    def result(self):
        """-> (kind letter, fields)"""
        v = self.eng.resolve(self.st, self.vals[-1])
        if v[0] != 'a' or v[1] != PRES:
            raise Unknown('result is ' + show(v))
        api = self.l.api
        return {api.S: 'S', api.R: 'R', api.F: 'F'}[v[2]], v[3]

    def check_result(self, e, runs=True):
        k, f = self.result()
        if runs:
            self.check_runs()
        pos = self.st.ghost['pos']
        if k == 'F' and not self.same(pos, self.start) and not self.same_int(pos, self.start):
            self.bad('rewind', 'fails with the input at %s instead of where it started' % show(pos))
        if k == 'R' and not self.rec():
            self.bad(('mode_on', 'kind'), 'recovered result although recovery is disabled')
        if k in 'RF':
            l = f[1]
            l = self.eng.as_list(self.st, l)
            if self.same_int(list_len(l), num(0)):
                self.bad('empty', '%s with an empty error list' % kname(k))
        if k != e.kind:
            a = ('kind',)
            if k == 'S' and e.kind == 'R':
                a = ('kind', 'lost')
            elif k == 'R' and e.kind == 'S':
                a = ('kind', 'spurious')
            self.bad(a, '%s where %s is specified' % (kname(k), kname(e.kind)))
            return
        if k in 'SR':
            if not self.same_val(f[0], e.out):
                self.bad('output', 'output is %s instead of %s' % (show(f[0]), show(e.out)))
            if e.end is not None and not self.same(pos, e.end) and not self.same_int(pos, e.end):
                self.bad('endpos', 'leaves the input at %s instead of %s' % (show(pos), show(e.end)))
        if k == 'R' and not self.same(self.eng.as_list(self.st, f[1]), e.errs):
            self.bad(('errors', 'lost') + where_only(self, f[1], e.errs), 'recovered errors are %s instead of %s' % (show(f[1]), show(e.errs)))
        if k == 'F':
            if not self.same_val(f[1], e.errs):
                self.bad(('errors',) + where_only(self, f[1], e.errs), 'errors are %s instead of %s' % (show(f[1]), show(e.errs)))
            if not self.same(f[0], e.fi) and not self.same_int(f[0], e.fi):
                self.bad('findex', 'failure index is %s instead of %s' % (show(f[0]), show(e.fi)))

    def same_val(self, a, b):
        return self.same(a, b)


def erase(v):
    """a value with its spans and locations blanked out"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] in ('span', 'loc'):
        return ('span',)
    return tuple(erase(x) for x in v)


def where_only(c, a, b):
    """('span',) if the values differ in nothing but spans and locations"""
    a, b = c.eng.resolve(c.st, a), c.eng.resolve(c.st, b)
    if a[0] == 'l' or b[0] == 'l':
        a, b = c.eng.as_list(c.st, a), c.eng.as_list(c.st, b)
    return ('span',) if 'span' in repr(a) and c.same(erase(a), erase(b)) else ()


def kname(k):
    return {'S': 'success', 'R': 'recovered', 'F': 'failure'}[k]


def names(xs):
    return '[' + ', '.join(show(x) for x in xs) + ']'


# ------------------------------------------------------------------- phases
def B(name, *args):
    """build by a provided method of Parser, self first"""
    def f(l, eng, st, vals):
        a = [x(vals) if callable(x) else x for x in args]
        return l.api.provided(PARSER, name), a, None
    return f


def RB(name, *args):
    """build by a provided method of a strategy trait, self first"""
    def f(l, eng, st, vals):
        a = [x(vals) if callable(x) else x for x in args]
        return l.api.any_provided([CR + '::recovery::Recover', CR + '::recovery::IncompleteStrategy'], name), a, None
    return f


def FN(path, *args):
    def f(l, eng, st, vals):
        a = [x(vals) if callable(x) else x for x in args]
        return l.api.fn(path), a, None
    return f


def M(name, *args):
    """inherent method of the type of the last value"""
    def f(l, eng, st, vals):
        v = eng.resolve(st, vals[-1])
        a = [x(vals) if callable(x) else x for x in args]
        return l.api.inherent(v[1], name), [v] + a, None
    return f


def PARSE(l, eng, st, vals):
    v = eng.resolve(st, vals[-1])
    st.ghost['parser'] = v
    return l.api.impl(PARSER, 'parse_internal', v[1]), [vref(v), l.stream_ref(), REC], None


def last(vals):
    return vals[-1]


def spec(f):
    """wrap a reference function (ctx -> Exp) into a scenario specification"""
    def g(layer, eng, st, vals):
        c = Ctx(layer, eng, st, vals)
        e = f(c)
        if e is not None:
            c.check_result(e)
        c.flush()
    return g


# ------------------------------------------------------- sequences (C05)
def seq_spec(kids, out):
    def f(c):
        p, errs, outs, bad = START, NIL, [], False
        rec = c.rec() if kids else False
        for A in kids:
            r = c.run(A, p, rec)
            if r.kind == 'F':
                return Exp('F', fi=r.fi, errs=r.errs)
            if r.kind == 'R':
                errs = cat(errs, r.errs)
                bad = True
            outs.append(r.out)
            p = r.end
        return Exp('R' if bad else 'S', out(outs), p, errs=errs)
    return f


# ---------------------------------------------------------- choice (C06/07)
def choice_ref(c, kids):
    """kids: functions rec -> Exp; returns Exp"""
    fails = []
    for i, k in enumerate(kids):
        r = k(False)
        if r.kind == 'S':
            return r
        fails.append((i, r))
    order = []
    for i, r in fails:
        j = len(order)
        while j > 0 and not c.eng.ge0(c.st, sub(order[j - 1][1].fi, r.fi)):
            j -= 1
        order.insert(j, (i, r))
    if c.rec():
        for i, _ in order:
            r = kids[i](True)
            if r.kind == 'R':
                return r
    best = order[0][1]
    errs = best.errs
    if c.same_int(list_len(errs), num(1)):
        e = c.eng.list_get(c.st, errs, num(0))
        if c.eng.pred(c.st, ('isef', e)):
            extra = []
            for _, r in order[1:]:
                for s in r.errs[1]:
                    e2 = s[1]
                    if c.eng.pred(c.st, ('isef', e2)) and c.eng.eq_val(c.st, ('eloc', e), ('eloc', e2)):
                        extra.append(e2)
            if extra:
                errs = lst(('mrg', e, tuple(extra)))
    return Exp('F', fi=best.fi, errs=errs)


class ChoiceCtx(Ctx):
    def same_val(self, a, b):
        if a[0] == 'l' and b[0] == 'l' and len(a[1]) == 1 and len(b[1]) == 1 and a[1][0][0] == 'e' and b[1][0][0] == 'e':
            x, y = a[1][0][1], b[1][0][1]
            if x[0] == 'mrg' and y[0] == 'mrg' and x[1] == y[1]:
                return sorted(x[2], key=repr) == sorted(y[2], key=repr)
        return Ctx.same_val(self, a, b)

    def check_result(self, e, runs=True):
        k, f = self.result()
        if k == 'F' and e.kind == 'F':
            l = f[1]
            if not self.same_val(l, e.errs):
                self.bad('merge', 'errors are %s instead of %s' % (show(l), show(e.errs)))
        return Ctx.check_result(self, e, runs)


def choice_spec(kids, wrap=None, opt=False):
    def g(layer, eng, st, vals):
        c = ChoiceCtx(layer, eng, st, vals)

        def kid(A):
            def k(rec):
                r = c.run(A, START, rec)
                if opt and r.kind in 'SR':
                    r.out = some(r.out)
                return r
            return k
        ks = [kid(A) for A in kids]
        if opt:
            ks.append(lambda rec: Exp('S', NONE, START))
        e = choice_ref(c, ks)
        c.check_result(e)
        c.flush()
    return g


class ManyChoice(Layer):
    """a choice of many alternatives: failures in a given order of their positions, each with one
    expected-found error; those of even alternatives are at the same location"""
    order = None          # place of the alternative's failure position: i -> integer
    fes_len = (1,)

    def nr(self, A):
        return int(A[0][1:])

    def kind_facts(self, eng, st, A, p, rec, k):
        if not Layer.kind_facts(self, eng, st, A, p, rec, k):
            return False
        if k == 'F' and not rec:
            for (a, q, r2), k2 in st.ghost.get('kinds', ()):
                if k2 == 'F' and not r2 and a != A:
                    d = sub(('#fi', A, p, rec), ('#fi', a, q, r2))
                    o = self.order(self.nr(A)) - self.order(self.nr(a))
                    if o >= 0 and not st.assume(sub(d, num(min(o, 1)))):
                        return False
                    if o <= 0 and not st.assume(sub(lin.scale(d, -1), num(min(-o, 1)))):
                        return False
        return True

    def range_pred(self, eng, st, atom):
        if atom[0] == 'isef':
            return True
        if atom[0] == 'eq' and atom[1][0] == 'eloc' and atom[2][0] == 'eloc':
            try:
                return self.nr(atom[1][1][1][1]) % 2 == self.nr(atom[2][1][1][1]) % 2
            except (IndexError, ValueError, TypeError):
                pass
        return Layer.range_pred(self, eng, st, atom)


class LongChoice(Layer):
    """alternatives fail with one error or with many; two in three are expected-found, and every
    other one is at the same location"""
    fes_len = (1, 150)

    def range_pred(self, eng, st, atom):
        if atom[0] == 'isef':
            i = const(atom[1][2])
            return None if i is None else i % 3 != 1
        if atom[0] == 'eq' and atom[1][0] == 'eloc' and atom[2][0] == 'eloc':
            i, j = const(atom[1][1][2]), const(atom[2][1][2])
            return None if i is None or j is None else i % 2 == j % 2
        return Layer.range_pred(self, eng, st, atom)


class ManySeq(Layer):
    """a sequence of many parts of which at most two recover"""
    most = 2

    def kind(self, eng, st, A, p, rec):
        if rec and sum(k == 'R' for (a, q, r), k in st.ghost.get('kinds', ()) if a != A) >= self.most:
            known = [k for (a, q, r2), k in st.ghost.get('kinds', ()) if a == A and r2 and (q == p or eng.same(st, q, p))]
            if not known:
                def setk(k):
                    def f(s):
                        s.ghost['kinds'] = s.ghost.get('kinds', ()) + (((A, p, rec), k),)
                        return self.kind_facts(eng, s, A, p, rec, k)
                    return f
                raise Split([('%s at %s %s' % (show(A), show(p), {'S': 'matches', 'F': 'fails'}[k]), setk(k)) for k in 'SF'])
        return Layer.kind(self, eng, st, A, p, rec)


# ------------------------------------------------------ mapping (C11, C12)
def map_spec(A, out=lambda c, r: r.out, err=lambda c, r: r.errs, calls=True):
    def f(c):
        r = c.run(A, START, c.rec())
        if r.kind in 'SR':
            r.out = out(c, r)
        if r.kind in 'RF':
            r.errs = err(c, r)
        if calls:
            c.check_calls()
        return r
    return spec(f)


def tmpl_map(c, l, f):
    """elementwise image of a list"""
    segs = []
    for s in l[1]:
        if s[0] == 'e':
            segs.append(('e', f(s[1])))
        else:
            segs.append(('x', ('tmpl', f(('el', s[1], ('#k',)))), s[2], s[3]))
    return ('l', tuple(segs))


# -------------------------------------------------------------- try_map C13
def try_map_spec(A, F, strict_calls=True):
    def f(c):
        rec = c.rec()
        r = c.run(A, START, rec)
        if r.kind == 'F':
            c.check_calls()
            return r
        v = c.call(F, r.out, ('span', START, r.end))
        c.check_calls()
        if not any(e[0] == 'call' for e in c.st.events):
            return None
        vn = [x['name'] for x in c.l.prog.adts[TMR]['variants']]
        m = c.eng.materialise(c.st, v, TMR)
        k = vn[m[2]]
        before = r.errs if r.kind == 'R' else NIL
        if k == 'Ok':
            return Exp(r.kind, m[3][0], r.end, errs=before)
        if k == 'Err':
            return Exp('F', fi=START, errs=cat(before, c.seq_list(m[3][0])))
        es = cat(before, c.seq_list(m[3][1]))
        if rec:
            return Exp('R', m[3][0], r.end, errs=es)
        return Exp('F', fi=START, errs=es)
    g = spec(f)

    def on_panic(layer, eng, st, msg):
        # documented: an empty error list from the callback is rejected
        for v, m in st.mat.items():
            if v[0] == 'app' and v[1] == F and m[1] == TMR:
                for x in m[3]:
                    if x[0] == 'l' and lin.entails(st.lin, lin.scale(list_len(x), -1)):
                        return True
        return False
    g.on_panic = on_panic
    return g


# ----------------------------------------------------------- to_recover C14
def to_recover_spec(A, S):
    def f(c):
        rec = c.rec()
        r = c.run(A, START, rec)
        act = [e for e in c.st.events if e[0] == 'recover']
        if r.kind != 'F' or not rec:
            if act:
                c.bad(('recover',) + (() if rec else ('mode_on',)), 'runs the strategy although %s' % ('recovery is disabled' if not rec else 'the parser did not fail'))
            return r
        fat = c.maxi(r.fi, START)
        if not c.eng.ge0(c.st, sub(N, fat)):
            fat = N
        if len(act) != 1:
            c.bad('recover', 'runs the strategy %d times' % len(act))
            return None
        _, s, parser, p, started, failed, errs = act[0]
        if s != S or parser != A:
            c.bad('recover', 'strategy is given a different parser')
        for what, a, b in (('runs at', p, START), ('is told that the parser started at', started, START), ('is told that the parser failed at', failed, fat)):
            if not c.same(a, b) and not c.same_int(a, b):
                c.bad('recover', 'strategy %s %s instead of %s' % (what, show(a), show(b)))
        if not c.same(errs, r.errs):
            c.bad(('recover', 'errors'), 'strategy is given the errors %s instead of %s' % (show(errs), show(r.errs)))
        key = ('rcv', S, p)
        es = cat(r.errs, ('l', (('x', ('rerr', key), num(0), ('#nrerr', key)),)))
        if c.eng.pred(c.st, ('recovers', key)):
            return Exp('R', ('rvout', key), ('#rpos', key), errs=es)
        return Exp('F', fi=r.fi, errs=es)
    return spec(f)


# --------------------------------------------------- token matchers C09/C10
def tok_opt(c, p):
    """Option<I> at p"""
    return some(('tok', p)) if c.exists(p) else NONE


def check_found_error(c, l, p, expected, what):
    """l is exactly one expected-found error about position p"""
    l = c.eng.as_list(c.st, l)
    if not (len(l[1]) == 1 and l[1][0][0] == 'e'):
        if not c.same_int(list_len(l), num(1)):
            c.bad('report', '%s: fails with errors %s instead of exactly one' % (what, show(l)))
            return
        e = c.eng.list_get(c.st, l, num(0))
    else:
        e = l[1][0][1]
    if e[0] != 'ef':
        c.bad('report', '%s: fails with %s instead of an expected-found error' % (what, show(e)))
        return
    _, exp, found, at = e
    f = tok_opt(c, p)
    found = c.eng.strip(c.st, found)
    if found[0] == 'a' and found[1] == OPTION and found[2] == 1:
        found = some(c.eng.strip(c.st, found[3][0]))
    if not c.same(found, f):
        c.bad('report', '%s: reports %s as found instead of %s' % (what, show(found), show(f)))
    if not same_expected(c, exp, expected):
        c.bad('report', '%s: reports %s as expected instead of %s' % (what, show(exp), show(expected)))
    an = [v['name'] for v in c.l.prog.adts[AT]['variants']]
    ok_ = False
    if at[0] == 'a' and at[1] == AT:
        k = an[at[2]]
        if k == 'Location':
            ok_ = c.same(at[3][0], ('loc', p))
        elif k == 'Span':
            sp = at[3][0]
            end = add(p, num(1)) if c.exists(p) else p
            ok_ = sp[0] == 'span' and len(sp) == 3 and (c.same(sp[1], p) or c.same_int(sp[1], p)) and (c.same(sp[2], end) or c.same_int(sp[2], end))
    if not ok_:
        c.bad(('report', 'span'), '%s: error is located at %s instead of the token at %s' % (what, show(at), show(p)))


def same_expected(c, a, b):
    a = c.eng.as_list(c.st, a)
    if c.same(a, b):
        return True
    if len(a[1]) == len(b[1]) and all(s[0] == 'e' for s in a[1] + b[1]):
        return sorted(a[1], key=repr) == sorted(b[1], key=repr)
    # concrete number of items on this path
    n, m = c.concrete(list_len(a)), c.concrete(list_len(b))
    if n is not None and n == m:
        xs = [c.eng.list_get(c.st, a, num(i)) for i in range(n)]
        ys = [c.eng.list_get(c.st, b, num(i)) for i in range(n)]
        return all(any(c.same(x, y) for y in ys) for x in xs) and all(any(c.same(x, y) for x in xs) for y in ys)
    return False


def prim_result(c, kind, out, end, p, expected, what, errs=None):
    """compare with: success (out, end) or failure pointing at p"""
    k, f = c.result()
    c.check_runs([])
    pos = c.st.ghost['pos']
    if k == 'R':
        c.bad(('kind', 'mode_on'), '%s: recovered result' % what)
        return
    if k == 'F' and not c.same(pos, START) and not c.same_int(pos, START):
        c.bad('rewind', '%s: fails with the input at %s instead of where it started' % (what, show(pos)))
    if k == 'F' and c.same_int(list_len(c.eng.as_list(c.st, f[1])), num(0)):
        c.bad('empty', '%s: fails with an empty error list' % what)
    if k != kind:
        c.bad('kind', '%s: %s where %s is specified' % (what, kname(k), kname(kind)))
        return
    if k == 'S':
        o = c.eng.strip(c.st, f[0]) if f[0][0] == 'r' else f[0]
        if not c.same(o, out):
            c.bad('output', '%s: output is %s instead of %s' % (what, show(f[0]), show(out)))
        if not c.same(pos, end) and not c.same_int(pos, end):
            c.bad('endpos', '%s: leaves the input at %s instead of %s' % (what, show(pos), show(end)))
        return
    if not c.same(f[0], p) and not c.same_int(f[0], p):
        c.bad('findex', '%s: failure index is %s instead of %s' % (what, show(f[0]), show(p)))
    if errs is not None:
        if not c.same(c.eng.as_list(c.st, f[1]), errs):
            c.bad('report', '%s: errors are %s instead of %s' % (what, show(f[1]), show(errs)))
    else:
        check_found_error(c, f[1], p, expected, what)


def prim(f):
    def g(layer, eng, st, vals):
        c = Ctx(layer, eng, st, vals)
        f(c)
        c.flush()
    return g


NEXT = add(START, num(1))
TOK = ('tok', START)


def eq_atom(c, a, b):
    return c.eng.eq_val(c.st, a, b)


def p_just(V):
    def f(c):
        m = c.exists(START) and eq_atom(c, TOK, V)
        prim_result(c, 'S' if m else 'F', TOK, NEXT, START, lst(some(V)), 'just')
    return prim(f)


def p_filter(F):
    def f(c):
        m = c.exists(START) and c.eng.pred(c.st, ('app', F, TOK))
        prim_result(c, 'S' if m else 'F', TOK, NEXT, START, NIL, 'filter')
    return prim(f)


def p_filter_map(F):
    def f(c):
        if not c.exists(START):
            return prim_result(c, 'F', None, None, START, NIL, 'filter_map')
        v = ('app', F, TOK)
        r = c.eng.materialise(c.st, v, OPTION)
        if r[2] == 1:
            prim_result(c, 'S', r[3][0], NEXT, START, None, 'filter_map')
        else:
            prim_result(c, 'F', None, None, START, NIL, 'filter_map')
    return prim(f)


def p_end(c):
    if c.exists(START):
        prim_result(c, 'F', None, None, START, lst(NONE), 'end')
    else:
        prim_result(c, 'S', UNIT, START, None, None, 'end')


def p_empty(out):
    def f(c):
        prim_result(c, 'S', out, START, None, None, 'empty/none')
    return prim(f)


def item(C, k):
    return ('el', ('items', C), k)


def p_seq(C):
    n = ('#clen', C)

    def f(c):
        k, fs = c.result()
        if k == 'S':
            j = n
        elif k == 'F':
            j = sub(fs[0], START)
        else:
            return prim_result(c, 'F', None, None, START, None, 'seq')
        if not c.eng.ge0(c.st, j) or not c.eng.ge0(c.st, sub(n, j)):
            c.bad('findex', 'seq: failure index %s is not in the sequence' % show(fs[0]))
            return
        at = add(START, j)
        pr = c.all_hold(num(0), j, lambda i: ('exist', add(START, i)), True) and \
            c.all_hold(num(0), j, lambda i: eqterm(('tok', add(START, i)), item(C, i)), True)
        if pr is False:
            c.bad('kind' if k == 'S' else 'findex', 'seq: %s although an earlier token differs' % (kname(k)))
            return
        if k == 'S':
            return prim_result(c, 'S', C, add(START, n), None, None, 'seq')
        if not c.eng.ge0(c.st, sub(sub(n, j), num(1))):
            c.bad('kind', 'seq: fails although all tokens match')
            return
        if c.exists(at) and eq_atom(c, ('tok', at), item(C, j)):
            c.bad('kind', 'seq: fails at a token that matches')
            return
        prim_result(c, 'F', None, None, at, lst(some(item(C, j))), 'seq')
    return prim(f)


def eqterm(a, b):
    if (a[0], repr(a)) > (b[0], repr(b)):
        a, b = b, a
    return ('eq', a, b)


def p_one_of(C, neg):
    n = ('#clen', C)
    what = 'none_of' if neg else 'one_of'
    exp = NIL if neg else ('l', (('x', ('tmpl', some(('el', ('items', C), ('#k',)))), num(0), n),))

    def f(c):
        k, fs = c.result()
        if not c.exists(START):
            return prim_result(c, 'F', None, None, START, exp, what)
        # is the token one of the items, on this path?
        hit = None
        for a, tv in c.st.preds.items():
            if tv and a[0] == 'eq' and TOK in a[1:]:
                o = a[2] if a[1] == TOK else a[1]
                if o[0] == 'el' and o[1] == ('items', C) and c.eng.ge0(c.st, o[2]) and c.eng.ge0(c.st, sub(sub(n, o[2]), num(1))):
                    hit = True
        if hit is None:
            hit = c.all_hold(num(0), n, lambda i: eqterm(TOK, item(C, i)), False) is False
        prim_result(c, 'S' if hit != neg else 'F', TOK, NEXT, START, exp, what)
    return prim(f)


def _all_hold(self, lo, hi, atom, truth):
    """does the atom have this truth value for every index in lo..hi?  Decided from the
    range facts, or one by one where the path fixes the number of indices."""
    n = self.concrete(sub(hi, lo))
    if n is not None:
        for i in range(n):
            a = atom(add(lo, num(i)))
            if a[0] == 'exist':
                v = self.exists(a[1])
            else:
                v = self.eng.pred(self.st, a)
            if v != truth:
                return False
        return True
    a = atom(lo)
    if a[0] == 'exist':
        # positions below N
        last = sub(atom(sub(hi, num(1)))[1], num(0))
        return self.eng.ge0(self.st, sub(sub(N, last), num(1))) == truth
    if self.l.range_holds(self.eng, self.st, atom, lo, hi, truth):
        return True
    if self.st.widened:
        return False
    # unwidened path with an unbounded index: the code did not look at every index
    if self.eng.ge0(self.st, sub(sub(hi, lo), num(1))):
        for i in range(0, 3):
            d = sub(sub(hi, lo), num(i + 1))
            if not self.eng.ge0(self.st, d):
                return True
            if self.eng.pred(self.st, atom(add(lo, num(i)))) != truth:
                return False
        raise Infeasible()
    return True


Ctx.all_hold = _all_hold
