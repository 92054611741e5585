"""Abstract interpreter for dumped MIR.

Values (immutable tuples):
  True/False                 booleans
  ('i', c, terms)            linear integers (see lin.py); a lone symbol stands for itself
  ('a', adt, variant, fs)    struct / enum value
  ('t', fs)                  tuple            ('c', body, fs)  closure
  ('fn', id)                 function item    ('str', s)       string constant
  ('r', base, path)          reference; base ('L', depth, local) | ('H', heap id) | ('V', value)
  ('box', v)                 Box              ('rc'|'weak'|'cell', heap id)
  ('l', segs)                Vec / VecDeque / array / slice; a segment is ('e', v) or
                             ('x', S, lo, hi): the elements lo..hi of the opaque sequence S
  anything else              an opaque term, named by what it stands for.  A tag that
                             starts with '#' is an unsigned integer.
"""
import lin
from lin import num, add, sub, const

UNIT = ('t', ())
OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
ORDERING = 'core::cmp::Ordering'
CONSTR = {'i', 'a', 't', 'c', 'fn', 'r', 'box', 'rc', 'weak', 'cell', 'l', 'str', 'guard'}
NONE = ('a', OPTION, 0, ())


def some(v):
    return ('a', OPTION, 1, (v,))


def ok(v):
    return ('a', RESULT, 0, (v,))


def err(v):
    return ('a', RESULT, 1, (v,))


def vref(v):
    return ('r', ('V', v), ())


def is_opaque(v):
    return not isinstance(v, bool) and v[0] not in CONSTR


def is_int(v):
    return not isinstance(v, bool) and (v[0] == 'i' or (v[0] not in CONSTR and v[0][:1] == '#'))


LESS, EQUAL, GREATER = (('a', ORDERING, k, ()) for k in range(3))


class Unknown(Exception):
    """the analysis cannot interpret something; the scenario has no verdict"""

OWN = 'parse_proof_of_concept'


# a count need not fit in these; that one comes near 2^32 is not considered
NARROW = {'u8': 1 << 8, 'i8': 1 << 7, 'u16': 1 << 16, 'i16': 1 << 15}
CLIENT = {('#min',), ('#max',)}        # numbers a client chooses freely


class Split(Exception):
    def __init__(self, alts):
        self.alts = alts  # list of (description, fn(state) -> bool)


class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg


class Pushed(Exception):
    """a native pushed a frame that produces the result"""


class Violation(Exception):
    def __init__(self, aspect, msg):
        self.aspect = aspect
        self.msg = msg


class Infeasible(Exception):
    pass


class Frame:
    __slots__ = ('body', 'blk', 'idx', 'locals', 'dest', 'target', 'env', 'loops', 'entry')

    def __init__(self, body, env, dest, target):
        self.body = body
        self.blk = 0
        self.idx = 0
        self.locals = {}
        self.dest = dest      # (base, path) in the caller
        self.target = target  # block in the caller
        self.env = env        # generic param name -> (type id)
        self.loops = {}
        self.entry = None     # what it was called with

    def copy(self):
        f = Frame.__new__(Frame)
        f.body, f.blk, f.idx = self.body, self.blk, self.idx
        f.locals = dict(self.locals)
        f.dest, f.target, f.env = self.dest, self.target, self.env
        f.loops = dict(self.loops)
        f.entry = self.entry
        return f


class State:
    __slots__ = ('frames', 'heap', 'rc', 'preds', 'mat', 'lin', 'ghost', 'events', 'trail', 'fresh', 'widened', 'steps', 'ret')

    def __init__(self):
        self.frames = []
        self.heap = {}
        self.rc = {}
        self.preds = {}
        self.mat = {}
        self.lin = ()
        self.ghost = {}
        self.events = ()
        self.trail = None
        self.fresh = 0
        self.widened = False
        self.steps = 0
        self.ret = None

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.rc = dict(self.rc)
        s.preds = dict(self.preds)
        s.mat = dict(self.mat)
        s.lin = self.lin
        s.ghost = dict(self.ghost)
        s.events = self.events
        s.trail = self.trail
        s.fresh = self.fresh
        s.widened = self.widened
        s.steps = self.steps
        s.ret = self.ret
        return s

    def note(self, what):
        self.trail = (what, self.trail)

    def trail_list(self):
        out = []
        t = self.trail
        while t is not None:
            out.append(t[0])
            t = t[1]
        return out[::-1]

    def alloc(self, v):
        h = self.fresh
        self.fresh += 1
        self.heap[h] = v
        return h

    def assume(self, v):
        """add the fact v >= 0; False if contradictory"""
        t = lin.trivially(v)
        if t is True:
            return True
        if t is False or lin.entails(self.lin, sub(num(-1), v)):
            return False
        if v not in self.lin and not lin.entails(self.lin, v):
            self.lin = self.lin + (v,)
        return True


def list_len(v):
    n = num(0)
    for s in v[1]:
        n = add(n, num(1) if s[0] == 'e' else sub(s[3], s[2]))
    return n


def mk_list(segs):
    out = []
    for s in segs:
        if s[0] == 'x':
            if s[2] == s[3]:
                continue
            if out and out[-1][0] == 'x' and out[-1][1] == s[1] and out[-1][3] == s[2]:
                out[-1] = ('x', s[1], out[-1][2], s[3])
                continue
        elif out and out[-1][0] == 'x' and (s[1] == ('el', out[-1][1], out[-1][3]) or
                                            out[-1][1][0] == 'tmpl' and s[1] == seg_elem(out[-1][1], out[-1][3])):
            out[-1] = ('x', out[-1][1], out[-1][2], add(out[-1][3], num(1)))
            continue
        out.append(s)
    return ('l', tuple(out))


def lst(*vs):
    return ('l', tuple(('e', v) for v in vs))


def seg_elem(S, i):
    if S[0] == 'tmpl':
        return subst_term(S[1], ('#k',), i)
    return ('el', S, i)


def subst_term(v, old, new):
    if v == old:
        return new
    if isinstance(v, tuple):
        if v and v[0] == 'i':
            r = num(v[1])
            for s, k in v[2]:
                r = add(r, subst_term(s, old, new), k)
            return r
        return tuple(subst_term(x, old, new) if isinstance(x, tuple) else x for x in v)
    return v


HUGE = 1 << 62


class Engine:
    def __init__(self, prog, config):
        self.prog = prog
        self.cfg = config          # scenario object: hooks, on_return, limits
        self.fninfo = []
        self.fnids = {}
        self.table = {}
        self.njoins = {}
        self.delay = getattr(config, 'delay', 3)
        self.max_states = getattr(config, 'max_states', 200000)
        self.stats = {'paths': 0, 'steps': 0, 'splits': 0, 'pruned': 0, 'joins': 0, 'functions': set(), 'calls': 0, 'panics': 0}
        self.track_drops = getattr(config, 'track_drops', False)
        self.phi = 0
        self.unknowns = []
        from natives import NATIVES, TRAIT_NATIVES
        self.natives = NATIVES
        self.trait_natives = TRAIT_NATIVES

    # ------------------------------------------------------------ types
    def ty(self, fr, tid):
        t = self.prog.types[tid + fr.body['off']]
        return self.tyres(fr, t)

    def tyres(self, fr, t):
        n = 0
        while t['k'] == 'param' and fr is not None and n < 5:
            x = fr.env.get(t['n'])
            if x is None or x is t:
                break
            t = x
            n += 1
        return t

    # ----------------------------------------------------------- places
    def base_value(self, st, base):
        k = base[0]
        if k == 'L':
            loc = st.frames[base[1]].locals
            if base[2] not in loc:
                raise Unknown('read of uninitialised local _%d in %s' % (base[2], st.frames[base[1]].body['key']))
            return loc[base[2]]
        if k == 'H':
            return st.heap[base[1]]
        return base[1]

    def resolve(self, st, v):
        m = st.mat
        while m and not isinstance(v, bool) and v in m:
            v = m[v]
        return v

    def project(self, st, v, e):
        v = self.resolve(st, v)
        k = e[0]
        if k == 'v':
            if is_opaque(v):
                return v
            if v[0] == 'a' and v[2] != e[1]:
                raise Unknown('downcast of %s to variant %d' % (show(v), e[1]))
            return v
        if k == 'f':
            t = v[0]
            if t == 'a':
                return v[3][e[1]]
            if t == 't':
                return v[1][e[1]]
            if t == 'c':
                return v[2][e[1]]
            if t == 'box' or t == 'uninit':
                return v
            if t == 'r' or t == 'rc':
                raise Unknown('field of pointer ' + show(v))
            if v[0] == 'strm':
                raise Unknown('private state of the stream used directly')
            if is_opaque(v):
                return ('proj', v, e[1])
            raise Unknown('field %d of %s' % (e[1], show(v)))
        if k == 'b':
            if v[0] == 'box':
                return v[1]
            raise Unknown('deref of ' + show(v))
        if k == 'x':
            return self.list_get(st, v, e[1])
        raise Unknown('projection %r' % (e,))

    def read(self, st, base, path):
        v = self.base_value(st, base)
        for e in path:
            v = self.project(st, v, e)
        return self.resolve(st, v)

    def write(self, st, base, path, val):
        k = base[0]
        if k == 'V':
            raise Unknown('write through a shared reference')
        if not path:
            if k == 'L':
                st.frames[base[1]].locals[base[2]] = val
            else:
                st.heap[base[1]] = val
            return
        if k == 'L':
            old = st.frames[base[1]].locals.get(base[2], ('uninit',))
        else:
            old = st.heap[base[1]]
        new = self._upd(st, old, path, val)
        if k == 'L':
            st.frames[base[1]].locals[base[2]] = new
        else:
            st.heap[base[1]] = new

    def _upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        v = self.resolve(st, v)
        k = e[0]
        if k == 'v':
            return self._upd(st, v, path[1:], val)
        if k == 'f':
            i = e[1]
            if v[0] == 'a':
                fs = list(v[3])
                fs[i] = self._upd(st, fs[i], path[1:], val)
                return ('a', v[1], v[2], tuple(fs))
            if v[0] == 't':
                fs = list(v[1])
                fs[i] = self._upd(st, fs[i], path[1:], val)
                return ('t', tuple(fs))
            if v[0] == 'c':
                fs = list(v[2])
                fs[i] = self._upd(st, fs[i], path[1:], val)
                return ('c', v[1], tuple(fs)) + v[3:]
            if v[0] == 'uninit':
                return self._upd(st, v, path[1:], val)  # MaybeUninit wrappers
            raise Unknown('field write on ' + show(v))
        if k == 'b':
            if v[0] == 'box':
                return ('box', self._upd(st, v[1], path[1:], val))
            raise Unknown('write through ' + show(v))
        if k == 'x':
            if len(path) == 1:
                return self.list_set(st, v, e[1], val)
            return self.list_set(st, v, e[1], self._upd(st, self.list_get(st, v, e[1]), path[1:], val))
        raise Unknown('write projection')

    def place(self, st, fr, p):
        """resolve a MIR place to (base, path)"""
        base = ('L', len(st.frames) - 1, p[0])
        path = ()
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, base, path)
                if v[0] == 'r':
                    base, path = v[1], v[2]
                elif v[0] == 'box':
                    path = path + (('b',),)
                elif v[0] == 'str':
                    base, path = ('V', v), ()
                elif is_opaque(v):
                    base, path = ('V', ('deref', v)), ()
                else:
                    raise Unknown('deref of ' + show(v))
            elif k == 'f':
                path = path + (('f', e[1]),)
            elif k == 'v':
                path = path + (('v', e[1]),)
            elif k == 'i':
                path = path + (('x', self.read(st, ('L', len(st.frames) - 1, e[1]), ())),)
            elif k == 'ci':
                if e[3]:
                    n = list_len(self.read(st, base, path))
                    path = path + (('x', add(n, num(-e[1]))),)
                else:
                    path = path + (('x', num(e[1])),)
            elif k == 'ss':
                v = self.read(st, base, path)
                lo = num(e[1])
                hi = sub(list_len(v), num(e[2])) if e[3] else num(e[2])
                base, path = ('V', self.list_slice(st, v, lo, hi)), ()
            else:
                raise Unknown('place element %r' % (e,))
        return base, path

    # ------------------------------------------------------------ lists
    def as_list(self, st, v):
        v = self.resolve(st, v)
        while v[0] in ('r', 'box'):
            v = self.read(st, v[1], v[2]) if v[0] == 'r' else self.resolve(st, v[1])
        if v[0] != 'l':
            raise Unknown('list operation on ' + show(v))
        return v

    def list_get(self, st, v, idx):
        v = self.as_list(st, v)
        off = num(0)
        for s in v[1]:
            if s[0] == 'e':
                if self.eq_int(st, idx, off):
                    return s[1]
                off = add(off, num(1))
            else:
                n = sub(s[3], s[2])
                if self.ge0(st, sub(sub(add(off, n), idx), num(1))):
                    return seg_elem(s[1], add(s[2], sub(idx, off)))
                off = add(off, n)
        raise Unknown('index %s outside list' % show(idx))

    def list_set(self, st, v, idx, val):
        v = self.as_list(st, v)
        off = num(0)
        out = list(v[1])
        for k, s in enumerate(out):
            if s[0] == 'e':
                if self.eq_int(st, idx, off):
                    out[k] = ('e', val)
                    return ('l', tuple(out))
                off = add(off, num(1))
            else:
                n = sub(s[3], s[2])
                if self.ge0(st, sub(sub(add(off, n), idx), num(1))):
                    i = add(s[2], sub(idx, off))
                    out[k:k + 1] = [('x', s[1], s[2], i), ('e', val), ('x', s[1], add(i, num(1)), s[3])]
                    return mk_list(out)
                off = add(off, n)
        raise Unknown('index outside list')

    def list_split(self, st, v, idx):
        """-> (first idx elements, rest); idx must be <= len"""
        a, b = [], []
        off = num(0)
        done = False
        for s in v[1]:
            if done:
                b.append(s)
                continue
            if self.ge0(st, sub(off, idx)):
                done = True
                b.append(s)
                continue
            if s[0] == 'e':
                a.append(s)
                off = add(off, num(1))
            else:
                n = sub(s[3], s[2])
                if self.ge0(st, sub(idx, add(off, n))):
                    a.append(s)
                    off = add(off, n)
                else:
                    m = add(s[2], sub(idx, off))
                    a.append(('x', s[1], s[2], m))
                    b.append(('x', s[1], m, s[3]))
                    done = True
        return mk_list(a), mk_list(b)

    def list_slice(self, st, v, lo, hi):
        v = self.as_list(st, v)
        a, _ = self.list_split(st, v, hi)
        _, b = self.list_split(st, a, lo)
        return b

    # -------------------------------------------------------- decisions
    def ge0(self, st, v):
        t = lin.trivially(v)
        if t is not None:
            return t
        if v[0] == 'i' and abs(v[1]) >= HUGE:
            return v[1] > 0          # assumption: no index or count ever comes near 2^62
        if lin.entails(st.lin, v):
            return True
        neg = sub(num(-1), v)
        if lin.entails(st.lin, neg):
            return False
        raise Split([('%s >= 0' % show(v), lambda s: s.assume(v)),
                     ('%s < 0' % show(v), lambda s: s.assume(neg))])

    def entails_range(self, st, k, lo, hi):
        return lin.entails(st.lin, sub(k, lo)) and lin.entails(st.lin, sub(sub(hi, k), num(1)))

    def eq_int(self, st, a, b):
        if a == b:
            return True
        d = sub(a, b)
        t = const(d)
        if t is not None:
            return t == 0
        if not self.ge0(st, d):
            return False
        return self.ge0(st, lin.scale(d, -1))

    def pred(self, st, atom):
        """truth of an opaque boolean"""
        if isinstance(atom, bool):
            return atom
        atom = self.resolve(st, atom)
        if isinstance(atom, bool):
            return atom
        p = st.preds.get(atom)
        if p is not None:
            return p
        d = self.pred_rule(st, atom)
        if d is None:
            d = self.cfg.range_pred(self, st, atom)
        if d is not None:
            return d

        def setp(b):
            def f(s):
                s.preds[atom] = b
                self.cfg.on_pred(self, s, atom, b)
                return True
            return f
        raise Split([('%s' % show(atom), setp(True)), ('not %s' % show(atom), setp(False))])

    def pred_rule(self, st, atom):
        # the same opaque predicate on arguments that are provably equal integers
        for a, p in st.preds.items():
            if a[0] == atom[0] and len(a) == len(atom) and self.same(st, a, atom):
                return p
        return None

    def same(self, st, a, b):
        """are two values certainly equal (structurally, integers modulo the facts)?"""
        if a == b:
            return True
        if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, tuple) or not isinstance(b, tuple):
            return False
        a2 = self.resolve(st, a)
        b2 = self.resolve(st, b)
        if a2 is not a or b2 is not b:
            return self.same(st, a2, b2)
        if a and b and isinstance(a[0], str) and isinstance(b[0], str):
            ia, ib = is_int(a), is_int(b)
            if ia or ib:
                if ia and ib and a[0] == b[0] and a[0] != 'i' and len(a) == len(b) and len(a) > 1 \
                        and all(x == y or self.same(st, x, y) for x, y in zip(a[1:], b[1:])):
                    return True
                d = sub(a, b)
                return lin.entails(st.lin, d) and lin.entails(st.lin, lin.scale(d, -1))
            if a[0] == 'proj' and b[0] == 'proj':
                # parts of two values that were looked into: resolving those would lead back here
                x, y = a[1], b[1]
                return a[2:] == b[2:] and (x == y or x[0] == y[0] and len(x) == len(y) and all(p == q or self.same(st, p, q) for p, q in zip(x[1:], y[1:])))
            if a[0] == 'l' and b[0] == 'l':
                return self.same_list(st, a, b)
            if a[0] == 'r' and b[0] == 'r' and (a[1][0] == 'V' or b[1][0] == 'V'):
                return self.same(st, self.read(st, a[1], a[2]), self.read(st, b[1], b[2]))
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x != y and not self.same(st, x, y):
                return False
        return True

    def same_list(self, st, a, b):
        sa = [s for s in a[1] if not (s[0] == 'x' and self.same(st, s[2], s[3]))]
        sb = [s for s in b[1] if not (s[0] == 'x' and self.same(st, s[2], s[3]))]
        while sa and sb:
            x, y = sa[0], sb[0]
            if x[0] == 'e' and y[0] == 'e':
                if not self.same(st, x[1], y[1]):
                    return False
                sa.pop(0)
                sb.pop(0)
            elif x[0] == 'x' and y[0] == 'x':
                if not (self.same(st, x[1], y[1]) and self.same(st, x[2], y[2])):
                    return False
                if self.same(st, x[3], y[3]):
                    sa.pop(0)
                    sb.pop(0)
                elif lin.entails(st.lin, sub(y[3], x[3])):
                    sa.pop(0)
                    sb[0] = ('x', y[1], x[3], y[3])
                elif lin.entails(st.lin, sub(x[3], y[3])):
                    sb.pop(0)
                    sa[0] = ('x', x[1], y[3], x[3])
                else:
                    return False
            else:
                # an element against the first element of a segment
                if x[0] == 'x':
                    seg, el, which = x, y, sa
                else:
                    seg, el, which = y, x, sb
                if not lin.entails(st.lin, sub(sub(seg[3], seg[2]), num(1))):
                    return False
                if not self.same(st, seg_elem(seg[1], seg[2]), el[1]):
                    return False
                which[0] = ('x', seg[1], add(seg[2], num(1)), seg[3])
                if self.same(st, which[0][2], which[0][3]):
                    which.pop(0)
                (sb if which is sa else sa).pop(0)
        return not sa and not sb

    def eq_val(self, st, a, b):
        """PartialEq on abstract values (forks on opaque ones)"""
        a = self.deref_all(st, a)
        b = self.deref_all(st, b)
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            x, y = (a, b) if isinstance(a, bool) else (b, a)
            return self.pred(st, y) == x
        if a == b:
            return True
        if is_int(a) and is_int(b) or a[0] == 'i' or b[0] == 'i':
            return self.eq_int(st, a, b)
        if is_opaque(a) or is_opaque(b):
            if is_opaque(a) and not is_opaque(b) and b[0] == 'a' and len(self.prog.adts[b[1]]['variants']) > 1:
                self.materialise(st, a, b[1])
            if is_opaque(b) and not is_opaque(a) and a[0] == 'a' and len(self.prog.adts[a[1]]['variants']) > 1:
                self.materialise(st, b, a[1])
            if self.same(st, a, b):
                return True
            if (a[0], repr(a)) > (b[0], repr(b)):
                a, b = b, a
            return self.pred(st, ('eq', a, b))
        if a[0] == 'a' and b[0] == 'a':
            if a[1] != b[1]:
                raise Unknown('eq of different types')
            if a[2] != b[2]:
                return False
            return all(self.eq_val(st, x, y) for x, y in zip(a[3], b[3]))
        if a[0] == 't' and b[0] == 't':
            return all(self.eq_val(st, x, y) for x, y in zip(a[1], b[1]))
        if a[0] == 'str' and b[0] == 'str':
            return a[1] == b[1]
        if a[0] == 'l' and b[0] == 'l':
            if self.same(st, a, b):
                return True
            if not self.eq_int(st, list_len(a), list_len(b)):
                return False
            sa, sb = a[1], b[1]
            if all(s[0] == 'e' for s in sa) and all(s[0] == 'e' for s in sb):
                return all(self.eq_val(st, x[1], y[1]) for x, y in zip(sa, sb))
            return self.pred(st, ('eq', a, b))
        if a[0] == 'rc' and b[0] == 'rc':
            return self.eq_val(st, st.heap[a[1]], st.heap[b[1]])
        raise Unknown('eq of %s and %s' % (show(a), show(b)))

    def deref_all(self, st, v):
        v = self.resolve(st, v)
        while not isinstance(v, bool) and v[0] in ('r', 'box'):
            v = self.read(st, v[1], v[2]) if v[0] == 'r' else self.resolve(st, v[1])
        return v

    def materialise(self, st, v, adtkey):
        """fork over the variants of an opaque enum value"""
        v = self.resolve(st, v)
        if not is_opaque(v):
            return v
        for a, m in st.mat.items():
            if a[0] == v[0] and self.same(st, a, v):
                return m
        r = self.cfg.mat_rule(self, st, v, adtkey) if hasattr(self.cfg, 'mat_rule') else None
        if r is not None:
            return r
        adt = self.prog.adts[adtkey]

        def setv(k, var):
            def f(s):
                fs = tuple(self.opaque_field(adt, var, ('proj', v, k, i), i) for i in range(len(var['fields'])))
                s.mat[v] = ('a', adtkey, k, fs)
                return True
            return f
        raise Split([('%s is %s' % (show(v), var['name']), setv(k, var)) for k, var in enumerate(adt['variants'])])

    def opaque_field(self, adt, var, v, i):
        f = var['fields'][i]
        if f.get('ty') is None:
            return v
        t = self.prog.types[f['ty'] + adt['off']]
        if t['k'] == 'adt' and t['d'] in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
            return ('l', (('x', ('seq', v), num(0), ('#nseq', v)),))
        return v

    # --------------------------------------------------------- operands
    def operand(self, st, fr, op):
        k = op[0]
        if k == 'c' or k == 'm':
            p = op[1]
            if not p[1]:
                v = fr.locals.get(p[0])
                if v is None:
                    raise Unknown('read of uninitialised _%d in %s' % (p[0], fr.body['key']))
                return self.resolve(st, v)
            base, path = self.place(st, fr, p)
            return self.read(st, base, path)
        if k == 'k':
            return self.konst(st, fr, op[1])
        if k == 'rt':
            return False
        raise Unknown('operand %r' % (op,))

    def konst(self, st, fr, c):
        if 'fn' in c:
            return self.fn_value(fr, c['fn'])
        t = self.ty(fr, c['ty'])
        if 'v' in c:
            if t['k'] == 'bool':
                return bool(c['v'])
            return num(c['v'])
        if 'str' in c:
            return ('str', c['str'])
        if 'promoted' in c:
            return self.promoted(st, fr, c['promoted'])
        if 'cparam' in c:
            return ('#const', c['cparam'])
        if c.get('item') and c['item'] in self.prog.bodies and not c.get('zst'):
            return self.const_item(st, fr, c['item'])
        if 'bytes' in c:
            return ('bytes', tuple(c['bytes']))
        if c.get('zst'):
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'adt':
                return ('a', t['d'], 0, ())
            if t['k'] == 'closure':
                return ('c', t['d'], ())
            if t['k'] == 'array':
                return lst()
            return ('zst', t['s'])
        if t['k'] == 'adt' and c.get('item') is None:
            return ('const', c.get('dbg'))
        return ('const', c.get('item') or c.get('dbg'))

    def fn_value(self, fr, info):
        env = fr.env
        a = tuple(id(self.tyres(fr, self.prog.types[x + fr.body['off']])) for x in info['a'])
        key = (info['d'], info.get('res'), a, fr.body['off'])
        i = self.fnids.get(key)
        if i is None:
            i = len(self.fninfo)
            self.fnids[key] = i
            info2 = dict(info)
            info2['types'] = [self.tyres(fr, self.prog.types[x + fr.body['off']]) for x in info['a']]
            if info.get('res_a') is not None:
                info2['res_types'] = [self.tyres(fr, self.prog.types[x + fr.body['off']]) for x in info['res_a']]
            if info.get('impl_self') is not None:
                info2['self_t'] = self.prog.types[info['impl_self'] + fr.body['off']]
            self.fninfo.append(info2)
        return ('fn', i)

    def promoted(self, st, fr, i):
        return self.run_const(st, fr.body['promoted'][i], fr.env)

    def const_item(self, st, fr, key):
        return self.run_const(st, self.prog.bodies[key], {})

    def run_const(self, st, body, env):
        """straight-line evaluation of a promoted / constant body"""
        f = Frame(body, env, None, None)
        st.frames.append(f)
        try:
            n = 0
            while True:
                n += 1
                if n > 200:
                    raise Unknown('constant too complex')
                blk = body['blocks'][f.blk]
                for s in blk['s']:
                    self.stmt(st, f, s)
                t = blk['t']
                if t[0] == 'goto':
                    f.blk = t[1]
                elif t[0] == 'return':
                    return self.freeze(st, f.locals[0])
                elif t[0] == 'assert':
                    f.blk = t[4]
                elif t[0] == 'drop':
                    f.blk = t[2]
                else:
                    raise Unknown('constant with %s' % t[0])
        finally:
            st.frames.pop()

    def freeze(self, st, v):
        if v[0] == 'r' and v[1][0] != 'V':
            return vref(self.read(st, v[1], v[2]))
        return v

    # ------------------------------------------------------- statements
    def stmt(self, st, fr, s):
        k = s[0]
        if k == '=':
            v = self.rvalue(st, fr, s[2], s[1])
            p = s[1]
            if not p[1]:
                fr.locals[p[0]] = v
            else:
                base, path = self.place(st, fr, p)
                self.write(st, base, path, v)
            self.consume(fr, s[2])
        elif k == 'live':
            pass
        elif k == 'dead':
            fr.locals.pop(s[1], None)
        elif k == 'sd':
            base, path = self.place(st, fr, s[1])
            v = self.read(st, base, path)
            self.write(st, base, path, ('a', v[1], s[2], v[3]))
        else:
            raise Unknown('statement %r' % (s,))

    def consume(self, fr, rv):
        # moved-out locals disappear
        k = rv[0]
        ops = ()
        if k in ('use', 'repeat'):
            ops = (rv[1],)
        elif k == 'cast':
            ops = (rv[2],)
        elif k == 'bin':
            ops = (rv[2], rv[3])
        elif k == 'un':
            ops = (rv[2],)
        elif k == 'agg':
            ops = rv[2]
        for o in ops:
            if o[0] == 'm' and not o[1][1]:
                fr.locals.pop(o[1][0], None)

    def rvalue(self, st, fr, rv, dest):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            base, path = self.place(st, fr, rv[2])
            if rv[1]:
                return ('r', base, path)
            if base[0] == 'V' and not path:
                return ('r', base, ())
            return vref(self.read(st, base, path))
        if k == 'agg':
            vs = tuple(self.operand(st, fr, o) for o in rv[2])
            w = rv[1]
            if w == 'array':
                return lst(*vs)
            if w == 'tuple':
                return ('t', vs)
            if w == 'adt':
                if len(rv) > 5 and rv[5] is not None:
                    return vs[0]
                return ('a', rv[3], rv[4], vs)
            if w == 'closure':
                return ('c', rv[3], vs, self.env_key(fr))
            raise Unknown('aggregate %s' % w)
        if k == 'discr':
            base, path = self.place(st, fr, rv[1])
            v = self.read(st, base, path)
            if is_opaque(v):
                t = self.ty(fr, rv[2])
                if t['k'] != 'adt':
                    raise Unknown('discriminant of opaque %s' % t['s'])
                v = self.materialise(st, v, t['d'])
            if v[0] != 'a':
                raise Unknown('discriminant of ' + show(v))
            return num(self.prog.adts[v[1]]['variants'][v[2]]['discr'])
        if k == 'bin':
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            r = self.binop(st, rv[1], a, b)
            if rv[1] in ('Add', 'AddWithOverflow', 'Mul', 'MulWithOverflow'):
                limit = self.narrow(fr, rv[2]) or self.narrow(fr, rv[3])
                if limit is not None:
                    if rv[1] in ('Add', 'Mul'):
                        return self.truncated(st, r, limit)
                    t = self.truncated(st, r[1][0], limit)
                    return ('t', (t, r[1][1] or t != r[1][0]))
            return r
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if isinstance(v, bool):
                    return not v
                if is_opaque(v):
                    return not self.pred(st, v)
                raise Unknown('not')
            if rv[1] == 'PtrMetadata':
                return self.length(st, v)
            raise Unknown('unary %s' % rv[1])
        if k == 'cast':
            kind = rv[1]
            if kind == 'BoxDerefTransmute':
                p = rv[2][1]
                base, path = self.place(st, fr, [p[0], p[1][:-1]])
                return ('r', base, path + (('b',),))
            v = self.operand(st, fr, rv[2])
            if kind.startswith('PointerCoercion') or kind.startswith('IntToInt') or kind.startswith('PtrToPtr'):
                if kind.startswith('IntToInt') and isinstance(v, bool):
                    return num(1 if v else 0)
                if kind.startswith('IntToInt') and self.narrow(fr, rv[2]) is None:
                    return self.truncated(st, v, NARROW.get(self.ty(fr, rv[3])['s']))
                return v
            raise Unknown('cast %s' % kind)
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            if rv[2] is None or rv[2] > 64:
                raise Unknown('array repeat')
            return lst(*([v] * rv[2]))
        if k == 'len':
            base, path = self.place(st, fr, rv[1])
            return self.length(st, self.read(st, base, path))
        raise Unknown('rvalue %r' % (rv[:2],))

    def narrow(self, fr, op):
        """one more than an operand's type holds, if the type is a narrow integer"""
        if op[0] == 'k':
            return NARROW.get(self.ty(fr, op[1]['ty'])['s']) if 'ty' in op[1] else None
        if op[0] in ('c', 'm') and not op[1][1]:
            return NARROW.get(self.tyres(fr, self.prog.types[fr.body['locals'][op[1][0]]])['s'])
        return None

    def truncated(self, st, v, limit):
        if limit is None or not is_int(v):
            return v
        c = const(v)
        if c is not None:
            return v if c < limit else num(c % limit)
        return ('#low', v, num(limit)) if self.ge0(st, sub(v, num(limit))) else v

    def env_key(self, fr):
        return None

    def length(self, st, v):
        v = self.deref_all(st, v)
        if v[0] == 'l':
            return list_len(v)
        if v[0] == 'str':
            return num(len(v[1].encode()))
        if v[0] == 'txt':
            return num(sum(w for _, w in v[1]))
        if is_opaque(v):
            return ('#len', v)
        raise Unknown('length of ' + show(v))

    def binop(self, st, op, a, b):
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            r, o = self.arith(st, op[:3], a, b)
            return ('t', (r, o))
        if op in ('Add', 'Sub', 'Mul', 'AddUnchecked', 'SubUnchecked'):
            r, o = self.arith(st, op[:3], a, b)
            return r
        if op in ('Eq', 'Ne'):
            if isinstance(a, bool) or isinstance(b, bool):
                r = self.eq_val(st, a, b)
            elif is_int(a) or is_int(b) or is_opaque(a) or is_opaque(b):
                r = self.eq_val(st, a, b)
            else:
                r = self.eq_val(st, a, b)
            return r if op == 'Eq' else not r
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if isinstance(a, bool):
                a = num(int(a))
            if isinstance(b, bool):
                b = num(int(b))
            if op == 'Lt':
                return self.ge0(st, sub(sub(b, a), num(1)))
            if op == 'Le':
                return self.ge0(st, sub(b, a))
            if op == 'Gt':
                return self.ge0(st, sub(sub(a, b), num(1)))
            return self.ge0(st, sub(a, b))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            a = a if isinstance(a, bool) else self.pred(st, a) if is_opaque(a) and not is_int(a) else a
            b = b if isinstance(b, bool) else self.pred(st, b) if is_opaque(b) and not is_int(b) else b
            if isinstance(a, bool) and isinstance(b, bool):
                return {'BitAnd': a and b, 'BitOr': a or b, 'BitXor': a != b}[op]
            return ('#' + op, a, b)
        if op in ('Div', 'Rem', 'Shl', 'Shr'):
            ca, cb = const(a), const(b)
            if ca is not None and cb is not None and cb:
                return num({'Div': ca // cb, 'Rem': ca % cb, 'Shl': ca << cb, 'Shr': ca >> cb}[op])
            return ('#' + op, a, b)
        if op == 'Cmp':
            return self.cmp_int(st, a, b)
        raise Unknown('binop %s' % op)

    def too_large(self, st, v, limit=1 << 64):
        """may the count v, that a client's number went into, be limit or more?  Client numbers are
        anything a machine word holds; lengths and indices are far below that."""
        c, t = lin.parts(v)
        if c < limit - (1 << 62) and not any(k > 0 and s in CLIENT for s, k in t):
            return False
        if not t:
            return c >= limit
        over = sub(v, num(limit))
        facts = lin.relevant(st.lin, over) + [over]
        for s in set(s for f in facts for s in lin.syms(f)):
            facts.append(sub(num((1 << 64) - 1 if s in CLIENT else 1 << 62), s))
        if lin.infeasible(facts):
            return False
        return self.pred(st, ('#huge', v, num(limit)))

    def arith(self, st, op, a, b):
        if op == 'Add':
            r = add(a, b)
            return r, self.too_large(st, r)
        if op == 'Sub':
            d = sub(a, b)
            return d, not self.ge0(st, d)
        ca, cb = const(a), const(b)
        if ca is not None or cb is not None:
            r = lin.scale(b, ca) if ca is not None else lin.scale(a, cb)
            return r, self.too_large(st, r)
        return ('#mul', a, b), False

    def cmp_int(self, st, a, b):
        d = sub(a, b)
        if not self.ge0(st, d):
            return LESS
        if self.ge0(st, lin.scale(d, -1)):
            return EQUAL
        return GREATER

    # ------------------------------------------------------------ calls
    def push(self, st, body, args, dest, target, env=None):
        if len(st.frames) > 60:
            raise Unknown('call depth')
        f = Frame(body, env or {}, dest, target)
        for i, a in enumerate(args):
            f.locals[i + 1] = a
        if body['crate'] == OWN:
            self.regress(st, f, args)
        st.frames.append(f)
        self.stats['functions'].add(body['key'])

    def seen_locals(self, st, args):
        """the values of the locals that arguments refer to, directly or not"""
        out = {}
        todo = list(args)
        while todo:
            v = todo.pop()
            if not isinstance(v, tuple) or not v or v[0] == 'i':
                continue
            if v[0] == 'r' and isinstance(v[1], tuple) and v[1][0] == 'L':
                k = v[1]
                if k not in out and k[1] < len(st.frames):
                    out[k] = st.frames[k[1]].locals.get(k[2])
                    todo.append(out[k])
                todo.extend(v[2])
                continue
            if v[0] in ('rc', 'weak', 'cell', 'guard') or v[0] == 'H':
                h = v[1]
                if isinstance(h, int) and ('h', h) not in out and h in st.heap:
                    out[('h', h)] = st.heap[h]
                    todo.append(st.heap[h])
                todo.extend(v[2:])
                continue
            todo.extend(v)
        return out

    def regress(self, st, f, args):
        """a call of a function that is already running, with nothing changed, never ends"""
        ghost = {k: v for k, v in st.ghost.items() if k not in ('lp', 'tr')}
        f.entry = tuple(args), self.seen_locals(st, list(args) + list(ghost.values())), ghost
        for g in st.frames:
            if g.body is f.body and g.entry is not None and g.env == f.env and g.entry == f.entry:
                self.cfg.on_stuck(self, st, f, None)

    def push_body(self, st, key, args, dest, target, types=None):
        body = self.prog.bodies[key]
        env = {}
        if types is not None:
            for g, t in zip(body['tgen'], types):
                env[g] = t
        self.push(st, body, args, dest, target, env)

    def call_value(self, st, f, args, dest, target):
        """call a callable value with a list of arguments; returns a value or raises Pushed"""
        f = self.resolve(st, f)
        while True:
            if f[0] == 'r':
                g = self.read(st, f[1], f[2])
                if g[0] == 'c':
                    return self.call_closure(st, f, g, args, dest, target)
                f = g
            elif f[0] == 'box':
                f = self.resolve(st, f[1])
            elif f[0] == 'rc':
                f = self.resolve(st, st.heap[f[1]])
            else:
                break
        if f[0] == 'c':
            return self.call_closure(st, f, f, args, dest, target)
        if f[0] == 'fn':
            return self.call_fn(st, self.fninfo[f[1]], args, dest, target)
        if is_opaque(f):
            return self.cfg.callback_to(self, st, f, args, dest, target)
        raise Unknown('call of ' + show(f))

    def call_closure(self, st, holder, c, args, dest, target):
        body = self.prog.bodies[c[1]]
        t = self.prog.types[body['locals'][1]]
        if t['k'] == 'ref':
            if holder[0] != 'r':
                if t['m']:
                    holder = ('r', ('H', st.alloc(c)), ())
                else:
                    holder = vref(c)
            elif not t['m'] and holder[1][0] != 'V':
                holder = vref(c)
            a0 = holder
        else:
            a0 = c
        # args is the already untupled list
        if body['argc'] != 1 + len(args):
            raise Unknown('closure arity')
        self.push(st, body, [a0] + list(args), dest, target, {})
        raise Pushed()

    def strip(self, st, v):
        v = self.resolve(st, v)
        while not isinstance(v, bool) and v[0] in ('r', 'box'):
            v = self.read(st, v[1], v[2]) if v[0] == 'r' else self.resolve(st, v[1])
        return v

    def call_fn(self, st, info, args, dest, target):
        d, name, trait = info['d'], info['name'], info.get('trait')
        self.stats['calls'] += 1
        cfg = self.cfg
        h = cfg.hooks.get(d)
        if h is not None:
            r = h(self, st, info, args, dest, target)
            if r is not NotImplemented:
                return r
        if 'ctor' in info:
            return ('a', info['ctor'][0], info['ctor'][1], tuple(args))
        if trait:
            r = self.call_trait(st, info, args, dest, target)
            if r is not NotImplemented:
                return r
            raise Unknown('trait call %s on %s' % (info['path'], show(self.strip(st, args[0])) if args else ''))
        if d in self.prog.bodies:
            self.push_body(st, d, args, dest, target, info['types'])
            raise Pushed()
        nm = norm_name(self, info)
        for n in nm:
            h = self.natives.get(n)
            if h is not None:
                return h(self, st, info, args, dest, target)
        for n in nm:
            k = 'shims::' + n
            if k in self.prog.bodies:
                self.push_body(st, k, args, dest, target)
                raise Pushed()
        if not info['d'].startswith(tuple(self.local_crates())) and name in ('fmt', 'new_v1', 'new_display', 'write_fmt', 'new_debug', 'format', 'from_str', 'new_const', 'new'):
            if 'fmt' in d:
                return ('fmt', name) + tuple(args)
        raise Unknown('call of %s (%s)' % (info['path'], '/'.join(nm)))

    def local_crates(self):
        return ['parse_proof_of_concept', 'shims']

    def call_trait(self, st, info, args, dest, target):
        d, name, trait = info['d'], info['name'], info['trait']
        tn = self.trait_natives.get(d) or self.trait_natives.get(trait)
        short = d.split('::')[-2] + '::' + name
        # 1. dispatch on the self value when it is a known type with an impl
        if args:
            v = self.strip(st, args[0])
            key = v[1] if not isinstance(v, bool) and v[0] == 'a' else None
            if key is not None:
                ks = self.prog.find_impl(trait, name, key)
                if len(ks) > 1:
                    res = info.get('res')
                    ks = [res] if res in ks else ks
                if len(ks) == 1:
                    a0 = self.self_arg(st, args[0], self.prog.bodies[ks[0]])
                    if trait.startswith('core::') and name in ('eq', 'ne') and len(args) == 2:
                        args = [a0, self.self_arg(st, args[1], self.prog.bodies[ks[0]], 2)]
                    self.push(st, self.prog.bodies[ks[0]], [a0] + list(args[1:]), dest, target, self.unify_env(ks[0], info))
                    raise Pushed()
                if len(ks) > 1:
                    raise Unknown('ambiguous impl of %s for %s' % (d, key))
                if trait in self.prog.traits:
                    dk = self.prog.trait_default.get((trait, name))
                    if dk and self.prog.has_impl(trait, key):
                        self.push_body(st, dk, args, dest, target, info['types'])
                        raise Pushed()
        if tn is not None:
            r = tn(self, st, info, args, dest, target)
            if r is not NotImplemented:
                return r
        # 2. statically resolved local impl
        res = info.get('res')
        if res and res in self.prog.bodies and res != d:
            self.push_body(st, res, args, dest, target, info.get('res_types'))
            raise Pushed()
        r = self.cfg.trait_call(self, st, info, args, dest, target)
        if r is not NotImplemented:
            return r
        # 3. provided method of a local trait on an opaque value
        dk = self.prog.trait_default.get((trait, name))
        if dk:
            self.push_body(st, dk, args, dest, target, info['types'])
            raise Pushed()
        # 4. provided methods of std traits
        nm = TRAIT_SHORT.get(trait)
        if nm:
            n = nm + '_' + name
            h = self.natives.get(n)
            if h is not None:
                return h(self, st, info, args, dest, target)
            k = 'shims::' + n
            if k in self.prog.bodies:
                self.push_body(st, k, args, dest, target)
                raise Pushed()
        return NotImplemented

    def unify_env(self, key, info):
        return {}

    def self_arg(self, st, a, body, n=1):
        """adjust the self argument to the reference-ness the body expects"""
        t = self.prog.types[body['locals'][n]]
        a = self.resolve(st, a)
        if t['k'] == 'ref':
            # peel until exactly one reference level
            while a[0] == 'r':
                v = self.read(st, a[1], a[2])
                if not isinstance(v, bool) and v[0] == 'r':
                    a = v
                elif not isinstance(v, bool) and v[0] == 'box':
                    a = ('r', a[1], a[2] + (('b',),)) if a[1][0] != 'V' else vref(self.resolve(st, v[1]))
                else:
                    return a
            if a[0] == 'box':
                return vref(self.resolve(st, a[1]))
            if t['m']:
                return ('r', ('H', st.alloc(a)), ())
            return vref(a)
        while not isinstance(a, bool) and a[0] in ('r', 'box'):
            a = self.read(st, a[1], a[2]) if a[0] == 'r' else self.resolve(st, a[1])
        return a

    # -------------------------------------------------------- main loop
    def goto(self, st, fr, src, dst):
        fr.blk = dst
        fr.idx = 0
        b = fr.body
        if dst in b['heads']:
            if (src, dst) in b['back']:
                n = fr.loops.get(dst, 0) + 1
                fr.loops[dst] = n
                self.cfg.at_loop(self, st, fr, dst)
                self.stuck(st, fr, dst)
                if n > self.cfg.round_limit and st.trail is fr.loops.get(('t', dst)) and not st.widened:
                    self.cfg.on_stuck(self, st, fr, dst, self.cfg.round_limit)
                if n > self.delay:
                    import loops
                    st = loops.at_head(self, st, fr, dst)
                    if st is not None and st.frames:
                        st.frames[-1].loops[('sig', dst)] = self.signature(st)
                    return st
                fr.loops[('sig', dst)] = self.signature(st)
            else:
                fr.loops[dst] = 0
                fr.loops[('sig', dst)] = self.signature(st)
                fr.loops[('b', dst)] = len(st.events)
                fr.loops[('t', dst)] = st.trail
                self.cfg.enter_loop(self, st, fr, dst)
        return st

    def stuck(self, st, fr, dst):
        """a loop that comes back to where it was with nothing changed never ends"""
        old = fr.loops.get(('sig', dst))
        if old is not None and old == self.signature(st):
            self.cfg.on_stuck(self, st, fr, dst)

    def signature(self, st):
        """everything a loop of the library can depend on"""
        if st.frames[-1].body['crate'] == 'shims':
            return None
        import loops
        return loops.signature(st)

    def finish_call(self, st, dest, target, value):
        """store the result of a call in the current frame"""
        if target is None:
            raise Infeasible()
        fr = st.frames[-1]
        self.write(st, dest[0], dest[1], value)
        return self.goto(st, fr, fr.blk, target)

    def step_block(self, st):
        """run one basic block from the current point; returns a list of successor states"""
        fr = st.frames[-1]
        blk = fr.body['blocks'][fr.blk]
        ss = blk['s']
        while fr.idx < len(ss):
            self.stmt(st, fr, ss[fr.idx])
            fr.idx += 1
            st.steps += 1
        t = blk['t']
        k = t[0]
        self.stats['steps'] += 1 + len(ss)
        if k == 'goto':
            return self.one(self.goto(st, fr, fr.blk, t[1]))
        if k == 'return':
            return self.do_return(st, fr)
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            tgt = None
            if isinstance(v, bool):
                v = num(int(v))
            elif is_opaque(v) and not is_int(v):
                ty = self.ty(fr, t[4])
                if ty['k'] == 'bool':
                    v = num(int(self.pred(st, v)))
            c = const(v)
            if c is not None:
                for val, b in t[2]:
                    if val == c:
                        tgt = b
                        break
                else:
                    tgt = t[3]
            else:
                for val, b in t[2]:
                    if self.eq_int(st, v, num(val)):
                        tgt = b
                        break
                else:
                    tgt = t[3]
            if t[1][0] == 'm' and not t[1][1][1]:
                fr.locals.pop(t[1][1][0], None)
            return self.one(self.goto(st, fr, fr.blk, tgt))
        if k == 'drop':
            if self.track_drops:
                base, path = self.place(st, fr, t[1])
                try:
                    v = self.read(st, base, path)
                except Unknown:
                    v = None
                if v is not None:
                    self.drop_value(st, v)
            if not t[1][1]:
                fr.locals.pop(t[1][0], None)
            return self.one(self.goto(st, fr, fr.blk, t[2]))
        if k == 'assert':
            c = self.operand(st, fr, t[1])
            if not isinstance(c, bool):
                c = self.pred(st, c)
            if c == t[2]:
                return self.one(self.goto(st, fr, fr.blk, t[4]))
            raise Panic('assert %s' % (t[3][0] if isinstance(t[3], list) else t[3]))
        if k == 'call':
            return self.do_call(st, fr, t)
        if k == 'unreachable':
            raise Infeasible()
        raise Unknown('terminator %s' % k)

    def one(self, st):
        return [] if st is None else [st]

    def do_call(self, st, fr, t):
        f = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, a) for a in t[2]]
        dest = self.place(st, fr, t[3]) if t[4] is not None else None
        depth = len(st.frames)
        try:
            v = self.call_value_raw(st, f, args, dest, t[4])
        except Pushed:
            self.consume_args(fr, t)
            return [st]
        if isinstance(v, list):   # explicit list of (state, value)
            out = []
            for s2, val in v:
                f2 = s2.frames[-1]
                self.consume_args(f2, t)
                r = self.finish_call(s2, dest, t[4], val)
                if r is not None:
                    out.append(r)
            return out
        self.consume_args(fr, t)
        return self.one(self.finish_call(st, dest, t[4], v))

    def consume_args(self, fr, t):
        for o in t[2]:
            if o[0] == 'm' and not o[1][1]:
                fr.locals.pop(o[1][0], None)

    def call_value_raw(self, st, f, args, dest, target):
        if f[0] == 'fn':
            return self.call_fn(st, self.fninfo[f[1]], args, dest, target)
        return self.call_value(st, f, args, dest, target)

    def do_return(self, st, fr):
        v = fr.locals.get(0, UNIT)
        v = self.resolve(st, v)
        depth = len(st.frames) - 1
        v = self.unlocal(st, v, depth)
        if len(st.frames) == 1:
            st.ret = v
            return self.finished(st)
        st.frames.pop()
        try:
            return self.one(self.finish_call(st, fr.dest, fr.target, v))
        except Split:
            raise Unknown('split while returning')

    def unlocal(self, st, v, depth):
        return v

    def finished(self, st):
        self.stats['paths'] += 1
        nxt = self.cfg.on_return(self, st)
        return nxt or []

    def drop_value(self, st, v):
        if isinstance(v, bool):
            return
        k = v[0]
        if k == 'rc':
            s, w = st.rc.get(v[1], (1, 0))
            st.rc[v[1]] = (s - 1, w)
            if s - 1 == 0 and v[1] in st.heap:
                self.drop_value(st, st.heap[v[1]])
        elif k == 'weak':
            s, w = st.rc.get(v[1], (1, 0))
            st.rc[v[1]] = (s, w - 1)
        elif k == 'guard':
            _, h, m = v
            val, n = st.heap[h][1]
            st.heap[h] = ('t', (val, num(0) if m else add(n, num(-1))))
        elif k == 'a':
            if v[1] == '#it' and v[3][0]:
                return           # iterates over references
            for x in v[3]:
                self.drop_value(st, x)
        elif k == 't':
            for x in v[1]:
                self.drop_value(st, x)
        elif k == 'c':
            for x in v[2]:
                self.drop_value(st, x)
        elif k == 'box':
            self.drop_value(st, v[1])
        elif k == 'l':
            for s in v[1]:
                if s[0] == 'e':
                    self.drop_value(st, s[1])

    def loc(self, st):
        if not st.frames:
            return ''
        for fr in reversed(st.frames):
            if fr.body['crate'] != 'shims':
                blk = fr.body['blocks'][fr.blk]
                l = blk['l']
                if fr.idx < len(blk['s']) and blk['s'][fr.idx][0] == '=':
                    l = blk['s'][fr.idx][3]
                return '%s in %s' % (l, fr.body['path'])
        return st.frames[0].body['key']

    def run(self, st):
        work = [st]
        n = 0
        while work:
            st = work.pop()
            n += 1
            if n > self.max_states:
                raise Unknown('state limit')
            try:
                work.extend(self.step_block(st))
            except Split as sp:
                self.stats['splits'] += 1
                where = self.loc(st)
                for desc, f in reversed(sp.alts):
                    s2 = st.copy()
                    if f(s2):
                        s2.note((where, desc))
                        work.append(s2)
            except Infeasible:
                pass
            except Unknown as u:
                self.unknowns.append((str(u), self.loc(st)))
                if len(self.unknowns) > 50:
                    raise
            except Panic as p:
                self.stats['panics'] += 1
                while True:
                    try:
                        self.cfg.on_panic(self, st, p.msg)
                        break
                    except Split as sp:
                        raise Unknown('split in panic handler')


TRAIT_SHORT = {
    'core::iter::traits::iterator::Iterator': 'iter',
    'core::iter::traits::double_ended::DoubleEndedIterator': 'iter',
    'core::iter::traits::exact_size::ExactSizeIterator': 'iter',
    'core::slice::Join': 'slice',
}

ADT_SHORT = {
    'core::option::Option': 'option', 'core::result::Result': 'result', 'alloc::vec::Vec': 'vec',
    'core::cmp::Ordering': 'ordering', 'alloc::boxed::Box': 'box', 'alloc::rc::Rc': 'rc', 'alloc::rc::Weak': 'weak',
    'core::cell::RefCell': 'refcell', 'alloc::string::String': 'string',
    'core::iter::adapters::peekable::Peekable': 'peekable',
}


def norm_name(eng, info):
    """candidate short names `<type>_<method>` of a std function"""
    name = info['name']
    out = []
    t = info.get('self_t')
    if t is not None:
        if t['k'] == 'adt':
            s = ADT_SHORT.get(t['d']) or t['d'].split('::')[-1].lower()
            out.append(s + '_' + name)
            if s in ('vec', 'vecdeque'):
                out.append('vec_' + name)
                out.append('slice_' + name)
        elif t['k'] in ('slice', 'array'):
            out.append('slice_' + name)
            out.append('vec_' + name)
        elif t['k'] in ('uint', 'int'):
            out.append('int_' + name)
        elif t['k'] in ('str', 'bool', 'char'):
            out.append(t['k'] + '_' + name)
    segs = info['path'].split('::')
    mod = [s for s in segs[:-1] if not s.startswith('<')]
    if mod:
        out.append(mod[-1] + '_' + name)
        out.append(info['d'].split('::')[-2] + '_' + name)
    return out


def show(v, d=0):
    if isinstance(v, bool) or not isinstance(v, tuple):
        return str(v)
    if not v:
        return '()'
    k = v[0]
    if d > 7:
        return '..'
    if k == 'i':
        ps = []
        for s, c in v[2]:
            x = show(s, d + 1)
            ps.append(('+' if c > 0 else '-') + ('' if abs(c) == 1 else str(abs(c)) + '*') + x)
        r = ''.join(ps)
        if v[1] or not r:
            r += ('+' if v[1] >= 0 and r else '') + str(v[1])
        return r.lstrip('+')
    if k == 'a':
        from_ = v[1].split('::')[-1]
        return '%s#%d(%s)' % (from_, v[2], ', '.join(show(x, d + 1) for x in v[3]))
    if k == 't':
        return '(%s)' % ', '.join(show(x, d + 1) for x in v[1])
    if k == 'c':
        return 'closure<%s>' % v[1].split('::', 1)[-1]
    if k == 'r':
        if v[1][0] == 'V':
            return '&' + show(v[1][1], d + 1)
        return '&mut %s%s' % (v[1][0], v[1][1:])
    if k == 'l':
        return '[%s]' % ', '.join(show(s[1], d + 1) if s[0] == 'e' else '%s[%s..%s]' % (show(s[1], d + 1), show(s[2], d + 1), show(s[3], d + 1)) for s in v[1])
    if k == 'str':
        return repr(v[1])
    if not isinstance(k, str):
        return '(%s)' % ', '.join(show(x, d + 1) for x in v)
    if len(v) == 1:
        return k.lstrip('#')
    return '%s(%s)' % (k.lstrip('#'), ', '.join(show(x, d + 1) for x in v[1:]))
