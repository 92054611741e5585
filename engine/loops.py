"""Loop-head fixpoints: anti-unification of abstract states (widening) and the instance
check that ends the iteration.

A stored entry is an abstract state whose '#phi'/'phi'/'phiS' symbols stand for arbitrary
integers / values / sequences.  A new arrival that is an instance of an entry is covered;
otherwise the entry is replaced by the least general generalisation of both (or, when
the two differ in shape - other variant, other flag - a separate entry is opened)."""
import lin
from lin import num, add, sub, const
from interp import is_opaque, is_int, list_len, mk_list, Unknown, show, subst_term

COARSE_AFTER = 8
MAX_ENTRIES = 60


LOOP = ('loop',)


class NoJoin(Exception):
    pass


# ------------------------------------------------------------------ liveness
def liveness(body):
    """block -> set of live locals at entry (locals that are never borrowed)"""
    if 'live' in body:
        return body['live']
    borrowed = set()
    gen, kill, suc = [], [], []
    from model import succs

    def uses_place(p, out):
        out.add(p[0])
        for e in p[1]:
            if e[0] == 'i':
                out.add(e[1])

    def op(o, out):
        if o[0] in ('c', 'm'):
            uses_place(o[1], out)

    for b in body['blocks']:
        g, k = set(), set()

        def use(s):
            for x in s:
                if x not in k:
                    g.add(x)
        for s in b['s']:
            if s[0] == '=':
                u = set()
                rv = s[2]
                if rv[0] == 'ref':
                    if not any(e[0] == '*' for e in rv[2][1]):
                        borrowed.add(rv[2][0])
                    uses_place(rv[2], u)
                elif rv[0] in ('discr', 'len'):
                    uses_place(rv[1], u)
                elif rv[0] in ('use', 'repeat'):
                    op(rv[1], u)
                elif rv[0] in ('cast', 'un'):
                    op(rv[2], u)
                elif rv[0] == 'bin':
                    op(rv[2], u)
                    op(rv[3], u)
                elif rv[0] == 'agg':
                    for o in rv[2]:
                        op(o, u)
                else:
                    u |= set(range(len(body['locals'])))
                if s[1][1]:
                    uses_place(s[1], u)
                use(u)
                if not s[1][1]:
                    k.add(s[1][0])
            elif s[0] == 'dead':
                k.add(s[1])
            elif s[0] == 'sd':
                u = set()
                uses_place(s[1], u)
                use(u)
        t = b['t']
        u = set()
        if t[0] == 'switch':
            op(t[1], u)
        elif t[0] == 'drop':
            uses_place(t[1], u)
        elif t[0] == 'assert':
            op(t[1], u)
        elif t[0] == 'call':
            op(t[1], u)
            for o in t[2]:
                op(o, u)
            if t[3][1]:
                uses_place(t[3], u)
        elif t[0] == 'return':
            u.add(0)
        use(u)
        if t[0] == 'call' and not t[3][1]:
            k.add(t[3][0])
        gen.append(g)
        kill.append(k)
        suc.append(succs(t))
    live = [set(g) for g in gen]
    changed = True
    while changed:
        changed = False
        for i in range(len(live) - 1, -1, -1):
            o = set()
            for s in suc[i]:
                o |= live[s]
            n = gen[i] | (o - kill[i])
            if n != live[i]:
                live[i] = n
                changed = True
    body['live'] = (live, borrowed)
    return body['live']


def live_after_call(body, blk):
    """locals live in a caller frame suspended in the call that ends block blk"""
    live, borrowed = liveness(body)
    t = body['blocks'][blk]['t']
    out = set(live[t[4]]) if t[0] == 'call' and t[4] is not None else set()
    if t[0] == 'call' and t[3][1]:
        out.add(t[3][0])
    return out, borrowed


def prune_dead(st):
    for i, fr in enumerate(st.frames):
        body = fr.body
        if i == len(st.frames) - 1:
            live, borrowed = liveness(body)
            l = live[fr.blk]
        else:
            l, borrowed = live_after_call(body, fr.blk)
        for x in list(fr.locals):
            if x not in l and x not in borrowed:
                del fr.locals[x]


def signature(st):
    """the live part of a state"""
    frames = []
    for i, fr in enumerate(st.frames):
        if i == len(st.frames) - 1:
            live, borrowed = liveness(fr.body)
            l = live[fr.blk]
        else:
            l, borrowed = live_after_call(fr.body, fr.blk)
        frames.append({x: v for x, v in fr.locals.items() if x in l or x in borrowed})
    ghost = {k: v for k, v in st.ghost.items() if k not in ('lp', 'tr')}
    heap = {}
    todo = [frames, list(ghost.values())]
    while todo:
        v = todo.pop()
        if isinstance(v, dict):
            todo.extend(v.values())
        elif isinstance(v, (list, tuple)) and v:
            if v[0] in ('rc', 'weak', 'cell', 'guard', 'H') and len(v) > 1 and isinstance(v[1], int):
                if v[1] in st.heap and v[1] not in heap:
                    heap[v[1]] = st.heap[v[1]]
                    todo.append(st.heap[v[1]])
            elif v[0] != 'i':
                todo.extend(x for x in v if isinstance(x, (tuple, list, dict)))
    return frames, heap, ghost


# ----------------------------------------------------- canonical heap names
def canon_heap(st):
    """drop unreachable heap cells and renumber the others in traversal order"""
    order = {0: 0} if 0 in st.heap else {}
    todo = []

    def visit(v):
        if not isinstance(v, tuple) or not v:
            return
        k = v[0]
        if k in ('rc', 'weak', 'cell', 'guard') or k == 'H':
            h = v[1]
            if isinstance(h, int) and h not in order and h in st.heap:
                order[h] = len(order)
                todo.append(h)
            return
        if k == 'i':
            return
        for x in v:
            if isinstance(x, tuple):
                visit(x)
    for fr in st.frames:
        for x in sorted(fr.locals):
            visit(fr.locals[x])
        if fr.dest:
            visit(fr.dest)
    for k in sorted(st.ghost):
        visit(st.ghost[k])
    if 0 in st.heap:
        visit(st.heap[0])
    n = 0
    while n < len(todo):
        visit(st.heap[todo[n]])
        n += 1
    if all(a == b for a, b in order.items()) and len(order) == len(st.heap):
        st.fresh = max(order.values(), default=-1) + 1
        return

    memo = {}

    def ren(v):
        if not isinstance(v, tuple) or not v:
            return v
        r = memo.get(v)
        if r is not None:
            return r
        k = v[0]
        if (k in ('rc', 'weak', 'cell', 'guard') or k == 'H') and isinstance(v[1], int):
            r = (k, order.get(v[1], -1)) + v[2:]
        else:
            r = tuple(ren(x) if isinstance(x, tuple) else x for x in v)
        memo[v] = r
        return r
    for fr in st.frames:
        fr.locals = {x: ren(v) for x, v in fr.locals.items()}
        if fr.dest:
            fr.dest = ren(fr.dest)
    st.ghost = {k: ren(v) for k, v in st.ghost.items()}
    st.heap = {order[h]: ren(st.heap[h]) for h in order}
    st.rc = {order[h]: c for h, c in st.rc.items() if h in order}
    st.fresh = len(order)


# ------------------------------------------------------------ substitution
def subst(v, m):
    """replace symbols by the mapping m (keys are symbol tuples)"""
    if not isinstance(v, tuple) or not v:
        return v
    r = m.get(v)
    if r is not None:
        return r
    if v[0] == 'i':
        r = num(v[1])
        for s, k in v[2]:
            r = add(r, subst(s, m), k)
        return r
    if v[0] == 'l':
        segs = []
        for s in v[1]:
            if s[0] == 'x' and isinstance(s[1], tuple) and s[1] in m:
                L = m[s[1]]
                segs.extend(L[1])
            else:
                segs.append(subst(s, m))
        return mk_list(segs)
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in v)


def has_phi(v):
    if not isinstance(v, tuple):
        return False
    if v and v[0] in ('#phi', 'phi', 'phiS'):
        return True
    return any(has_phi(x) for x in v if isinstance(x, tuple))


def items_of(v, out):
    if isinstance(v, tuple) and v:
        if v[0] == 'el' and len(v) == 3:
            out[(v[1], v[2])] = True
        else:
            for x in v:
                items_of(x, out)


def summarise(l):
    """single items that are (a function of) an item of an unknown sequence, as ranges"""
    if not any(s[0] == 'e' for s in l[1]):
        return l
    out = []
    for s in l[1]:
        if s[0] == 'e' and isinstance(s[1], tuple):
            if s[1][0] == 'el' and len(s[1]) == 3:
                s = ('x', s[1][1], s[1][2], add(s[1][2], num(1)))
            else:
                o = {}
                items_of(s[1], o)
                if len(o) == 1:
                    (S, i), = o
                    s = ('x', ('tmpl', subst_term(s[1], ('el', S, i), ('el', S, ('#k',)))), i, add(i, num(1)))
        out.append(s)
    return mk_list(out)


# ------------------------------------------------------- anti-unification
class Lgg:
    def __init__(self, eng, ea, eb, coarse=False):
        self.eng = eng
        self.a, self.b = ea, eb
        self.coarse = coarse      # relate integers by constant distances only
        self.pairs = {}      # (a, b) -> symbol
        self.ints = []       # [(a, b, phi)]
        self.ma, self.mb = {}, {}
        self.frozen = False

    def fresh(self, tag):
        if self.frozen:
            raise NoJoin()
        self.eng.phi += 1
        return (tag, self.eng.phi)

    def gint(self, a, b):
        if a == b:
            return a
        for x, y, p in self.ints:
            d = sub(a, x)
            if d == sub(b, y) and not (self.coarse and any(k[0] == '#phi' for k in lin.syms(d))):
                return add(p, d)
            if self.coarse:
                continue
            s = add(a, x)
            if const(sub(a, b)) is not None and s == add(b, y):
                return sub(s, p)
        if a[0] != 'i' and b[0] != 'i' and a[0] == b[0] and len(a) == len(b) and len(a) > 1 and a[0] != '#phi':
            return tuple([a[0]] + [self.g(x, y) for x, y in zip(a[1:], b[1:])])
        p = self.fresh('#phi')
        self.ints.append((a, b, p))
        self.ma[p] = a
        self.mb[p] = b
        return p

    def g(self, a, b):
        if a == b:
            return a
        if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, tuple) or not isinstance(b, tuple):
            raise NoJoin()
        if a and b and isinstance(a[0], str) and isinstance(b[0], str):
            if is_int(a) and is_int(b):
                return self.gint(a, b)
            if a[0] == 'l' and b[0] == 'l':
                return self.glist(a, b)
            oa, ob = is_opaque(a), is_opaque(b)
            if oa and ob and not is_int(a) and not is_int(b):
                if a[0] == b[0] and len(a) == len(b) and len(a) > 1 and a[0] not in ('phi', 'phiS') and a[0] not in self.eng.cfg.rigid:
                    return tuple([a[0]] + [self.g(x, y) for x, y in zip(a[1:], b[1:])])
                if a[0] in self.eng.cfg.rigid or b[0] in self.eng.cfg.rigid:
                    if a[0] == b[0] and len(a) == len(b):
                        return tuple([a[0]] + [self.g(x, y) for x, y in zip(a[1:], b[1:])])
                    raise NoJoin()
                k = (a, b)
                p = self.pairs.get(k)
                if p is None:
                    p = self.fresh('phi')
                    self.pairs[k] = p
                    self.ma[p] = a
                    self.mb[p] = b
                return p
            if oa != ob:
                raise NoJoin()
        if len(a) != len(b):
            raise NoJoin()
        if a and isinstance(a[0], str) and a[0] != b[0]:
            raise NoJoin()
        return tuple(self.g(x, y) for x, y in zip(a, b))

    def glist(self, a, b):
        k = (a, b)
        r = self.pairs.get(k)
        if r is not None:
            return r
        if len(a[1]) == len(b[1]) and [s[0] for s in a[1]] == [s[0] for s in b[1]] and not self.eng.cfg.is_accum(a, b):
            save = (dict(self.pairs), list(self.ints), dict(self.ma), dict(self.mb))
            try:
                out = []
                for x, y in zip(a[1], b[1]):
                    if x[0] == 'e':
                        out.append(('e', self.g(x[1], y[1])))
                    else:
                        if x[1] != y[1] and ('phiS' in (x[1][0], y[1][0])):
                            raise NoJoin()
                        out.append(('x', self.g(x[1], y[1]), self.g(x[2], y[2]), self.g(x[3], y[3])))
                return ('l', tuple(out))
            except NoJoin:
                self.pairs, self.ints, self.ma, self.mb = save
        sa, sb = summarise(a), summarise(b)
        if (sa != a or sb != b) and len(sa[1]) == len(sb[1]) and all(
                x[0] == y[0] and (x[0] == 'e' or x[1] == y[1] and x[2] == y[2]) for x, y in zip(sa[1], sb[1])):
            save = (dict(self.pairs), list(self.ints), dict(self.ma), dict(self.mb))
            try:
                out = []
                for x, y in zip(sa[1], sb[1]):
                    if x[0] == 'e':
                        out.append(('e', self.g(x[1], y[1])))
                    else:
                        out.append(('x', x[1], x[2], self.g(x[3], y[3])))
                return ('l', tuple(out))
            except NoJoin:
                self.pairs, self.ints, self.ma, self.mb = save
        if self.frozen:
            raise NoJoin()
        n = self.gint(list_len(a), list_len(b))
        S = self.fresh('phiS')
        r = ('l', (('x', S, num(0), n),))
        self.pairs[k] = r
        self.ma[S] = a
        self.mb[S] = b
        return r


def is_static(v, params):
    """a term that does not depend on anything a loop can change"""
    if not isinstance(v, tuple) or not v:
        return True
    if v[0] in ('#phi', 'phi', 'phiS', 'el', 'tok'):
        return False
    if isinstance(v[0], str) and v[0][:1] == '#' or v[0] == 'i':
        if v[0] == 'i':
            return all(is_static(s, params) for s, _ in v[2])
        return v in params
    return all(is_static(x, params) for x in v if isinstance(x, tuple))


def partition(eng, st):
    params = eng.cfg.part
    ps = frozenset((a, t) for a, t in st.preds.items() if is_static(a, params))
    ms = frozenset((a, m) for a, m in st.mat.items() if is_static(a, params))
    fs = frozenset(f for f in st.lin if all(s in params for s in lin.syms(f)))
    gs = eng.cfg.ghost_key(st) if hasattr(eng.cfg, 'ghost_key') else None
    return ps, ms, fs, gs


def int_syms(v, out):
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == 'i':
        for s, _ in v[2]:
            out[s] = True
        return
    if isinstance(v[0], str) and v[0][:1] == '#':
        out[v] = True
    for x in v:
        if isinstance(x, tuple):
            int_syms(x, out)


def int_forms(v, out, lists):
    """integer forms occurring in a value, and the bounds of its list segments"""
    if not isinstance(v, tuple) or not v:
        return
    if v[0] == 'i' or isinstance(v[0], str) and v[0][:1] == '#':
        if const(v) is None:
            out[v] = True
        if v[0] == 'i':
            return
    if v[0] == 'x' and len(v) == 4:
        lists[(v[2], v[3])] = True
    for x in v:
        if isinstance(x, tuple):
            int_forms(x, out, lists)


def generalise(eng, e, s, coarse=False):
    """least general generalisation of two states at the same loop head"""
    L = Lgg(eng, e, s, coarse)
    g = s.copy()
    order = list(range(len(e.frames)))
    # positions first: everything else is expressed relative to them
    g.ghost = {}
    keys = set(e.ghost) | set(s.ghost)
    special = ('kinds', 'rng')
    for k in ['pos'] + sorted(keys - {'pos'} - set(special)):
        if (k in e.ghost) != (k in s.ghost):
            raise NoJoin()
        if k in e.ghost:
            g.ghost[k] = L.g(e.ghost[k], s.ghost[k])
    for i in order:
        fa, fb = e.frames[i], s.frames[i]
        if fa.locals.keys() != fb.locals.keys():
            raise NoJoin()
        g.frames[i].locals = {x: L.g(fa.locals[x], fb.locals[x]) for x in sorted(fa.locals)}
        if fa.dest != fb.dest:
            raise NoJoin()
    if e.heap.keys() != s.heap.keys():
        raise NoJoin()
    g.heap = {h: L.g(e.heap[h], s.heap[h]) for h in sorted(e.heap)}
    if e.rc != s.rc or len(e.events) != len(s.events):
        raise NoJoin()
    g.events = tuple(L.g(x, y) for x, y in zip(e.events, s.events))
    # facts: only over what is already named
    L.frozen = True

    def common(xs, ys, key):
        """generalise the pairs of matching facts"""
        out = {}
        for a, t in xs:
            for b, t2 in ys:
                if t != t2 or key(a) != key(b):
                    continue
                try:
                    out[L.g(a, b)] = t
                    break
                except NoJoin:
                    pass
        return out
    g.preds = common(e.preds.items(), s.preds.items(), lambda a: (a[0], len(a)))
    g.mat = {a: m for a, m in e.mat.items() if s.mat.get(a) == m}
    if 'kinds' in keys:
        kk = common(e.ghost.get('kinds', ()), s.ghost.get('kinds', ()), lambda a: (a[0], a[2]))
        g.ghost['kinds'] = tuple(kk.items())
    if 'rng' in keys:
        out = []
        for a in e.ghost.get('rng', ()):
            for b in s.ghost.get('rng', ()):
                if a[0] == b[0] and a[3] == b[3]:
                    try:
                        out.append((a[0], L.gint(a[1], b[1]), L.gint(a[2], b[2]), a[3]))
                        break
                    except NoJoin:
                        pass
        g.ghost['rng'] = tuple(out)
    # linear facts: candidates checked on both sides
    forms, lists = {}, {}
    for fr in g.frames:
        for v in fr.locals.values():
            int_forms(v, forms, lists)
    for v in g.ghost.values():
        int_forms(v, forms, lists)
    for v in g.heap.values():
        int_forms(v, forms, lists)
    for p in eng.cfg.params:
        forms[p] = True
    all_forms = list(forms)
    forms = all_forms[:40]
    cands = []
    for lo, hi in lists:
        cands.append(sub(hi, lo))
    for x in forms:
        cands.append(sub(x, num(1)))
        for y in forms:
            if x != y:
                d = sub(x, y)
                cands.append(d)
                cands.append(sub(d, num(1)))
    facts = tuple(f for f in e.lin if f in s.lin or lin.entails(s.lin, f))
    if coarse:
        named = {}
        for x in all_forms:
            int_syms(x, named)
        facts = tuple(f for f in facts if all(k[0] != '#phi' or k in named for k in lin.syms(f)))
    for c in cands:
        if lin.trivially(c) is not None or c in facts:
            continue
        if lin.entails(e.lin, subst(c, L.ma)) and lin.entails(s.lin, subst(c, L.mb)):
            if not lin.entails(facts, c):
                facts = facts + (c,)
    # remaining old facts, lifted to the generalised symbols
    inv = {}
    for p, a in L.ma.items():
        if p[0] == '#phi' and a[0] != 'i':
            inv.setdefault(a, p)
    for f in e.lin:
        c = subst(f, inv)
        if c != f and lin.trivially(c) is None and c not in facts:
            if lin.entails(e.lin, subst(c, L.ma)) and lin.entails(s.lin, subst(c, L.mb)) and not lin.entails(facts, c):
                facts = facts + (c,)
    g.lin = facts
    return g


# ------------------------------------------------------------ instance check
class Match:
    def __init__(self, eng, e, s):
        self.eng, self.e, self.s = eng, e, s
        self.m = {}
        self.later = []

    def bind(self, p, v):
        o = self.m.get(p)
        if o is None:
            self.m[p] = v
            return True
        return self.eng.same(self.s, o, v)

    def mint(self, a, b):
        """pattern form a against form b"""
        if a == b and not has_phi(a):
            return True
        c, t = lin.parts(a)
        if len(t) == 1 and c == 0 and t[0][1] == 1 and t[0][0][0] != '#phi' and b[0] == t[0][0][0] and b[0] != 'i' and len(b) == len(t[0][0]):
            x = t[0][0]
            save = dict(self.m)
            if all(self.match(p, q) for p, q in zip(x[1:], b[1:])):
                return True
            self.m = save
            return False
        unk = [(s, k) for s, k in t if s[0] == '#phi' and s not in self.m]
        if any(s[0] != '#phi' and has_phi(s) for s, _ in t):
            self.later.append((a, b))
            return True
        if len(unk) == 0:
            v = subst(a, self.m)
            return self.eng.same(self.s, v, b)
        if len(unk) == 1 and abs(unk[0][1]) == 1:
            s, k = unk[0]
            rest = num(c)
            for x, kk in t:
                if x != s:
                    rest = add(rest, self.m.get(x, x), kk)
            self.m[s] = lin.scale(sub(b, rest), k)
            return True
        self.later.append((a, b))
        return True

    def match(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, tuple) or not isinstance(b, tuple):
            return a == b
        if a and b and isinstance(a[0], str) and isinstance(b[0], str):
            if a[0] == '#phi' or is_int(a):
                return is_int(b) and self.mint(a, b)
            if a[0] == 'phi':
                if not is_opaque(b) or is_int(b) or b[0] in self.eng.cfg.rigid:
                    return False
                return self.bind(a, b)
            if a[0] == 'l':
                if b[0] != 'l':
                    return False
                if len(a[1]) == 1 and a[1][0][0] == 'x' and a[1][0][1][0] == 'phiS' and a[1][0][2] == num(0):
                    _, S, lo, n = a[1][0]
                    return self.bind(S, b) and self.mint(n, list_len(b))
                if len(a[1]) != len(b[1]):
                    b = summarise(b)
                    if len(a[1]) != len(b[1]):
                        return False
                return all(x[0] == y[0] and self.match(x[1:], y[1:]) for x, y in zip(a[1], b[1]))
            if a[0] == 'phiS':
                return False if a != b else self.bind(a, ('l', (('x', b, num(0), ('#seqlen', b)),)))
            if a[0] != b[0]:
                return False
        if len(a) != len(b):
            return False
        return all(self.match(x, y) for x, y in zip(a, b))

    def covers(self):
        e, s = self.e, self.s
        if e.ghost.keys() - {'kinds', 'rng'} != s.ghost.keys() - {'kinds', 'rng'}:
            return False
        for k in ['pos'] + sorted(e.ghost.keys() - {'pos', 'kinds', 'rng'}):
            if k in e.ghost and not self.match(e.ghost[k], s.ghost[k]):
                return False
        for fa, fb in zip(e.frames, s.frames):
            if fa.locals.keys() != fb.locals.keys() or fa.dest != fb.dest:
                return False
            for x in sorted(fa.locals):
                if not self.match(fa.locals[x], fb.locals[x]):
                    return False
        if e.heap.keys() != s.heap.keys() or e.rc != s.rc or len(e.events) != len(s.events):
            return False
        if not all(self.match(x, y) for x, y in zip(e.events, s.events)):
            return False
        for h in sorted(e.heap):
            if not self.match(e.heap[h], s.heap[h]):
                return False
        n = len(self.later) + 1
        while self.later and n:
            n -= 1
            todo, self.later = self.later, []
            for a, b in todo:
                c, t = lin.parts(a)
                if any(x[0] == '#phi' and x not in self.m for x, _ in t):
                    if not self.mint(a, b):
                        return False
                elif not self.eng.same(s, subst(a, self.m), b):
                    return False
        if self.later:
            # symbols that only occur together: they may stand for themselves
            for a, b in self.later:
                for x, _ in lin.parts(a)[1]:
                    if x[0] == '#phi':
                        self.m.setdefault(x, x)
            if not all(self.eng.same(s, subst(a, self.m), b) for a, b in self.later):
                return False
        m = self.m
        for f in e.lin:
            if not lin.entails(s.lin, subst(f, m)):
                return False
        for a, t in e.preds.items():
            a2 = subst(a, m)
            if s.preds.get(a2) != t and not any(t == t2 and b[0] == a2[0] and self.eng.same(s, a2, b) for b, t2 in s.preds.items()):
                return False
        for a, v in e.mat.items():
            if s.mat.get(subst(a, m)) != subst(v, m):
                return False
        for (A, p, r), k in e.ghost.get('kinds', ()):
            p2 = subst(p, m)
            if not any(A == A2 and r == r2 and k == k2 and self.eng.same(s, p2, q) for (A2, q, r2), k2 in s.ghost.get('kinds', ())):
                return False
        for (sh, lo, hi, t) in e.ghost.get('rng', ()):
            lo2, hi2 = subst(lo, m), subst(hi, m)
            if not any(sh == x[0] and t == x[3] and lin.entails(s.lin, sub(lo2, x[1])) and lin.entails(s.lin, sub(x[2], hi2))
                       for x in s.ghost.get('rng', ())) and not (lin.entails(s.lin, sub(lo2, hi2))):
                return False
        return True


def at_head(eng, st, fr, head):
    # keep what happened before the loop; what its iterations did is up to the monitors
    base = st.events[:fr.loops.get(('b', head), 0)]
    if len(base) < len(st.events) and base[-1:] != (LOOP,):
        base = base + (LOOP,)
    st.events = base
    st.widened = True
    prune_dead(st)
    canon_heap(st)
    fix_frames(eng, st)
    key = (st.ghost.get('phase'), tuple((f.body['key'], f.blk) for f in st.frames), partition(eng, st))
    entries = eng.table.setdefault(key, [])
    for e in entries:
        if Match(eng, e, st).covers():
            eng.stats['pruned'] += 1
            return None
    for i in range(len(entries) - 1, -1, -1):
        try:
            g = generalise(eng, entries[i], st, eng.njoins.get(key, 0) > COARSE_AFTER)
        except NoJoin:
            continue
        eng.stats['joins'] += 1
        eng.njoins[key] = eng.njoins.get(key, 0) + 1
        # a generalisation that covers other entries replaces them
        rest = [x for j, x in enumerate(entries) if j != i and not Match(eng, g, x).covers()]
        eng.table[key] = rest + [g.copy()]
        return g
    if len(entries) >= MAX_ENTRIES:
        raise Unknown('loop does not converge: %s' % eng.loc(st))
    entries.append(st.copy())
    return st


def fix_frames(eng, st):
    """normalise resolved values so that mat entries can be dropped"""
    for fr in st.frames:
        for x, v in fr.locals.items():
            r = eng.resolve(st, v)
            if r is not v:
                fr.locals[x] = r
