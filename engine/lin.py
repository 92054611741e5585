"""Linear integer forms over opaque symbols and the little relational domain
(conjunctions of linear inequalities, Fourier-Motzkin entailment) the analysis uses.

An integer value is either ('i', c, ((sym, coef), ...)) or, when it is exactly one
symbol, that symbol itself.  Symbols denote unsigned machine integers, so each
symbol is implicitly >= 0."""
from math import gcd

_ids = {}
_by_id = []


def sym_id(s):
    i = _ids.get(s)
    if i is None:
        i = len(_ids)
        _ids[s] = i
        _by_id.append(s)
    return i


def num(c):
    return ('i', c, ())


def norm(c, terms):
    """terms: dict sym -> coef"""
    t = tuple(sorted(((s, k) for s, k in terms.items() if k), key=lambda x: sym_id(x[0])))
    if c == 0 and len(t) == 1 and t[0][1] == 1:
        return t[0][0]
    return ('i', c, t)


def parts(v):
    """-> (c, tuple of (sym, coef))"""
    if v[0] == 'i':
        return v[1], v[2]
    return 0, ((v, 1),)


def add(a, b, kb=1):
    if b[0] == 'i' and not b[2] and a[0] == 'i' and not a[2]:
        return ('i', a[1] + kb * b[1], ())
    ca, ta = parts(a)
    cb, tb = parts(b)
    d = dict(ta)
    for s, k in tb:
        d[s] = d.get(s, 0) + kb * k
    return norm(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, t = parts(a)
    return norm(c * k, {s: x * k for s, x in t})


def const(v):
    """concrete int or None"""
    if v[0] == 'i' and not v[2]:
        return v[1]
    return None


def syms(v):
    return [s for s, _ in parts(v)[1]]


BIG = 1 << 62


def trivially(v):
    """decide v >= 0 without facts; None if it cannot be"""
    c, t = parts(v)
    if not t:
        return c >= 0
    if c >= 0 and all(k >= 0 for _, k in t):
        return True
    if c < 0 and all(k <= 0 for _, k in t):
        return False
    # lengths and indices are far below the largest machine integers
    if c > BIG:
        return True
    if c < -BIG:
        return False
    return None


_cache = {}


def entails(facts, v):
    """do facts (tuple of forms known >= 0), plus all symbols >= 0, imply v >= 0?"""
    t = trivially(v)
    if t is not None:
        if t:
            return True
        # v is trivially negative: entailed only by contradictory facts
        return False
    key = (facts, v)
    r = _cache.get(key)
    if r is None:
        neg = sub(num(-1), v)
        r = infeasible(relevant(facts, neg) + [neg])
        if len(_cache) > 400000:
            _cache.clear()
        _cache[key] = r
    return r


def relevant(facts, v):
    want = set(syms(v))
    fs = [(f, set(syms(f))) for f in facts]
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for f, s in fs:
            if s & want:
                want |= s
                out.append(f)
                changed = True
            else:
                rest.append((f, s))
        fs = rest
    return out


def infeasible(forms):
    """is the conjunction of forms >= 0 and all symbols >= 0 infeasible? (rational FM with
    integer tightening of each row; incomplete answers are False)"""
    rows = set()
    syms_left = set()
    for f in forms:
        c, t = parts(f)
        rows.add((c, t))
        for s, _ in t:
            syms_left.add(s)
    for s in syms_left:
        rows.add((0, ((s, 1),)))
    rows = _tight(rows)
    if rows is None:
        return True
    # difference constraints are decided (and projected) exactly by shortest paths
    edges, mixed, occ = {}, [], set()
    for c, t in rows:
        if len(t) == 1 and t[0][1] in (1, -1):
            e = (t[0][0], None) if t[0][1] == 1 else (None, t[0][0])
        elif len(t) == 2 and {t[0][1], t[1][1]} == {1, -1}:
            e = (t[0][0], t[1][0]) if t[0][1] == 1 else (t[1][0], t[0][0])
        else:
            mixed.append((c, t))
            occ.update(x for x, _ in t)
            continue
        # e[0] - e[1] + c >= 0: e[1] <= e[0] + c
        edges.setdefault(e[0], []).append((e[1], c))
    nodes = list(syms_left) + [None]
    pot = dict.fromkeys(nodes, 0)
    for _ in range(len(nodes) + 1):
        changed = False
        for u, out in edges.items():
            du = pot[u]
            for v, c in out:
                if du + c < pot[v]:
                    pot[v] = du + c
                    changed = True
        if not changed:
            break
    else:
        return True
    if not mixed:
        return False
    rows = set(mixed)
    occ.add(None)
    for u in occ:
        dist = {u: 0}
        work = [u]
        while work:
            x = work.pop(0)
            dx = dist[x]
            for v, c in edges.get(x, ()):
                if v not in dist or dx + c < dist[v]:
                    dist[v] = dx + c
                    if v not in work:
                        work.append(v)
        for v, c in dist.items():
            if v != u and v in occ:
                d = {}
                if u is not None:
                    d[u] = 1
                if v is not None:
                    d[v] = -1
                rows.add((c, _row(d)))
    syms_left = occ - {None}
    rows = _tight(rows)
    if rows is None:
        return True
    # equalities (both directions present) solve for a symbol
    while True:
        d = dict((t, c) for c, t in rows)
        eq = None
        for t, c in d.items():
            nt = tuple((x, -k) for x, k in t)
            if d.get(nt) == -c:
                for x, k in t:
                    if k == 1 and x in syms_left:
                        eq = (x, c, t)
                        break
                if eq:
                    break
        if eq is None:
            break
        x, ce, te = eq          # x + rest + ce == 0
        syms_left.discard(x)
        new = set()
        for c, t in rows:
            k = 0
            for y, kk in t:
                if y == x:
                    k = kk
                    break
            if not k:
                new.add((c, t))
                continue
            dd = dict(t)
            for y, ky in te:
                dd[y] = dd.get(y, 0) - k * ky
            new.add((c - k * ce, _row(dd)))
        rows = _tight(new)
        if rows is None:
            return True
    while syms_left:
        cnt = {}
        for c, t in rows:
            for x, k in t:
                pn = cnt.get(x)
                if pn is None:
                    pn = cnt[x] = [0, 0]
                pn[k < 0] += 1
        best = None
        for s in syms_left:
            pn = cnt.get(s)
            if pn is None:
                continue
            cost = pn[0] * pn[1] - pn[0] - pn[1]
            if best is None or cost < best[0] or (cost == best[0] and sym_id(s) < sym_id(best[1])):
                best = (cost, s)
        if best is None:
            return False
        s = best[1]
        syms_left.discard(s)
        pos, neg, new = [], [], set()
        for c, t in rows:
            k = 0
            for x, kk in t:
                if x == s:
                    k = kk
                    break
            if k > 0:
                pos.append((k, c, t))
            elif k < 0:
                neg.append((-k, c, t))
            else:
                new.add((c, t))
        for kp, cp, tp in pos:
            for kn, cn, tn in neg:
                d = {}
                for x, k in tp:
                    d[x] = d.get(x, 0) + kn * k
                for x, k in tn:
                    d[x] = d.get(x, 0) + kp * k
                new.add((kn * cp + kp * cn, _row(d)))
        rows = _tight(new)
        if rows is None:
            return True
        if len(rows) > 400:
            return False
    return False


def _row(d):
    return tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda y: sym_id(y[0])))


def _tight(rows):
    out = {}
    for c, t in rows:
        if not t:
            if c < 0:
                return None
            continue
        if c >= 0 and len(t) > 1:
            for _, k in t:
                if k < 0:
                    break
            else:
                continue          # implied by every symbol being >= 0
        g = 0
        for _, k in t:
            g = gcd(g, abs(k))
        if g > 1:
            t = tuple((s, k // g) for s, k in t)
            c = c // g  # floor: integer tightening
        if t in out:
            if c < out[t]:
                out[t] = c
        else:
            out[t] = c
    return {(c, t) for t, c in out.items()}
