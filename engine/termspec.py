"""Termination (C32), the part that is not loops: the library never calls itself except through
the parts a parser or strategy is made of."""
from layer import CR, PARSER, RECOVER, SCANNER
from effects import Facts, SelfTest, PARSERLIKE


def edges(f, k):
    b = f.bodies[k]
    out = {}
    for e in f.edges[k]:
        if isinstance(e, str) and e in f.bodies and f.bodies[e].get('kind') == 'Closure':
            out[e] = ''
    for fn, l in f.calls[k]:
        for d in (fn['d'], fn.get('res')):
            if d in f.bodies:
                out[d] = l
        if fn.get('trait') and not fn.get('res'):
            a = fn.get('a') or []
            t = f.prog.types[a[0] + b['off']] if a and isinstance(a[0], int) else None
            if t is not None and t['k'] == 'param' and t.get('s') == 'Self':
                # a default method calls a method of its own type
                for _, key, _ in f.prog.impl_ix.get((fn['trait'], fn['name']), []):
                    if key in f.bodies:
                        out[key] = l
    return out


def cycles(f):
    """strongly connected components that call themselves"""
    g = {k: edges(f, k) for k in f.bodies}
    index, low, stack, on, out, n = {}, {}, [], set(), [], [0]
    for root in sorted(g):
        if root in index:
            continue
        work = [(root, iter(sorted(g[root])))]
        index[root] = low[root] = n[0]
        n[0] += 1
        stack.append(root)
        on.add(root)
        while work:
            k, it = work[-1]
            nxt = next(it, None)
            if nxt is None:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[k])
                if low[k] == index[k]:
                    c = []
                    while True:
                        x = stack.pop()
                        on.discard(x)
                        c.append(x)
                        if x == k:
                            break
                    if len(c) > 1 or k in g[k]:
                        out.append(sorted(c))
            elif nxt not in index:
                index[nxt] = low[nxt] = n[0]
                n[0] += 1
                stack.append(nxt)
                on.add(nxt)
                work.append((nxt, iter(sorted(g[nxt]))))
            elif nxt in on:
                low[k] = min(low[k], index[nxt])
    return out, sum(len(x) for x in g.values())


def recursion(prog, settle):
    sf = Facts(prog, 'shims', ('shims::selftest::Run',), 'shims::selftest')
    found = sorted(x.split('::')[-1] for c in cycles(sf)[0] for x in c)
    if found != ['even', 'odd', 'once', 'twice']:
        raise SelfTest('the recursion rule reports %s in the self test' % found)
    f = Facts(prog, CR, PARSERLIKE)
    cs, n = cycles(f)
    return [dict(name='recursion', problems=[], missing=None, functions=sorted(f.bodies), counts=dict(call_edges=n),
                 undecided=[('the library calls itself: ' + ' -> '.join(c), c[0]) for c in cs])]
