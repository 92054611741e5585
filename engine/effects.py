"""Effect rules over the whole crate (C26): no global state, environment or unsafe code, no
parser state that changes while parsing, faithful clones.

Everything is decided on the type-checked program: resolved callees, types of fields and
captures, the call graph.  Each rule is also run over shims::selftest, where it has to
report the planted examples (and only those); if it does not, the check does not answer."""
from lin import num
from interp import show, vref, is_opaque
from layer import Layer, CR, PARSER, RECOVER, SCANNER, TRACKER

CLONE = 'core::clone::Clone'
CELLS = {
    'core::cell::Cell': {'new', 'get', 'into_inner', 'get_mut', 'from_mut'},
    'core::cell::RefCell': {'new', 'borrow', 'try_borrow', 'into_inner', 'get_mut'},
    'core::cell::once::OnceCell': {'new', 'get', 'get_mut', 'into_inner', 'take'},
    'core::cell::UnsafeCell': {'new', 'into_inner', 'get_mut'},
    'core::cell::lazy::LazyCell': {'new'},
    'std::sync::once_lock::OnceLock': {'new', 'get', 'get_mut', 'into_inner', 'take'},
    'std::sync::poison::mutex::Mutex': {'new', 'into_inner', 'get_mut'},
    'std::sync::poison::rwlock::RwLock': {'new', 'read', 'try_read', 'into_inner', 'get_mut'},
    'std::sync::lazy_lock::LazyLock': {'new'},
    'core::sync::atomic::Atomic': {'new', 'load', 'into_inner', 'get_mut'},
}
SHARED = {'alloc::rc::Rc': 'Rc', 'alloc::rcs::rc::Rc': 'Rc', 'alloc::rc::Weak': 'Weak', 'alloc::rcs::rc::Weak': 'Weak',
          'alloc::sync::Arc': 'Arc', 'alloc::rcs::arc::Arc': 'Arc'}
IDENTITY = {'strong_count', 'weak_count', 'get_mut', 'make_mut', 'try_unwrap', 'into_inner', 'unwrap_or_clone', 'ptr_eq', 'as_ptr', 'into_raw'}
DENY = ('std::fs', 'std::io', 'std::net', 'std::env', 'std::process', 'std::thread', 'std::time', 'std::os', 'std::hash::RandomState',
        'std::collections::hash_map::RandomState', 'std::hash::DefaultHasher', 'std::ptr', 'std::alloc', 'std::mem::transmute', 'std::mem::zeroed',
        'std::backtrace', 'std::random', 'std::arch', 'core::arch', 'std::sync::mpsc', 'std::sync::Condvar', 'std::sync::Barrier', 'std::sync::Once',
        'std::panic::set_hook', 'std::panic::take_hook', 'std::panic::catch_unwind')
ALLOW = ('std::time::Duration', 'std::alloc::Global', 'std::sync::OnceLock')


def sub_path(p, prefixes):
    return any(p == d or p.startswith(d + '::') for d in prefixes)


class Facts:
    def __init__(self, prog, crate, traits, only=''):
        self.prog, self.crate = prog, crate
        self.raw = prog.raw[crate]
        self.only = only
        self.traits = traits
        self.bodies = {k: b for k, b in prog.bodies.items() if b['crate'] == crate and k.startswith(only or crate)}
        self.problems = []
        self.obligations = 0
        self.calls = {}          # body -> [(fn info, location)]
        self.casts = {}
        self.edges = {}
        for k, b in self.bodies.items():
            self.scan(k, b)

    def problem(self, rule, msg, where, path=()):
        self.problems.append(dict(aspects=['effect'], message='%s: %s' % (rule, msg), where=where, path=[['', str(x)] for x in path], widened=False))

    # ------------------------------------------------------------- program
    def scan(self, k, b):
        calls, casts, edges = [], [], set()

        def walk(x, l):
            if isinstance(x, dict):
                if 'fn' in x:
                    calls.append((x['fn'], l))
                t = x.get('ty')
                if x.get('k') == 'const' and t is not None and self.prog.types[t + b['off']]['k'] == 'closure':
                    edges.add(self.prog.types[t + b['off']]['d'])
                for v in x.values():
                    walk(v, l)
            elif isinstance(x, (list, tuple)):
                if len(x) > 3 and x[0] == 'agg' and x[1] == 'closure':
                    edges.add(x[3])
                if len(x) > 2 and x[0] == 'cast':
                    casts.append((x[1], l))
                for v in x:
                    if isinstance(v, (dict, list, tuple)):
                        walk(v, l)
        for bb in [b] + b['promoted']:
            for blk in bb['blocks']:
                for s in blk['s']:
                    walk(s, s[3] if s[0] == '=' and len(s) > 3 else blk['l'])
                walk(blk['t'], blk['l'])
        for f, _ in calls:
            for d in (f['d'], f.get('res')):
                if d in self.prog.bodies:
                    edges.add(d)
            if f.get('trait'):
                for _, key, _ in self.prog.impl_ix.get((f['trait'], f['name']), []):
                    edges.add(key)
        # functions used as values reach what they are; so do drops
        for blk in b['blocks']:
            if blk['t'][0] == 'drop':
                edges.add(('drop',))
        self.calls[k], self.casts[k], self.edges[k] = calls, casts, edges

    def ty(self, i, off=0):
        return self.prog.types[i + off]

    def skel(self, t):
        """a type without lifetimes and names of parameters"""
        k = t['k']
        if k == 'adt':
            return (t['d'],) + tuple(self.skel(self.prog.types[a]) for a in t['a'])
        if k in ('ref', 'slice', 'array', 'ptr'):
            return (k, self.skel(self.prog.types[t['e']]))
        if k == 'tuple':
            return (k,) + tuple(self.skel(self.prog.types[a]) for a in t['e'])
        if k in ('param', 'alias', 'dyn', 'other', 'fnptr', 'closure', 'fndef'):
            return ('_',)
        return (k, t.get('n'))

    def match(self, a, b):
        if a == ('_',) or b == ('_',):
            return True
        return a[0] == b[0] and all(self.match(x, y) if isinstance(x, tuple) and isinstance(y, tuple) else x == y for x, y in zip(a[1:], b[1:]))

    def parts(self, t, seen=None, byref=True):
        """the types a value of this type holds, itself included"""
        seen = set() if seen is None else seen
        if id(t) in seen:
            return
        seen.add(id(t))
        yield t
        k = t['k']
        if k == 'adt':
            for a in t['a']:
                yield from self.parts(self.prog.types[a], seen)
            d = self.prog.adts.get(t['d'])
            if d and d['local']:
                for v in d['variants']:
                    for f in v['fields']:
                        if f.get('ty') is not None:
                            yield from self.parts(self.prog.types[f['ty'] + d['off']], seen)
        elif k in ('ref', 'slice', 'array', 'ptr'):
            yield from self.parts(self.prog.types[t['e']], seen)
        elif k == 'tuple':
            for a in t['e']:
                yield from self.parts(self.prog.types[a], seen)
        elif k == 'closure':
            for a in t['u']:
                yield from self.parts(self.prog.types[a], seen)

    def state(self):
        """[(type, where)] of the cells and shared pointers that live in parsers, strategies and factories"""
        out = []
        for im in self.prog.impls:
            if im['crate'] != self.crate or im.get('trait') not in self.traits:
                continue
            t = self.prog.types[im['self']]
            for p in self.parts(t):
                if p['k'] == 'adt' and (p['d'] in CELLS or p['d'] in SHARED):
                    out.append((p, t['s']))
        for k, b in self.bodies.items():
            if b.get('kind') == 'Closure':
                t = self.prog.types[b['locals'][1]]
                while t['k'] == 'ref':
                    t = self.prog.types[t['e']]
                if t['k'] == 'closure':
                    for u in t['u']:
                        u = self.prog.types[u]
                        if u['k'] != 'ref':
                            for p in self.parts(u):
                                if p['k'] == 'adt' and (p['d'] in CELLS or p['d'] in SHARED):
                                    out.append((p, 'a closure of ' + b['path']))
        return out

    def reach(self):
        """bodies reachable from the methods of traits (running, cloning, dropping...): body -> predecessor"""
        pred = {}
        work = []
        for k, b in self.bodies.items():
            if b.get('kind') == 'AssocFn' and (b.get('trait') or b.get('impl') in self.trait_impls()) or self.keeps_state(b):
                pred[k] = None
                work.append(k)
        while work:
            k = work.pop()
            for e in sorted(x for x in self.edges.get(k, ()) if isinstance(x, str)):
                if e in self.bodies and e not in pred:
                    pred[e] = k
                    work.append(e)
        return pred

    def keeps_state(self, b):
        """a closure that owns a cell: it can outlive the function that makes it"""
        if b.get('kind') != 'Closure':
            return False
        t = self.prog.types[b['locals'][1]]
        while t['k'] == 'ref':
            t = self.prog.types[t['e']]
        us = [self.prog.types[u] for u in t['u']] if t['k'] == 'closure' else []
        return any(p['k'] == 'adt' and p['d'] in CELLS for u in us if u['k'] != 'ref' for p in self.parts(u))

    def trait_impls(self):
        if not hasattr(self, '_ti'):
            self._ti = {im['d'] for im in self.prog.impls if im['crate'] == self.crate and im.get('trait')}
        return self._ti

    # --------------------------------------------------------------- rules
    def rule_statics(self):
        for s in self.raw['statics']:
            self.obligations += 1
            if s['mut'] or not s['freeze']:
                self.problem('global state', 'static %s can change' % s['d'].split('::')[-1], s['loc'])

    def rule_unsafe(self):
        for l in self.raw['unsafe']:
            self.problem('unsafe code', 'unsafe block', l)
        for k, b in self.bodies.items():
            self.obligations += 1
            if b.get('unsafe'):
                self.problem('unsafe code', 'unsafe function ' + b['path'], b['loc'])
        for im in self.prog.impls:
            if im['crate'] == self.crate and im.get('unsafe') and not (im.get('trait') or '').endswith('TrivialClone'):     # derive(Clone, Copy)
                self.problem('unsafe code', 'unsafe impl for ' + self.prog.types[im['self']]['s'], im['loc'])

    def rule_env(self):
        for k, b in self.bodies.items():
            for f, l in self.calls[k]:
                self.obligations += 1
                if sub_path(f['path'], DENY) and not sub_path(f['path'], ALLOW):
                    self.problem('environment', '%s uses %s' % (b['path'], f['path']), l)
            for c, l in self.casts[k]:
                if 'Expose' in c:
                    self.problem('environment', '%s looks at an address' % b['path'], l)

    def rule_state(self):
        state = [(self.skel(t), t, w) for t, w in self.state()]
        pred = self.reach()
        for k in sorted(pred):
            for f, l in self.calls[k]:
                s = f.get('impl_self')
                if s is None or f.get('trait'):
                    continue
                t = self.prog.types[s + self.prog.bodies[k]['off']]
                if t['k'] != 'adt':
                    continue
                self.obligations += 1
                if t['d'] in CELLS:
                    bad = f['name'] not in CELLS[t['d']]
                elif t['d'] in SHARED:
                    bad = f['name'] in IDENTITY
                else:
                    continue
                if not bad:
                    continue
                args = [self.skel(self.prog.types[a + self.prog.bodies[k]['off']]) for a in f['a']]
                for sk, ty, where in state:
                    if ty['d'] == t['d'] and (not args or not sk[1:] or self.match(sk[1], args[0])):
                        chain = []
                        x = k
                        while x is not None:
                            chain.append(self.prog.bodies[x]['path'])
                            x = pred[x]
                        self.problem('changing state', '%s on the %s held by %s while parsing' % (f['path'], ty['s'], where), l, chain[::-1])
                        break

    def rules(self):
        self.rule_statics()
        self.rule_unsafe()
        self.rule_env()
        self.rule_state()


# ------------------------------------------------------------------- clones
class CloneLayer(Layer):
    delay = 2

    def run(self):
        return Layer.run(self)


def field_value(prog, st, t, name, depth=0):
    k = t['k']
    if k == 'uint' or k == 'int':
        return ('#fld', name)
    if k == 'tuple' and not t['e']:
        return ('t', ())
    if k == 'tuple':
        return ('t', tuple(field_value(prog, st, prog.types[e], (name, i), depth) for i, e in enumerate(t['e'])))
    if k == 'adt':
        d = t['d']
        if d in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
            st.assume(('#nfld', name))
            return ('l', (('x', ('items', name), num(0), ('#nfld', name)),))
        if d in SHARED and SHARED[d] == 'Rc':
            h = st.alloc(field_value(prog, st, prog.types[t['a'][0]], (name, 'rc'), depth + 1))
            st.rc[h] = (1, 0)
            return ('rc', h)
        if d == 'core::marker::PhantomData':
            return ('a', d, 0, ())
        if d == 'core::cell::RefCell':
            h = st.alloc(('t', (('fld', (name, 'cell')), num(0))))
            return ('cell', h)
        if d == 'alloc::boxed::Box':
            return ('box', field_value(prog, st, prog.types[t['a'][0]], (name, 'box'), depth + 1))
    if k == 'ref':
        return vref(field_value(prog, st, prog.types[t['e']], (name, 'ref'), depth + 1))
    return ('fld', name)


def clone_eq(eng, st, a, b):
    a, b = eng.resolve(st, a), eng.resolve(st, b)
    if not isinstance(a, bool) and not isinstance(b, bool) and a[0] == b[0]:
        if a[0] == 'rc' and a[1] != b[1]:
            x, y = st.heap[a[1]], st.heap[b[1]]
            return x[0] != 'cell' and clone_eq(eng, st, x, y)
        if a[0] == 'a' and a[1:3] == b[1:3] and len(a[3]) == len(b[3]):
            return all(clone_eq(eng, st, x, y) for x, y in zip(a[3], b[3]))
        if a[0] == 't' and len(a[1]) == len(b[1]):
            return all(clone_eq(eng, st, x, y) for x, y in zip(a[1], b[1]))
        if a[0] == 'box':
            return clone_eq(eng, st, a[1], b[1])
    return eng.same(st, a, b)


def clone_scn(prog, crate, t, key, variant, v):
    adt = prog.adts[t['d']]

    def phase(l, eng, st, vals):
        fs = tuple(field_value(prog, st, prog.types[f['ty'] + adt['off']], f['name']) for f in v['fields'])
        st.ghost['orig'] = ('a', t['d'], variant, fs)
        return key, [vref(st.ghost['orig'])], None

    def check(l, eng, st, vals):
        r, o = eng.resolve(st, vals[-1]), st.ghost['orig']
        if r[0] != 'a' or r[1] != o[1] or r[2] != o[2]:
            l.problem(eng, st, ('effect',), 'the clone of %s is %s' % (t['s'], show(r)))
            return
        for f, x, y in zip(v['fields'], r[3], o[3]):
            if not clone_eq(eng, st, x, y):
                l.problem(eng, st, ('effect',), 'field %s of the clone of %s is %s' % (f['name'], t['s'], show(eng.resolve(st, x))))
    return ('clone.%s.%s' % (t['s'], v['name']), 'clone', [phase], check, dict(cls=CloneLayer))


def clones(prog, settle, crate, traits):
    out = []
    want = None
    if traits:
        want = set()
        f = Facts(prog, crate, traits, 'nothing')
        for im in prog.impls:
            if im['crate'] == crate and im.get('trait') in traits:
                for p in f.parts(prog.types[im['self']]):
                    if p['k'] == 'adt':
                        want.add(p['d'])
    for t, key, im in prog.impl_ix.get((CLONE, 'clone'), []):
        if im['crate'] != crate or t['k'] != 'adt' or want is not None and t['d'] not in want:
            continue
        adt = prog.adts[t['d']]
        for i, v in enumerate(adt['variants']):
            out.append(settle(clone_scn(prog, crate, t, key, i, v)))
    return out


PARSERLIKE = (PARSER, RECOVER, SCANNER)
EXPECTED = [('global state', 'COUNT'), ('global state', 'RAW'), ('global state', '__RUST_STD_INTERNAL_VAL'), ('unsafe code', 'unsafe block'),
            ('unsafe code', 'unsafe_fn'), ('unsafe code', 'unsafe impl'), ('environment', 'SystemTime'), ('environment', '_print'),
            ('environment', 'RandomState'), ('environment', 'address'), ('environment', 'Instant'),
            ('changing state', 'Counter'), ('changing state', 'Memo'), ('changing state', 'Lazy'), ('changing state', 'Shared'),
            ('changing state', 'a closure of')]


class SelfTest(Exception):
    """the rules do not work: the check gives no answer"""


def selftest(prog, settle):
    f = Facts(prog, 'shims', ('shims::selftest::Run',), 'shims::selftest')
    f.rules()
    for rule, what in EXPECTED:
        if not any(p['message'].startswith(rule) and what in p['message'] for p in f.problems):
            raise SelfTest('the rule "%s" does not report %s in the self test' % (rule, what))
    if any('Fine' in p['message'] for p in f.problems):
        raise SelfTest('the self test reports ' + [p['message'] for p in f.problems if 'Fine' in p['message']][0])
    cl = clones(prog, settle, 'shims', None)
    hit = sorted(r['name'] for r in cl if r['problems'])
    if hit != ['clone.selftest::Limits.Limits'] or len(cl) < 2:
        raise SelfTest('clone rule reports %s in the self test' % hit)


def purity(prog, settle):
    selftest(prog, settle)
    f = Facts(prog, CR, PARSERLIKE)
    f.rules()
    n = len([1 for im in prog.impls if im['crate'] == CR and im.get('trait') in PARSERLIKE])
    if n < 30:
        raise SelfTest('only %d parsers and strategies found' % n)
    out = [dict(name='effects', problems=f.problems, undecided=[], functions=sorted(f.bodies), missing=None,
                counts=dict(effect_obligations=f.obligations, functions_scanned=len(f.bodies), parser_types=n, reachable_while_parsing=len(f.reach())))]
    return out + clones(prog, settle, CR, PARSERLIKE)
