"""Configuration of the interpreter for code written against the stream interface: the
stream is its public contract (ghost position in an unknown token sequence of length N),
parsers, strategies, callbacks, tokens and errors are opaque.

Ghost state:  'pos' current position, 'events' child runs so far, 'vals' values returned
by the finished phases, 'rng' facts that hold for a whole range of tokens or items.
"""
import lin
from lin import num, add, sub, const
from interp import (Engine, State, UNIT, NONE, some, vref, is_opaque, is_int, Unknown, Split, Panic, Pushed,
                    Violation, Infeasible, list_len, mk_list, lst, show, OPTION)

CR = 'parse_proof_of_concept'
STREAM = CR + '::stream::Stream'
SAVED = CR + '::stream::SavedState'
PRES = CR + '::parser::Result'
PARSER = CR + '::parser::Parser'
RECOVER = CR + '::recovery::Recover'
ERROR = CR + '::error::Error'
FALLBACK = CR + '::error::Fallback'
SCANNER = CR + '::scanner::Scanner'
CONTAINER = CR + '::container::Container'
TRACKER = CR + '::location::Tracker'
AT = CR + '::error::At'

N = ('#N',)
START = ('#start',)


class Found(Exception):
    """a problem was found and that is enough"""


class Missing(Exception):
    """a public item the property is about is not there"""


def variant(prog, adt, name):
    for i, v in enumerate(prog.adts[adt]['variants']):
        if v['name'] == name:
            return i
    raise Missing('%s::%s' % (adt, name))


class Api:
    """public items of the crate by name"""

    def __init__(self, prog):
        self.prog = prog
        if PRES not in prog.adts or STREAM not in prog.adts:
            raise Missing('parser::Result / stream::Stream')
        self.S = variant(prog, PRES, 'Success')
        self.R = variant(prog, PRES, 'Recovered')
        self.F = variant(prog, PRES, 'Failed')

    def inherent(self, adt, name):
        """body of an inherent method"""
        out = []
        for k, b in self.prog.bodies.items():
            if b.get('name') == name and b.get('impl_self') is not None and b.get('kind') == 'AssocFn' and '#p' not in k:
                t = self.prog.types[b['impl_self']]
                if t['k'] == 'adt' and t['d'] == adt and not b['path'].startswith('<'):
                    out.append(k)
        if len(out) != 1:
            raise Missing('%s::%s' % (adt, name))
        return out[0]

    def impl(self, trait, name, adt):
        ks = self.prog.find_impl(trait, name, adt)
        if len(ks) != 1:
            raise Missing('<%s as %s>::%s' % (adt, trait, name))
        return ks[0]

    def any_provided(self, traits, name):
        ks = [self.prog.trait_default[(t, name)] for t in traits if (t, name) in self.prog.trait_default]
        if len(ks) != 1:
            raise Missing('%s::%s' % (traits[0], name))
        return ks[0]

    def fn(self, path):
        k = CR + '::' + path
        if k not in self.prog.bodies:
            raise Missing(path)
        return k

    def provided(self, trait, name):
        k = self.prog.trait_default.get((trait, name))
        if k is None:
            raise Missing('%s::%s' % (trait, name))
        return k


STREAM_METHODS = ['save', 'save_at', 'restore', 'token', 'token_at', 'index', 'index_at', 'location_tracker',
                  'location_tracker_at', 'location', 'location_at', 'span', 'spanning_back_to', 'eof', 'advance', 'advance_to',
                  'new', 'new_with_location']


class Layer:
    """one scenario: a list of phases (each pushes one call), then a check"""
    track_drops = False
    stop_at_problem = False
    params = (('#N',), ('#start',))      # integers no loop changes
    part = ()                            # those whose order splits the analysis
    rigid = ('strm', 'saved', 'sc')      # opaque tags that are never generalised away
    delay = 3
    max_states = 60000
    round_limit = 250
    fes_len = None   # None: error lists of children are opaque sequences of unknown length >= 1;
    #                  a tuple of ints: they have one of these lengths

    def __init__(self, prog, name, phases, spec):
        self.prog = prog
        self.api = Api(prog)
        self.name = name
        self.phases = phases
        self.spec = spec
        self.hooks = {}
        self.problems = []      # (aspects, message, trail, widened)
        self.finals = 0
        self.panics = 0
        for k, b in prog.bodies.items():
            if b['crate'] == CR and b.get('impl_self') is not None and b.get('name') in STREAM_METHODS and not b['path'].startswith('<'):
                t = prog.types[b['impl_self']]
                if t['k'] == 'adt' and t['d'] == STREAM:
                    self.hooks[k] = getattr(self, 's_' + b['name'])
        self.hooks['shims::mk_ef'] = self.mk_ef

    # ------------------------------------------------------------- setup
    def initial(self, eng):
        st = State()
        st.ghost = {'pos': START, 'vals': (), 'phase': 0, 'rng': (), 'nres': 0}
        st.assume(sub(N, START))
        st.heap[0] = ('strm',)
        st.fresh = 1
        return st

    def stream_ref(self):
        return ('r', ('H', 0), ())

    def run(self):
        eng = Engine(self.prog, self)
        self.eng = eng
        st = self.initial(eng)
        self.next_phase(eng, st)
        eng.run(st)
        return eng

    def next_phase(self, eng, st):
        key, args, types = self.phases[st.ghost['phase']](self, eng, st, st.ghost['vals'])
        eng.push_body(st, key, args, None, None, types)

    def on_return(self, eng, st):
        vals = st.ghost['vals'] + (st.ret,)
        ph = st.ghost['phase'] + 1
        if ph < len(self.phases):
            key, args, types = self.phases[ph](self, eng, st, vals)   # may fork: before the frame is gone
            st.frames.pop()
            st.ghost['vals'] = vals
            st.ghost['phase'] = ph
            eng.push_body(st, key, args, None, None, types)
            return [st]
        self.spec(self, eng, st, vals)
        self.finals += 1
        return []

    def on_panic(self, eng, st, msg):
        self.panics += 1
        if hasattr(self.spec, 'on_panic'):
            r = self.spec.on_panic(self, eng, st, msg)
            if r:
                return
        self.problem(eng, st, ('panic',), 'panics: ' + msg)

    # ------------------------------------------------------------- loops
    def enter_loop(self, eng, st, fr, head):
        if fr.body['crate'] == CR:
            k = (len(st.frames), fr.body['key'], head)
            lp = [x for x in st.ghost.get('lp', ()) if x[0] != k and x[0][0] <= k[0]]
            st.ghost['lp'] = tuple(lp) + ((k, st.ghost['pos'], False),)
            st.ghost['tr'] = False

    def at_loop(self, eng, st, fr, head):
        """a loop that looks at tokens has to move on (or look at something else)"""
        if fr.body['crate'] != CR:
            return
        k = (len(st.frames), fr.body['key'], head)
        out = []
        p = st.ghost['pos']
        for x in st.ghost.get('lp', ()):
            d = x[0][0]
            if d > len(st.frames) or st.frames[d - 1].body['key'] != x[0][1]:
                continue
            if x[0] == k:
                if not st.ghost.get('tr') or lin.entails(st.lin, sub(sub(p, x[1]), num(1))):
                    x = (k, p, False)
                elif x[2]:
                    self.problem(eng, st, ('progress',), 'a loop over tokens does not move on: at %s and still at %s' % (show(x[1]), show(p)))
                    raise Infeasible()
                else:
                    x = (k, x[1], True)
            out.append(x)
        st.ghost['lp'] = tuple(out)
        st.ghost['tr'] = False

    def on_stuck(self, eng, st, fr, head, rounds=None):
        if fr.body['crate'] == CR:
            self.problem(eng, st, ('progress', 'stuck'),
                         'calls itself with nothing changed: it never ends' if head is None else
                         'a loop goes round %d times for a short input: it never ends' % rounds if rounds else
                         'a loop comes back to its start with nothing changed: it never ends')
        raise Infeasible()

    def looked(self, st):
        if st.ghost.get('lp'):
            st.ghost['tr'] = True

    def is_accum(self, a, b):
        return False

    def problem(self, eng, st, aspects, msg):
        self.problems.append((tuple(aspects), msg, eng.loc(st), st.trail_list(), st.widened))
        if self.stop_at_problem and not st.widened:
            raise Found()

    # ------------------------------------------------------ range facts
    def shapes(self, atom):
        """[(shape, index)] of an atom about the item at an index or the token at a position:
        the index is replaced by a hole; every other position stays as it is or becomes its
        distance from the index"""
        idx = []

        def find(v):
            if not isinstance(v, tuple) or not v:
                return
            if v[0] == 'el' and len(v) == 3:
                idx.append((0, v[2]))
            elif v[0] == 'tok':
                idx.append((1, v[1]))
            else:
                for x in v:
                    find(x)
        find(atom)
        if not idx:
            return []
        k = min(idx, key=lambda x: x[0])[1]
        tags = {}
        for t, i in idx:
            if i != k:
                tags[i] = True
        out = []
        for mask in range(1 << min(len(tags), 2)):
            rel = {i: (mask >> n) & 1 for n, i in enumerate(tags)}

            def rep(v):
                if not isinstance(v, tuple) or not v:
                    return v
                if v[0] == 'el' and len(v) == 3:
                    return v if v[2] != k and not rel.get(v[2]) else ('el', v[1], ('hole', sub(v[2], k)))
                if v[0] == 'tok':
                    return v if v[1] != k and not rel.get(v[1]) else ('tok', ('hole', sub(v[1], k)))
                return tuple(rep(x) for x in v)
            out.append((rep(atom), k))
        return out

    def on_pred(self, eng, st, atom, b):
        for sh, k in self.shapes(atom):
            out = []
            done = False
            for (s2, lo, hi, t) in st.ghost.get('rng', ()):
                if not done and s2 == sh and t == b:
                    if eng.same(st, hi, k):
                        hi = add(k, num(1))
                        done = True
                    elif eng.same(st, lo, add(k, num(1))):
                        lo = k
                        done = True
                out.append((s2, lo, hi, t))
            if not done:
                out.append((sh, k, add(k, num(1)), b))
            st.ghost['rng'] = tuple(out)

    def range_pred(self, eng, st, atom):
        if not st.ghost.get('rng'):
            return None
        for sh, k in self.shapes(atom):
            for (s2, lo, hi, t) in st.ghost.get('rng', ()):
                if s2 == sh and lin.entails(st.lin, sub(k, lo)) and lin.entails(st.lin, sub(sub(hi, k), num(1))):
                    return t
        return None

    def range_holds(self, eng, st, atom, lo, hi, truth):
        for sh, k0 in self.shapes(atom(lo)):
            d = sub(k0, lo)
            for (s2, l2, h2, t) in st.ghost.get('rng', ()):
                if s2 == sh and t == truth and lin.entails(st.lin, sub(add(lo, d), l2)) and lin.entails(st.lin, sub(h2, add(hi, d))):
                    return True
        return lin.entails(st.lin, sub(lo, hi))

    # ------------------------------------------------- stream contract
    def pos(self, st):
        return st.ghost['pos']

    def saved_pos(self, eng, st, a):
        v = eng.strip(st, a)
        if v[0] != 'saved':
            raise Unknown('not a saved state: ' + show(v))
        return v[1]

    def stream_arg(self, eng, st, a):
        v = eng.strip(st, a)
        if v != ('strm',):
            raise Unknown('not the stream: ' + show(v))

    def tok_at(self, eng, st, p):
        """Option<&I> at position p <= N"""
        if eng.ge0(st, sub(sub(N, p), num(1))):
            return some(vref(('tok', p)))
        return NONE

    def s_new(self, eng, st, info, args, dest, target):
        return self.new_stream(eng, st, args[0], ('default', 'L'))

    def s_new_with_location(self, eng, st, info, args, dest, target):
        return self.new_stream(eng, st, args[0], eng.strip(st, args[1]))

    def new_stream(self, eng, st, source, loc):
        st.ghost['source'] = st.ghost.get('source', ()) + ((eng.strip(st, source), loc),)
        st.ghost['pos'] = num(0)
        return ('strm',)

    def s_save(self, eng, st, info, args, dest, target):
        self.stream_arg(eng, st, args[0])
        return ('saved', self.pos(st))

    def s_save_at(self, eng, st, info, args, dest, target):
        self.stream_arg(eng, st, args[0])
        i = args[1]
        if not eng.ge0(st, sub(i, self.pos(st))):
            raise Panic('save_at() backwards')
        if eng.ge0(st, sub(N, i)):
            return ('saved', i)
        return ('saved', N)

    def s_restore(self, eng, st, info, args, dest, target):
        self.stream_arg(eng, st, args[0])
        st.ghost['pos'] = self.saved_pos(eng, st, args[1])
        return UNIT

    def s_token(self, eng, st, info, args, dest, target):
        self.stream_arg(eng, st, args[0])
        self.looked(st)
        return self.tok_at(eng, st, self.pos(st))

    def s_token_at(self, eng, st, info, args, dest, target):
        p = self.saved_pos(eng, st, args[1])
        if not eng.ge0(st, sub(self.pos(st), p)):
            raise Panic('token_at() of a token that was not read yet')
        return self.tok_at(eng, st, p)

    def s_index(self, eng, st, info, args, dest, target):
        self.stream_arg(eng, st, args[0])
        return self.pos(st)

    def s_index_at(self, eng, st, info, args, dest, target):
        return self.saved_pos(eng, st, args[1])

    def s_location_tracker(self, eng, st, info, args, dest, target):
        return vref(('trk', self.pos(st)))

    def s_location_tracker_at(self, eng, st, info, args, dest, target):
        return vref(('trk', self.saved_pos(eng, st, args[1])))

    def s_location(self, eng, st, info, args, dest, target):
        self.stream_arg(eng, st, args[0])
        self.looked(st)
        return ('loc', self.pos(st))

    def s_location_at(self, eng, st, info, args, dest, target):
        return ('loc', self.saved_pos(eng, st, args[1]))

    def s_span(self, eng, st, info, args, dest, target):
        self.stream_arg(eng, st, args[0])
        self.looked(st)
        p = self.pos(st)
        if eng.ge0(st, sub(sub(N, p), num(1))):
            return ('span', p, add(p, num(1)))
        return ('span', p, p)

    def s_spanning_back_to(self, eng, st, info, args, dest, target):
        self.stream_arg(eng, st, args[0])
        return ('span', self.saved_pos(eng, st, args[1]), self.pos(st))

    def s_eof(self, eng, st, info, args, dest, target):
        self.stream_arg(eng, st, args[0])
        self.looked(st)
        return not eng.ge0(st, sub(sub(N, self.pos(st)), num(1)))

    def s_advance(self, eng, st, info, args, dest, target):
        self.stream_arg(eng, st, args[0])
        p = self.pos(st)
        if eng.ge0(st, sub(sub(N, p), num(1))):
            st.ghost['pos'] = add(p, num(1))
            self.moved(eng, st, p)
            return True
        return False

    def s_advance_to(self, eng, st, info, args, dest, target):
        self.stream_arg(eng, st, args[0])
        p, i = self.pos(st), args[1]
        if not eng.ge0(st, sub(i, p)):
            raise Panic('advance_to() backwards')
        if eng.ge0(st, sub(N, i)):
            st.ghost['pos'] = i
            return True
        st.ghost['pos'] = N
        return False

    def moved(self, eng, st, p):
        pass

    # ------------------------------------------------------- child parsers
    def kind(self, eng, st, A, p, rec):
        """memoised result kind of running the opaque parser A at p"""
        def get(r):
            for (a, q, r2), k in st.ghost.get('kinds', ()):
                if a == A and r2 == r and (q == p or eng.same(st, q, p)):
                    return k
            return None
        k = get(rec)
        if k:
            return k
        other = get(not rec)
        if rec:
            alts = {'S': ['S'], 'F': ['R', 'F'], None: ['S', 'R', 'F']}[other]
        else:
            alts = {'S': ['S'], 'R': ['F'], 'F': ['F'], None: ['S', 'F']}[other]

        def setk(k):
            def f(s):
                s.ghost['kinds'] = s.ghost.get('kinds', ()) + (((A, p, rec), k),)
                return self.kind_facts(eng, s, A, p, rec, k)
            return f
        if len(alts) == 1:
            setk(alts[0])(st)
            return alts[0]
        names = {'S': 'matches', 'R': 'is recovered', 'F': 'fails'}
        raise Split([('%s at %s with recovery %s %s' % (show(A), show(p), 'on' if rec else 'off', names[k]), setk(k)) for k in alts])

    def kind_facts(self, eng, st, A, p, rec, k):
        if k == 'S':
            e = ('#end', A, p)
            return st.assume(sub(e, p)) and st.assume(sub(N, e))
        if k == 'R':
            e = ('#rend', A, p)
            return st.assume(sub(e, p)) and st.assume(sub(N, e)) and st.assume(sub(('#nres', A, p), num(1)))
        return st.assume(sub(('#nfes', A, p, rec), num(1)))

    def child_result(self, eng, st, A, p, rec):
        """(kind, output, end, index, errors) of a child run; may Split"""
        k = self.kind(eng, st, A, p, rec)
        if k == 'S':
            return k, ('out', A, p), ('#end', A, p), None, None
        if k == 'R':
            n = ('#nres', A, p)
            return k, ('rout', A, p), ('#rend', A, p), None, self.err_list(eng, st, ('res', A, p), n)
        n = ('#nfes', A, p, rec)
        return k, None, p, ('#fi', A, p, rec), self.err_list(eng, st, ('fes', A, p, rec), n)

    def err_list(self, eng, st, S, n):
        if self.fes_len is None:
            return ('l', (('x', S, num(0), n),))
        for k in self.fes_len[:-1]:
            if eng.eq_int(st, n, num(k)):
                return lst(*[('el', S, num(i)) for i in range(k)])
        k = self.fes_len[-1]
        st.assume(sub(n, num(k)))
        st.assume(sub(num(k), n))
        return lst(*[('el', S, num(i)) for i in range(k)])

    def event(self, st, e):
        st.events = st.events + (e,)

    def parse_child(self, eng, st, A, stream, rec):
        self.stream_arg(eng, st, stream)
        if not isinstance(rec, bool):
            rec = eng.pred(st, rec)
        p = self.pos(st)
        k, out, end, fi, es = self.child_result(eng, st, A, p, rec)
        self.event(st, ('run', A, p, rec))
        self.on_run(eng, st, A, p, rec, k)
        st.ghost['pos'] = end
        api = self.api
        if k == 'S':
            return ('a', PRES, api.S, (out,))
        if k == 'R':
            return ('a', PRES, api.R, (out, es))
        return ('a', PRES, api.F, (fi, es))

    def on_run(self, eng, st, A, p, rec, k):
        pass

    # ------------------------------------------------- opaque trait objects
    def trait_call(self, eng, st, info, args, dest, target):
        d, name, trait = info['d'], info['name'], info['trait']
        v = eng.strip(st, args[0]) if args else None
        while v is not None and not isinstance(v, bool) and v[0] == 'rc':
            v = eng.strip(st, st.heap[v[1]])
        if trait == PARSER and name == 'parse_internal':
            if is_opaque(v):
                return self.parse_child(eng, st, v, args[1], args[2])
            # a known parser behind an Rc
            ks = self.prog.find_impl(trait, name, v[1]) if v[0] == 'a' else []
            if len(ks) == 1:
                eng.push(st, self.prog.bodies[ks[0]], [vref(v)] + list(args[1:]), dest, target, {})
                raise Pushed()
        if trait == RECOVER and name == 'recover':
            if is_opaque(v):
                return self.recover_child(eng, st, v, args)
            ks = self.prog.find_impl(trait, name, v[1]) if v[0] == 'a' else []
            if len(ks) == 1:
                eng.push(st, self.prog.bodies[ks[0]], [vref(v)] + list(args[1:]), dest, target, {})
                raise Pushed()
        if trait in (ERROR, FALLBACK):
            return self.error_call(eng, st, info, name, args, dest, target)
        if trait == CONTAINER and name == 'get_iter' and is_opaque(v):
            n = ('#clen', v)
            return ('a', '#it', 0, (False, mk_list([('x', ('items', v), num(0), n)])))
        if trait == SCANNER and is_opaque(v):
            return self.scanner_call(eng, st, info, name, args)
        if trait == TRACKER:
            return self.tracker_call(eng, st, info, name, args)
        return NotImplemented

    def tracker_call(self, eng, st, info, name, args):
        v = eng.strip(st, args[0])
        if v[0] == 'trk':
            if name == 'location':
                if not eng.same(st, v[1], args[1]):
                    return ('loc', v[1], args[1])
                return ('loc', v[1])
            if name == 'spanning_to':
                w = eng.strip(st, args[2])
                if w[0] == 'trk' and eng.same(st, v[1], args[1]) and eng.same(st, w[1], args[3]):
                    return ('span', v[1], w[1])
                return ('span', v[1], w, args[1], args[3])
            if name == 'advance':
                t = eng.strip(st, args[1])
                if t == ('tok', v[1]):
                    eng.write(st, args[0][1], args[0][2], ('trk', add(v[1], num(1))))
                    return UNIT
        raise Unknown('tracker ' + name)

    def recover_child(self, eng, st, S, args):
        """opaque strategy: arbitrary effect on position, failure position and errors"""
        _, parser, stream, started, failed, errors = args
        self.stream_arg(eng, st, stream)
        p = self.pos(st)
        started = self.saved_pos(eng, st, started)
        fat = self.saved_pos(eng, st, failed)
        es = eng.as_list(st, errors)
        key = ('rcv', S, p)
        ok_ = self.decide(eng, st, ('recovers', key))
        parser = eng.strip(st, parser)
        self.on_recover(eng, st, S, parser, p, started, fat, es, ok_)
        self.event(st, ('recover', S, parser, p, started, fat, es))
        np = ('#rpos', key)
        nf = ('#rfail', key)
        m = ('#nrerr', key)
        for f in (sub(N, np), sub(np, started), sub(N, nf), sub(nf, started), m):
            if not st.assume(f):
                raise Infeasible()
        st.ghost['pos'] = np
        eng.write(st, failed[1], failed[2], ('saved', nf))
        eng.write(st, errors[1], errors[2], self.rec_errs(es, key))
        return some(('rvout', key)) if ok_ else NONE

    def rec_errs(self, es, key):
        """errors after an opaque strategy ran"""
        return mk_list(es[1] + (('x', ('rerr', key), num(0), ('#nrerr', key)),))

    def on_recover(self, eng, st, S, parser, p, started, failed, errs, ok_):
        pass

    def decide(self, eng, st, atom):
        return eng.pred(st, atom)

    def error_call(self, eng, st, info, name, args, dest, target):
        if name == 'expected_found':
            a = eng.resolve(st, args[0])
            if a[0] == 'l':
                return ('ef', a, eng.strip(st, args[1]), eng.strip(st, args[2]))
            if a[0] == 'a':
                from natives import map_template
                m = map_template(eng, st, a)
                if m is not None:
                    return ('ef', m, eng.strip(st, args[1]), eng.strip(st, args[2]))
            eng.push_body(st, 'shims::error_expected_found', args, dest, target)
            raise Pushed()
        if name == 'merge_expected_found':
            base, path = args[0][1], args[0][2]
            e, e2 = eng.read(st, base, path), eng.strip(st, args[1])
            if e[0] == 'mrg':
                new = ('mrg', e[1], e[2] + (e2,))
            else:
                new = ('mrg', e, (e2,))
            eng.write(st, base, path, new)
            return UNIT
        e = eng.strip(st, args[0]) if args else None
        if name == 'is_expected_found':
            if e[0] == 'ef':
                return True
            while e[0] == 'mrg':
                e = e[1]
            return ('isef', e)
        if name == 'location':
            while e[0] == 'mrg':
                e = e[1]
            return ('eloc', e)
        return ('err', name) + tuple(eng.strip(st, a) for a in args)

    def mk_ef(self, eng, st, info, args, dest, target):
        return ('ef', eng.as_list(st, args[0]), eng.strip(st, args[1]), eng.strip(st, args[2]))

    def scanner_call(self, eng, st, info, name, args):
        """opaque scanner: says where to stop, may add errors"""
        T = eng.strip(st, args[0])
        self.looked(st)
        if name == 'scan':
            _, tok, span, errors = args
            tok = eng.strip(st, tok)
            es = eng.as_list(st, errors)
            span = eng.strip(st, span)
            if tok[0] != 'tok':
                raise Unknown('scanner is given ' + show(tok))
            stop = self.decide(eng, st, ('scans', T, tok))
            self.on_scan(eng, st, T, tok, span, es, stop)
            self.event(st, ('scan', T, tok, span, es))
            key = ('scn', T, tok)
            st.assume(('#nserr', key))
            eng.write(st, errors[1], errors[2], mk_list(es[1] + (('x', ('serr', key), num(0), ('#nserr', key)),)))
            return stop
        if name == 'eof':
            _, at, errors = args
            es = eng.as_list(st, errors)
            at = eng.strip(st, at)
            self.on_scan(eng, st, T, None, at, es, True)
            self.event(st, ('scaneof', T, at, es))
            key = ('scn', T, 'eof')
            st.assume(('#nserr', key))
            eng.write(st, errors[1], errors[2], mk_list(es[1] + (('x', ('serr', key), num(0), ('#nserr', key)),)))
            return UNIT
        raise Unknown('scanner ' + name)

    def on_scan(self, eng, st, T, tok, at, errs, stop):
        pass

    # ------------------------------------------------------------ callbacks
    def callback_to(self, eng, st, f, args, dest, target):
        return self.callback(eng, st, f, args)

    def callback(self, eng, st, f, args):
        vals = []
        muts = []
        for a in args:
            a = eng.resolve(st, a)
            if not isinstance(a, bool) and a[0] == 'r' and a[1][0] in ('L', 'H'):
                muts.append((len(vals), a))
            vals.append(eng.strip(st, a))
        vals = self.norm_args(eng, st, vals)
        r = ('app', f) + tuple(vals)
        self.event(st, ('call', f) + tuple(vals))
        for i, a in muts:
            old = eng.read(st, a[1], a[2])
            if old[0] == 'l':
                n = ('#nupd', r)
                eng.write(st, a[1], a[2], mk_list([('x', ('upd', r), num(0), n)]))
            elif old == ('strm',):
                raise Unknown('stream passed to a callback')
            else:
                raise Unknown('mutable callback argument')
        return r

    def norm_args(self, eng, st, vals):
        return vals

    def pure_apply(self, eng, st, f, args):
        """apply a callable to abstract arguments without effects: value or None"""
        f = eng.resolve(st, f)
        while not isinstance(f, bool) and f[0] in ('r', 'box'):
            f = eng.strip(st, f)
        if is_opaque(f):
            self.event(st, ('callmap', f))
            return ('app', f) + tuple(eng.strip(st, a) for a in args)
        if f[0] == 'fn':
            info = eng.fninfo[f[1]]
            if 'ctor' in info:
                return ('a', info['ctor'][0], info['ctor'][1], tuple(args))
            return None
        if f[0] == 'c':
            return self.straight_line(eng, st, f, args)
        return None

    def straight_line(self, eng, st, c, args):
        """run a closure on a copy of the state; its value if it neither forks nor has effects"""
        s2 = st.copy()
        depth = len(s2.frames)
        try:
            eng.call_closure(s2, c, c, args, None, 0)
        except Pushed:
            pass
        n = 0
        while True:
            n += 1
            if n > 100:
                return None
            try:
                fr = s2.frames[-1]
                blk = fr.body['blocks'][fr.blk]
                if blk['t'][0] == 'return' and len(s2.frames) == depth + 1:
                    for s in blk['s'][fr.idx:]:
                        eng.stmt(s2, fr, s)
                    v = eng.resolve(s2, fr.locals[0])
                    if s2.ghost['pos'] != st.ghost['pos'] or any(e[0] in ('run', 'recover') for e in s2.events[len(st.events):]):
                        return None
                    self.merge_events(st, s2)
                    return v
                r = eng.step_block(s2)
                if len(r) != 1:
                    return None
                s2 = r[0]
            except (Split, Panic, Infeasible):
                return None

    def merge_events(self, st, s2):
        for e in s2.events[len(st.events):]:
            self.event(st, e)

    def on_item(self, eng, st, x):
        """an item was taken from the front of a sequence"""

    def on_grow(self, eng, st, v, what):
        """an element is added to a list"""

    def capacity(self, eng, st, v):
        return None

    def iter_next(self, eng, st, base, path, v, back):
        raise Unknown('next of ' + show(v))

    def adt_of(self, eng, st, v):
        """the type of an opaque value, where it is known"""
        return None

    def into_iter(self, eng, st, v, byref):
        raise Unknown('into_iter of ' + show(v))
