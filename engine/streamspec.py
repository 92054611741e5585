"""The stream itself (C20-C23): its methods are interpreted over every state a client can bring a
stream into, by any sequence of operations of the public interface, over inputs of bounded length
with a bounded number of saved positions alive.  Nothing is assumed about how the stream
represents its state: states are compared up to the naming of heap cells, what a method returns
against a reference position in the sequence of tokens the source has delivered.

The source, the tokens and the location tracker are opaque.  Whether a list is full when its
capacity is asked for is left open (every growth policy of the standard library is covered)."""
from collections import deque
import lin
from lin import num, const
from interp import (Engine, State, Pushed, Unknown, Split, Panic, NONE, UNIT, some, ok, err, vref, list_len, show)
from layer import CR, Layer, STREAM, TRACKER, Found, Missing

SRC = ('src',)
ITER = ('src_iter',)


class StreamLayer(Layer):
    track_drops = True
    delay = 80
    length = 3        # tokens
    saves = 2         # saved positions alive at once
    spare = 1         # lists that have more elements than this may not have room for more
    with_location = False
    strides = (0, 1, 2, 3)
    limit = 12        # problems of a kind
    beyond = 600      # states looked at after the first problem
    most = 12000      # states

    def __init__(self, prog, name, phases, spec):
        Layer.__init__(self, prog, name, phases, spec)
        self.hooks = {}

    # ------------------------------------------------------------ environment
    def into_iter(self, eng, st, v, byref):
        if v == SRC and not byref:
            return ITER
        raise Unknown('into_iter of ' + show(v))

    def iter_next(self, eng, st, base, path, v, back):
        if v != ITER or back:
            raise Unknown('next of ' + show(v))
        g = st.ghost
        if g['end']:
            self.found(eng, st, ('ask',), 'the source is asked again after it has reported its end')
            return NONE
        if g['got'] < self.length:
            x = g.pop('more', None)
            if x is None:
                def more(b):
                    def f(s):
                        s.ghost['more'] = b
                        return True
                    return f
                raise Split([('the source has token %d' % g['got'], more(True)), ('the source ends after %d tokens' % g['got'], more(False))])
        else:
            x = False
        g['asked'] += 1
        if not x:
            g['end'] = True
            return NONE
        g['got'] += 1
        return some(('tok', num(g['got'] - 1)))

    def range_pred(self, eng, st, atom):
        return None

    def trait_call(self, eng, st, info, args, dest, target):
        trait, name = info['trait'], info['name']
        if trait != TRACKER:
            return Layer.trait_call(self, eng, st, info, args, dest, target)

        def trk(a):
            v = eng.strip(st, a)
            if v[0] == 'default':
                v = ('trk', num(0))
            if v[0] != 'trk':
                raise Unknown('not a tracker: ' + show(v))
            return v[1]
        k = trk(args[0])
        if name == 'advance':
            t = eng.strip(st, args[1])
            if t != ('tok', k):
                self.found(eng, st, ('tracker',), 'the tracker after %s tokens is advanced over %s' % (show(k), show(t)))
            r = eng.resolve(st, args[0])
            while True:
                v = eng.read(st, r[1], r[2])
                if v[0] != 'r':
                    break
                r = v
            eng.write(st, r[1], r[2], ('trk', lin.add(k, num(1))))
            return UNIT
        if name == 'location':
            if args[1] != k:
                self.found(eng, st, ('tracker',), 'location of token %s asked of the tracker after %s tokens' % (show(args[1]), show(k)))
            return ('loc', k)
        if name == 'spanning_to':
            k2 = trk(args[2])
            if args[1] != k or args[3] != k2:
                self.found(eng, st, ('tracker',), 'span from token %s to %s asked of the trackers after %s and %s tokens' % (show(args[1]), show(args[3]), show(k), show(k2)))
            return ('span', k, k2)
        raise Unknown('Tracker::' + name)

    # ---------------------------------------------------------- growing lists
    def client_frame(self, st):
        return st.frames and st.frames[-1].body['crate'] == CR

    def capacity(self, eng, st, v):
        """is there room in this list?  either way, but consistently while it stays the same"""
        n = list_len(v)
        if const(n) is None:
            raise Unknown('capacity of ' + show(v))
        for w, room in st.ghost['cap']:
            if w == v:
                break
        else:
            if const(n) > self.spare:
                room = False
            else:
                room = st.ghost.pop('room', None)
                if room is None:
                    def setr(b):
                        def f(s):
                            s.ghost['room'] = b
                            return True
                        return f
                    raise Split([('the list of %s is full' % show(n), setr(False)), ('the list of %s has room' % show(n), setr(True))])
            st.ghost['cap'] += ((v, room),)
        return lin.add(n, num(1)) if room else n

    def on_grow(self, eng, st, v, what):
        """an element is about to be added to a list of the stream"""
        room = None
        for w, r in st.ghost['cap']:
            if w == v:
                room = r
        if room or room is None and st.ghost['cap'] and any(self.related(w, v) for w, r in st.ghost['cap']):
            return
        dead = set()
        lo = self.oldest(st)

        def look(x):
            if isinstance(x, tuple):
                if x and x[0] == 'tok' and const(x[1]) is not None and const(x[1]) < lo:
                    dead.add('token %s' % show(x[1]))
                if x and x[0] == 'weak' and st.rc[x[1]][0] == 0:
                    dead.add('a saved position that is gone')
                for y in x:
                    look(y)
        look(v)
        if dead and not (what[0] == 'uninit' or self.is_sentinel(what)):
            self.found(eng, st, ('grow',), 'a list grows that may hold %s, while every live position is at or after %d' % (' and '.join(sorted(dead)), lo))

    def related(self, w, v):
        """v is what is left of w"""
        ws = [x for x in w[1]]
        return len(v[1]) < len(w[1]) and all(x in ws for x in v[1])

    def is_sentinel(self, what):
        found = [False]

        def look(x):
            if isinstance(x, tuple):
                if x and x[0] in ('tok', 'weak', 'rc'):
                    found[0] = True
                for y in x:
                    look(y)
        look(what)
        return not found[0]

    def oldest(self, st):
        g = st.ghost
        return min([g['pos']] + [p for p in g['slots'] if p is not None])

    # ------------------------------------------------------------- exploring
    def found(self, eng, st, aspects, msg):
        if st.ghost['again']:
            aspects = tuple(aspects) + ('restore',)
        k = (aspects, msg)
        n = self.seen_problems.setdefault(aspects, 0)
        self.seen_problems[aspects] = n + 1
        if n < self.limit:
            self.problems.append((tuple(aspects), msg, eng.loc(st), [(x, '') for x in self.history(st)], False))
        if self.stop_at_problem:
            raise Found()

    def history(self, st):
        out = []
        h = st.ghost['hist']
        while h is not None:
            out.append(h[0])
            h = h[1]
        return out[::-1]

    def on_panic(self, eng, st, msg):
        self.panics += 1
        h = st.ghost['hist']
        op = h[0] if h else ''
        more = ('keep',) if any(p is not None for p in st.ghost['slots']) else ()
        if op.startswith(('restore', 'save', 'attempt')):
            more += ('restore',)
        if 'location' in op or 'span' in op:
            more += ('tracker',)
        self.found(eng, st, ('once', 'panic') + more, 'panics: ' + msg)

    def run(self):
        eng = Engine(self.prog, self)
        self.eng = eng
        self.seen_problems = {}
        self.methods = {}
        for n in ('new', 'new_with_location', 'save', 'save_at', 'restore', 'attempt', 'token', 'token_at', 'index', 'index_at', 'location_tracker',
                  'location_tracker_at', 'location', 'location_at', 'span', 'spanning_back_to', 'eof', 'advance', 'advance_to'):
            self.methods[n] = self.api.inherent(STREAM, n)
        self.out = []
        self.visited = set()
        self.queue = deque()
        st = State()
        st.ghost = dict(pos=0, got=0, asked=0, before=0, end=False, slots=(None,) * self.saves, again=False, hist=None, cap=())
        st.heap[0] = ('uninit',)
        for i in range(self.saves):
            st.heap[1 + i] = UNIT
        st.fresh = 1 + self.saves
        if self.with_location:
            self.call(st, 'new_with_location', [SRC, ('trk', num(0))], lambda s, r: self.created(s, r))
        else:
            self.call(st, 'new', [SRC], lambda s, r: self.created(s, r))
        self.finals = 0
        self.explore()
        eng.stats['joins'] = 0
        return eng

    def explore(self):
        left = None
        while self.queue:
            if self.problems:
                # look a little further, for what else it breaks
                left = self.beyond if left is None else left - 1
                if not left:
                    break
            if len(self.visited) > self.most:
                raise Unknown('more than %d states' % self.most)
            st = self.queue.popleft()
            for name, args, check, more in self.ops(st):
                s = st.copy()
                s.ghost['hist'] = (name, st.ghost['hist'])
                self.call(s, more, args, check)
        self.finals = len(self.visited)

    def created(self, st, r):
        st.heap[0] = r
        self.need(st, 0)
        return True

    def call(self, st, method, args, check):
        self.check = check
        self.eng.push_body(st, self.methods[method], args, None, None, None)
        self.eng.run(st)

    def on_return(self, eng, st):
        r = st.ret
        s = st.copy()
        if self.check(s, r) is False:
            return []
        s.frames = []
        self.keep(eng, s, st)
        key, s = self.canonical(s)
        if key not in self.visited:
            self.visited.add(key)
            self.queue.append(s)
        return []

    def keep(self, eng, s, at):
        """all tokens a live position may need are still there"""
        have = set()

        def look(x):
            if isinstance(x, tuple):
                if x and x[0] == 'tok':
                    have.add(const(x[1]))
                elif x and x[0] in ('rc', 'cell') and isinstance(x[1], int):
                    look(s.heap.get(x[1]))
                for y in x:
                    look(y)
        look(s.heap[0])
        g = s.ghost
        gone = [i for i in range(self.oldest(s), g['got']) if i not in have]
        if gone:
            self.found(eng, at, ('keep',), 'token %d is no longer there, but %s' % (gone[0], self.positions(g)))

    def positions(self, g):
        ps = ['the current position is %d' % g['pos']] + ['a saved one %d' % p for p in g['slots'] if p is not None]
        return ' and '.join(ps)

    def canonical(self, st):
        """the state up to the names of heap cells, and a state in which those are canonical"""
        names = {}
        order = []
        g = st.ghost

        def ren(v):
            if not isinstance(v, tuple) or not v:
                return v
            k = v[0]
            if k in ('rc', 'cell', 'weak') and len(v) == 2 and isinstance(v[1], int):
                if k == 'weak' and st.rc[v[1]][0] <= 0:
                    return ('weak', -1)
                return (k, name(v[1]))
            if k == 'guard':
                raise Unknown('a borrow outlives the call')
            if k == 'r':
                if v[1][0] == 'H':
                    return ('r', ('H', name(v[1][1])), ren(v[2]))
                if v[1][0] == 'L':
                    raise Unknown('reference to a local in the state')
            return tuple(ren(x) for x in v)

        def name(h):
            if h <= self.saves:
                return h
            if h not in names:
                names[h] = 1 + self.saves + len(order)
                order.append(h)
            return names[h]
        # slots are alike: the lower positions first
        idx = sorted(range(self.saves), key=lambda i: (g['slots'][i] is None, g['slots'][i] or 0, self.slot_key(st, i)))
        roots = [ren(st.heap[0])]
        slots = []
        for i in idx:
            roots.append(ren(st.heap[1 + i]))
            slots.append(g['slots'][i])
        cells = []
        n = 0
        while n < len(order):
            h = order[n]
            cells.append((ren(st.heap[h]), st.rc.get(h, (1, 0))[0]))
            n += 1
        s = State()
        s.lin, s.preds, s.mat = st.lin, st.preds, st.mat
        for i, v in enumerate(roots):
            s.heap[i] = v
        for i, (v, k) in enumerate(cells):
            s.heap[1 + self.saves + i] = v
            s.rc[1 + self.saves + i] = (k, 0)
        s.fresh = 1 + self.saves + len(cells)
        s.heap[-1] = UNIT
        s.rc[-1] = (0, 1)
        s.ghost = dict(g)
        s.ghost.update(slots=tuple(slots), cap=())
        for k in ('room', 'more'):
            s.ghost.pop(k, None)
        key = (tuple(roots), tuple(cells), tuple(slots), g['pos'], g['got'], g['end'], tuple(sorted(s.preds.items(), key=repr)), s.lin,
               tuple(sorted(s.mat.items(), key=repr)))
        return key, s

    def slot_key(self, st, i):
        """where the stream knows the saved position of this slot"""
        own = set()
        seen = []

        def cells(x, out):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] in ('rc', 'cell', 'weak') and isinstance(x[1], int):
                    out(x[1])
                for y in x:
                    cells(y, out)
        cells(st.heap[1 + i], own.add)
        cells(st.heap[0], seen.append)
        return tuple(n for n, h in enumerate(seen) if h in own)

    # ------------------------------------------------------------ reference
    def need(self, st, n):
        """the operation needs the first n answers of the source"""
        g = st.ghost
        if g['asked'] > max(n, g['before']):
            self.found(self.eng, st, ('ask',), '%s asks the source for token %d, but only those before %d are needed' % (self.last(st), g['asked'] - 1, n))

    def last(self, st):
        return st.ghost['hist'][0] if st.ghost['hist'] else 'creating the stream'

    def bad(self, st, what, got, want):
        self.found(self.eng, st, what, '%s returns %s instead of %s (%s, %d tokens read%s)' % (
            self.last(st), show(got), show(want), self.positions(st.ghost), st.ghost['got'], ', which are all' if st.ghost['end'] else ''))
        return False

    def expect(self, st, what, got, want):
        got = self.eng.strip(st, got) if not isinstance(got, bool) and got[0] == 'r' else got
        if got[0:1] == ('default',) if not isinstance(got, bool) else False:
            got = ('trk', num(0))
        if got != want:
            return self.bad(st, what, got, want)
        return True

    def known(self, st, p):
        """the token at p: its value, None for the end, or False when it was not read"""
        g = st.ghost
        if p < g['got']:
            return some(('tok', num(p)))
        return NONE if g['end'] and p == g['got'] else False

    def peek(self, st, r, p, what):
        w = self.known(st, p)
        if not isinstance(r, bool) and r[0] == 'a' and r[3]:
            r = some(self.eng.strip(st, r[3][0]))
        if w is False:
            return self.bad(st, what, r, ('the', ('token', num(p))))
        return self.expect(st, what, r, w)

    def ops(self, st):
        g = st.ghost
        g['before'] = g['asked']
        p, slots = g['pos'], g['slots']
        S = ('r', ('H', 0), ())
        SV = vref(st.heap[0])

        def op(name, method, args, check):
            return (name, args, check, method)

        def c_token(s, r):
            self.need(s, p + 1)
            return self.peek(s, r, p, ('once',))

        def c_eof(s, r):
            self.need(s, p + 1)
            w = self.known(s, p)
            return self.expect(s, ('once',), r, w == NONE) if w is not False else self.bad(s, ('once',), r, ('answer',))

        def c_span(s, r):
            self.need(s, p + 1)
            w = self.known(s, p)
            q = num(p) if w == NONE else num(p + 1)
            return self.expect(s, ('once', 'tracker'), r, ('span', num(p), q))

        def c_is(what, want):
            def f(s, r):
                self.need(s, 0)
                return self.expect(s, what, r, want)
            return f

        def c_advance(k):
            def f(s, r):
                gs = s.ghost
                self.need(s, k)
                if gs['got'] >= k:
                    gs['pos'] = k
                    return self.expect(s, ('once',), r, True)
                if not gs['end']:
                    return self.bad(s, ('once',), r, ('answer', num(k)))
                gs['pos'] = gs['got']
                return self.expect(s, ('once',), r, False)
            return f

        def c_save(i, k):
            def f(s, r):
                gs = s.ghost
                self.need(s, k if k > p else 0)
                q = k
                if gs['got'] < k and k > p:
                    if not gs['end']:
                        return self.bad(s, ('restore',), r, ('position', num(k)))
                    q = gs['got']
                s.heap[1 + i] = r
                gs['slots'] = slots[:i] + (q,) + slots[i + 1:]
                return True
            return f

        def c_restore(i):
            def f(s, r):
                self.need(s, 0)
                s.ghost['pos'] = slots[i]
                return True
            return f

        def c_peek_at(i):
            def f(s, r):
                self.need(s, p + 1 if slots[i] == p else 0)
                return self.peek(s, r, slots[i], ('once',))
            return f
        yield op('token()', 'token', [S], c_token)
        yield op('eof()', 'eof', [S], c_eof)
        yield op('span()', 'span', [S], c_span)
        yield op('index()', 'index', [SV], c_is(('once',), num(p)))
        yield op('location()', 'location', [SV], c_is(('once', 'tracker'), ('loc', num(p))))
        yield op('location_tracker()', 'location_tracker', [SV], c_is(('tracker',), ('trk', num(p))))
        yield op('advance()', 'advance', [S], c_advance(p + 1))
        for k in self.strides:
            if p + k <= self.length + 1:
                yield op('advance_to(%d)' % (p + k), 'advance_to', [S, num(p + k)], c_advance(p + k))
        free = [i for i in range(self.saves) if slots[i] is None]
        if free:
            i = free[0]
            yield op('%s = save()' % self.slot_name(i), 'save', [S], c_save(i, p))
            for k in self.strides[:-1]:
                if p + k <= self.length + 1:
                    yield op('%s = save_at(%d)' % (self.slot_name(i), p + k), 'save_at', [S, num(p + k)], c_again(c_save(i, p + k)))
        for i in range(self.saves):
            q = slots[i]
            if q is None:
                continue
            n = self.slot_name(i)
            v = vref(st.heap[1 + i])
            self.drops(st, i)
            yield op('restore(%s at %d)' % (n, q), 'restore', [S, v], c_again(c_restore(i)))
            yield op('index_at(%s)' % n, 'index_at', [SV, v], c_is(('once',), num(q)))
            yield op('location_at(%s)' % n, 'location_at', [SV, v], c_is(('tracker',), ('loc', num(q))))
            yield op('location_tracker_at(%s)' % n, 'location_tracker_at', [SV, v], c_is(('tracker',), ('trk', num(q))))
            if q <= p:
                yield op('spanning_back_to(%s)' % n, 'spanning_back_to', [S, v], c_is(('tracker',), ('span', num(q), num(p))))
            if q == p or self.known(st, q) is not False:
                yield op('token_at(%s)' % n, 'token_at', [S, v], c_peek_at(i))
        for name, f, check in self.attempts(st):
            yield op(name, 'attempt', [S, f], check)

    def drops(self, st, i):
        key, s2 = self.canonical(self.dropped(st, i))
        if key not in self.visited:
            self.visited.add(key)
            self.queue.append(s2)

    def dropped(self, st, i):
        g = st.ghost
        q, slots = g['slots'][i], g['slots']
        s2 = st.copy()
        s2.ghost['hist'] = ('drop %s (at %d)' % (self.slot_name(i), q), g['hist'])
        s2.ghost['slots'] = slots[:i] + (None,) + slots[i + 1:]
        self.eng.drop_value(s2, s2.heap[1 + i])
        s2.heap[1 + i] = UNIT
        return s2

    def slot_name(self, i):
        return 'abcdef'[i] if i < 6 else 's%d' % i

    def attempts(self, st):
        """attempt() with functions that move by some tokens (or elsewhere) and give up or not"""
        g = st.ghost
        p, slots = g['pos'], g['slots']

        def done(k, fails):
            def f(s, r):
                gs = s.ghost
                q = p
                if k is not None:
                    self.need(s, p + k)
                    if gs['got'] < p + k and not gs['end']:
                        return self.bad(s, ('once',), r, ('answer', num(k)))
                    q = min(p + k, gs['got'])
                else:
                    self.need(s, 0)
                if not fails:
                    gs['pos'] = q
                return self.expect(s, ('restore',), r, ('result', fails))
            return f
        for k in (1, 2):
            for fails in (True, False):
                f = ('act', fails) + ('advance',) * k
                yield ('attempt(%d times advance(), %s)' % (k, 'Err' if fails else 'Ok'), f, c_again(done(k, fails)) if fails else done(k, fails))
        for i in range(self.saves):
            if slots[i] is not None:
                def back(s, r):
                    self.need(s, 0)
                    return self.expect(s, ('restore',), r, ('result', True))
                yield ('attempt(restore(%s at %d), Err)' % (self.slot_name(i), slots[i]), ('act', True, ('restore', i)), c_again(back))

    def callback_to(self, eng, st, f, args, dest, target):
        if f[0] != 'act':
            raise Unknown('call of ' + show(f))
        # the function of the client: calls methods of the stream it is given
        blocks = []
        for n, a in enumerate(f[2:]):
            more = [] if a == 'advance' else [['c', [8, []]]]
            blocks.append(dict(s=[['=', [4, []], ['ref', True, [1, [['*']]]], 'the client']],
                               t=['call', ['c', [6 if a == 'advance' else 7, []]], [['m', [4, []]]] + more, [5, []], n + 1, None], l='the client', cl=False))
        blocks.append(dict(s=[['=', [0, []], ['use', ['c', [9, []]]], 'the client']], t=['return'], l='the client', cl=False))
        body = dict(argc=1, locals=[], blocks=blocks, key='client', path='the client', name='client', crate='client', off=0, tgen=[], promoted=[],
                    heads=set(), back=set())
        eng.push(st, body, [args[0]], dest, target, {})
        fr = st.frames[-1]
        fr.locals[6] = self.method_value(eng, 'advance')
        fr.locals[7] = self.method_value(eng, 'restore')
        for a in f[2:]:
            if a != 'advance':
                fr.locals[8] = vref(st.heap[1 + a[1]])
        fr.locals[9] = (err if f[1] else ok)(('result', f[1]))
        raise Pushed()

    def method_value(self, eng, name):
        k = ('method', name)
        if k not in eng.fnids:
            eng.fnids[k] = len(eng.fninfo)
            eng.fninfo.append(dict(d=self.methods[name], name=name, path=name, types=None, a=[]))
        return ('fn', eng.fnids[k])


class LongLayer(StreamLayer):
    """single long histories: what depends on how many tokens were read, how far back a saved
    position lies, or how many positions were saved, has nowhere to hide below a threshold"""
    script = ()
    delay = 1000
    room = True
    strides = tuple(range(200)) + (200,)
    limit = 3

    def iter_next(self, eng, st, base, path, v, back):
        st.ghost['more'] = True
        r = StreamLayer.iter_next(self, eng, st, base, path, v, back)
        st.ghost.pop('more', None)
        return r

    def drops(self, st, i):
        pass

    def capacity(self, eng, st, v):
        for w, room in st.ghost['cap']:
            if w == v:
                break
        else:
            room = self.room
            st.ghost['cap'] += ((v, room),)
        n = list_len(v)
        return lin.add(n, num(1)) if room else n

    def explore(self):
        for step in self.script:
            if self.problems:
                break
            st = self.queue.popleft()
            if self.queue:
                raise Unknown('several outcomes of ' + self.last(st))
            if step[0] == 'room':
                self.room = step[1]
                self.queue.append(st)
                continue
            self.visited.clear()
            if step[0] == 'drop':
                key, s = self.canonical(self.dropped(st, st.ghost['slots'].index(step[1])))
                self.queue.append(s)
                continue
            slots = st.ghost['slots']
            free = [i for i in range(self.saves) if slots[i] is None]
            kind = step[0]
            if kind == 'look':
                names = ['token()', 'span()', 'index()', 'location()', 'eof()']
            elif kind == 'save':
                names = ['%s = save()' % self.slot_name(free[0])]
            elif kind == 'save_at':
                names = ['%s = save_at(%d)' % (self.slot_name(free[0]), step[1])]
            elif kind in ('restore', 'attempt'):
                names = [('attempt(restore(%s at %d), Err)' if kind == 'attempt' else 'restore(%s at %d)') % (self.slot_name(slots.index(step[1])), step[1])]
            elif kind == 'at':
                names = [f % self.slot_name(slots.index(step[1])) for f in ('token_at(%s)', 'location_at(%s)', 'index_at(%s)')]
            else:
                names = ['advance()'] if kind == 'advance' else ['advance_to(%d)' % step[1]]
            n = 0
            for w in names:
                st.ghost['before'] = st.ghost['asked']
                for name, args, check, method in self.ops(st):
                    if name == w:
                        break
                else:
                    if kind == 'at':
                        continue
                    raise Unknown('no operation ' + w)
                s = st.copy()
                s.ghost['hist'] = (name, st.ghost['hist'])
                self.call(s, method, args, check)
                n += 1
                if len(self.queue) != 1:
                    if self.problems:
                        return
                    raise Unknown('%d outcomes of %s' % (len(self.queue), name))
                if w != names[-1]:
                    st = self.queue.popleft()
                    self.visited.clear()
            self.finals += n


def c_again(check):
    def f(s, r):
        s.ghost['again'] = True
        return check(s, r)
    return f



def _o(**k):
    return dict(cls=StreamLayer, **k)


N = 130
AHEAD = [('save',)] + [('look',), ('advance',)] * N
BACK = [('at', 0), ('look',), ('restore', 0), ('look',), ('advance_to', N), ('look',), ('restore', 0)] + [('advance',)] * N + [('look',), ('drop', 0), ('advance',), ('look',)]
MANY = [x for i in range(40) for x in (('save',), ('advance',))]
UNDO = [x for i in range(39, -1, -3) for x in (('at', i), ('restore', i), ('look',), ('drop', i), ('advance',))]
DEAD = [x for i in range(140) for x in (('save',), ('drop', 0))]
WALK = [x for i in range(N) for x in (('save',), ('advance',), ('drop', i))]


def _long(name, script, room, **k):
    return ('stream.long_' + name, [], None, dict(cls=LongLayer, script=tuple(script), room=room, length=2 * N + 10, cost=3, **k))


LONG = [
    _long('back_room', AHEAD + BACK, True, saves=1),
    _long('back_full', AHEAD + BACK, False, saves=1),
    _long('many_room', MANY + UNDO, True, saves=40),
    _long('many_full', MANY + UNDO, False, saves=40),
    _long('many_oldest', MANY + [x for i in range(39) for x in (('drop', i), ('advance',), ('at', i + 1))] + [('restore', 39), ('look',)], False, saves=40),
    _long('many_back', MANY + [('restore', 0), ('save',), ('drop', 0), ('advance_to', 70), ('look',), ('at', 0), ('restore', 0), ('look',)], False, saves=41),
    _long('dead', DEAD + [('room', False), ('save',), ('advance',), ('look',)], True, saves=1),
    _long('walk', WALK + [('room', False), ('save',), ('advance',), ('look',), ('at', N)], True, saves=1),
    _long('ahead', [('save_at', N), ('look',), ('at', N), ('restore', N), ('look',), ('drop', N), ('room', False), ('advance',), ('look',)], True, saves=1),
    _long('ahead_full', [('save_at', N), ('look',), ('at', N), ('attempt', N), ('restore', N), ('look',)], False, saves=1),
]
SCN = LONG + [
    ('stream.one_save', [], None, _o(length=5, saves=1, spare=1, cost=5)),
    ('stream.one_save_room', [], None, _o(length=4, saves=1, spare=2, cost=5)),
    ('stream.two_saves', [], None, _o(length=3, saves=2, spare=1, cost=9)),
    ('stream.two_saves_full', [], None, _o(length=4, saves=2, spare=0, cost=9)),
    ('stream.three_saves', [], None, _o(length=2, saves=3, spare=0, cost=9)),
    ('stream.with_location', [], None, _o(length=2, saves=1, spare=1, with_location=True)),
]
