"""The nested delimiter scanner (C19): every sequence of delimiters up to a length, for every way
the delimiters of a table can coincide, against the definition of balanced scanning."""
from lin import num
from interp import Pushed, Unknown, lst, show, vref
from layer import AT, CR, Layer, Missing, SCANNER, variant
from specs import Ctx

L, R = (lambda i: ('L', ('#t', i))), (lambda i: ('R', ('#t', i)))


def partitions(xs):
    if not xs:
        yield []
        return
    for p in partitions(xs[1:]):
        yield [[xs[0]]] + p
        for i in range(len(p)):
            yield p[:i] + [[xs[0]] + p[i]] + p[i + 1:]


class DelimLayer(Layer):
    delay = 40
    table = ()       # per type: (class of the left, class of the right delimiter)
    length = 5       # tokens
    others = 1       # of which take no part
    script = None    # the tokens, if they are given
    max_states = 6000000

    def cls(self, st, v):
        if v[0] == 'L':
            return self.table[v[1][1]][0]
        if v[0] == 'R':
            return self.table[v[1][1]][1]
        if v[0] == 'D':
            return st.ghost['cls'][v[1][1]]
        return None

    def range_pred(self, eng, st, atom):
        if atom[0] == 'eq':
            a, b = self.cls(st, atom[1]), self.cls(st, atom[2])
            if a is not None and b is not None:
                return a == b and a != 'other'
        return None

    def initial(self, eng):
        st = Layer.initial(self, eng)
        st.ghost.update(cls=(), stack=(), want=(), errs=None, sc=None, after='build')
        st.heap[st.fresh] = lst()
        st.ghost['errs'] = ('r', ('H', st.fresh), ())
        st.fresh += 1
        return st

    def next_phase(self, eng, st):
        ts = lst(*[('t', (L(i), R(i))) for i in range(len(self.table))])
        eng.push_body(st, self.api.fn('scanner::nested_delimiters'), [vref(ts)], None, None, None)

    def on_return(self, eng, st):
        ret = st.ret
        after = st.ghost['after']
        if after == 'build':
            st.frames.pop()
            st.ghost['after'] = 'make'
            try:
                eng.call_value(st, ret, [], None, None)
            except Pushed:
                pass
            return [st]
        c = Ctx(self, eng, st, (ret,))
        if after == 'make':
            h = st.fresh
            st.fresh += 1
            st.heap[h] = eng.resolve(st, ret)
            st.ghost['sc'] = ('r', ('H', h), ())
        elif after == 'scan':
            stop = ret if isinstance(ret, bool) else eng.pred(st, ret)
            if stop != (not st.ghost['stack']):
                c.bad('delim', '%s at token %d of %s with %d delimiters open' % ('stops' if stop else 'goes on', len(st.ghost['cls']), self.text(st), len(st.ghost['stack'])))
            self.check_errors(c)
            c.flush()
            if c.found or stop:
                self.finals += 1
                return []
        else:
            self.check_errors(c)
            c.flush()
            self.finals += 1
            return []
        return self.next_token(eng, st)

    def text(self, st):
        if len(st.ghost['cls']) > 12:
            return '%s ... %s' % (' '.join(st.ghost['cls'][:5]), ' '.join(st.ghost['cls'][-5:]))
        return ' '.join(str(x) for x in st.ghost['cls'])

    def check_errors(self, c):
        st = c.st
        got = c.eng.as_list(st, c.eng.read(st, st.ghost['errs'][1], ()))
        want = st.ghost['want']
        if want is None:
            return
        if len(got[1]) != len(want) or not all(s[0] == 'e' and c.same(s[1], w) for s, w in zip(got[1], want)):
            c.bad('delim', 'errors after %s are %s instead of %s' % (self.text(st), show(got), show(lst(*want))))

    def at(self, kind, *a):
        return ('a', AT, variant(self.prog, AT, kind), a)

    def next_token(self, eng, st):
        n = len(st.ghost['cls'])
        sc = st.ghost['sc']
        adt = eng.read(st, sc[1], ())[1]
        if n and (n == self.length or not self.script and eng.pred(st, ('eof', ('#n', n)))):
            w = st.ghost['want']
            if w is not None:
                for i, tok, span in reversed(st.ghost['stack']):
                    w += (('err', 'unmatched_left_delimiter', tok, span, self.at('Location', ('loc', 'end'))),)
            st.ghost['want'] = w
            st.frames.pop()
            st.ghost['after'] = 'eof'
            eng.push_body(st, self.api.impl(SCANNER, 'eof', adt), [sc, ('loc', 'end'), st.ghost['errs']], None, None, None)
            return [st]
        kinds = sorted(set(x for t in self.table for x in t))
        if not n:
            kinds = sorted(set(t[0] for t in self.table))     # it starts at a left delimiter
        elif sum(x == 'other' for x in st.ghost['cls']) < self.others:
            kinds.append('other')
        if self.script:
            k = self.script[n]
        else:
            for k in kinds[:-1]:
                if eng.pred(st, ('token', ('#n', n), k)):
                    break
            else:
                k = kinds[-1]
        tok, span = ('D', ('#n', n)), ('spn', n)
        st.ghost['cls'] += (k,)
        self.reference(st, k, tok, span)
        st.frames.pop()
        st.ghost['after'] = 'scan'
        eng.push_body(st, self.api.impl(SCANNER, 'scan', adt), [sc, tok, span, st.ghost['errs']], None, None, None)
        return [st]

    def reference(self, st, k, tok, span):
        stack, want = st.ghost['stack'], st.ghost['want']
        if stack and self.table[stack[-1][0]][1] == k:
            stack = stack[:-1]
        elif any(t[0] == k for t in self.table):
            stack += (([t[0] for t in self.table].index(k), tok, span),)
        elif any(t[1] == k for t in self.table):
            if any(self.table[i][1] == k for i, _, _ in stack):
                while self.table[stack[-1][0]][1] != k:
                    _, t2, s2 = stack[-1]
                    stack = stack[:-1]
                    want += (('err', 'unmatched_left_delimiter', t2, s2, self.at('Span', span)),)
                stack = stack[:-1]
            else:
                _, t2, s2 = stack[-1]
                stack = stack[:-1]
                want += (('err', 'unmatched_delimiter_type', t2, s2, tok, span),)
        st.ghost['stack'], st.ghost['want'] = stack, want


SCN = []


def add(name, table, **o):
    SCN.append(('delimiters.' + name, [], None, dict(cls=DelimLayer, table=table, **o)))


def table_of(p, m):
    names = {x: 'abcdefgh'[i] for i, b in enumerate(p) for x in b}
    return tuple((names['L%d' % i], names['R%d' % i]) for i in range(m))


for _i, _p in enumerate(partitions(['L0', 'R0'])):
    add('one_%d' % _i, table_of(_p, 1), length=7)
for _i, _p in enumerate(partitions(['L0', 'R0', 'L1', 'R1'])):
    add('two_%d' % _i, table_of(_p, 2), length=6)
add('three', (('a', 'b'), ('c', 'd'), ('e', 'f')), length=6, others=0)
add('three_shared_end', (('a', 'x'), ('b', 'x'), ('c', 'd')), length=6, others=0)


# single long scans, so that no constant limit on depth, length or number of types hides anything
def script(name, table, s, **o):
    add(name, table, script=tuple(s), length=len(s), delay=2000, **o)


def wide(n):
    return tuple(('(%d' % i, ')%d' % i) for i in range(n))


_o = ['(%d' % (i * 5 % 8) for i in range(40)]
_c = [')' + x[1:] for x in reversed(_o)]
script('deep_same', (('a', 'b'),), ['a'] * 130 + ['b'] * 130)
script('deep_end', (('a', 'b'), ('c', 'd')), ['a', 'c'] * 45)
script('deep_mixed', wide(8), _o + _c)
script('deep_outer', wide(9), ['(8'] + _o + [')8'])
script('deep_wrong', wide(9), _o + [')8'] * 40)
script('long_flat', (('a', 'b'), ('c', 'd')), ['a'] + ['c', 'other', 'd', 'other'] * 70 + ['b'])
script('many_wrong', (('a', 'b'), ('c', 'd')), ['a'] + ['a', 'd'] * 70 + ['b'])
script('wide', wide(300), ['(0', '(299', ')299', '(256', '(257', ')257', ')256', '(44', '(298', ')44', '(270', ')271', ')0'], round_limit=2000)
