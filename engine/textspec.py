"""Rendered messages (C33): what the Display implementations of the crate write, as a sequence of
literal texts and of displays of opaque values, on every path."""
import re
from lin import num, const
from interp import Engine, State, Pushed, Unknown, Split, NONE, UNIT, some, ok, vref, lst, show, is_int, is_opaque
from layer import AT, CR, Layer, Missing, variant
from natives import HASHSET, NATIVES
from errspec import SIMPLE, VARIANTS, at, variant_of

DISPLAY = 'core::fmt::Display'
DEBUG = 'core::fmt::Debug'
ALTERNATE = 1 << 23
LOC = CR + '::location::'


def decode(bs):
    """the pieces of a format template: ('lit', text) or ('arg', index, alternate, cut)"""
    out, i, n = [], 0, 0
    while True:
        b = bs[i]
        i += 1
        if b == 0:
            return out
        if b < 0x80:
            out.append(('lit', bytes(bs[i:i + b]).decode()))
            i += b
        elif b == 0x80:
            k = bs[i] | bs[i + 1] << 8
            out.append(('lit', bytes(bs[i + 2:i + 2 + k]).decode()))
            i += 2 + k
        else:
            alt = False
            if b & 1:
                alt = bool(int.from_bytes(bytes(bs[i:i + 4]), 'little') & ALTERNATE)
                i += 4
            if b & 2:
                i += 2
            cut = bool(b & 4)
            if cut:
                i += 2
            if b & 8:
                n = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(('arg', n, alt, cut))
            n += 1


def pieces(eng, st, v):
    """the text of a string value"""
    v = eng.strip(st, v)
    while not isinstance(v, bool) and v[0] == 'rc':
        v = eng.strip(st, st.heap[v[1]])
    if not isinstance(v, bool):
        if v[0] == 'str':
            return (('lit', v[1]),)
        if v[0] == 'text':
            return v[1]
        if v[0] == 'tostr':
            return (('disp', v[1]),)
        if v[0] == 'fmtargs':
            return None
    return (('disp', v),)


class FmtLayer(Layer):
    track_drops = False
    delay = 60

    def __init__(self, *a):
        Layer.__init__(self, *a)
        self.hooks.update({'#lit': self.h_lit, '#disp': self.h_disp})

    def run(self):
        eng = Engine(self.prog, self)
        eng.natives = dict(NATIVES)
        for k in dir(self):
            if k.startswith('n_'):
                eng.natives[k[2:]] = getattr(self, k)
        eng.trait_natives = dict(eng.trait_natives)
        eng.trait_natives['alloc::string::ToString::to_string'] = self.to_string
        self.eng = eng
        st = self.initial(eng)
        h = st.alloc(('text', ()))
        st.ghost['out'] = h
        st.ghost['fmt'] = ('r', ('H', st.alloc(('fmtr', h, self.alternate))), ())
        self.next_phase(eng, st)
        eng.run(st)
        return eng

    alternate = False

    def script(self, eng, st, calls, final, dest, target):
        """push a frame that makes these calls, one after the other, and returns the final value"""
        blocks = []
        vals = {}
        for n, (hook, args) in enumerate(calls):
            k = 10 + 8 * n
            if ('hook', hook) not in eng.fnids:
                eng.fnids[('hook', hook)] = len(eng.fninfo)
                eng.fninfo.append(dict(d=hook, name=hook, path=hook, types=None, a=[]))
            vals[k] = ('fn', eng.fnids[('hook', hook)])
            for j, a in enumerate(args):
                vals[k + 1 + j] = a
            blocks.append(dict(s=[], t=['call', ['c', [k, []]], [['c', [k + 1 + j, []]] for j in range(len(args))], [1, []], n + 1, None], l='fmt', cl=False))
        vals[2] = final[1]
        blocks.append(dict(s=[['=', [0, []], ['use', ['c', [2, [['*']] if final[0] == 'at' else []]]], 'fmt']], t=['return'], l='fmt', cl=False))
        body = dict(argc=0, locals=[], blocks=blocks, key='shims::write', path='write', name='write', crate='shims', off=0, tgen=[], promoted=[],
                    heads=set(), back=set())
        eng.push(st, body, [], dest, target, {})
        st.frames[-1].locals.update(vals)
        raise Pushed()

    def formatter(self, eng, st, a):
        v = eng.strip(st, a)
        if v[0] != 'fmtr':
            raise Unknown('not a formatter: ' + show(v))
        return v

    def add(self, eng, st, f, ps):
        h = self.formatter(eng, st, f)[1]
        st.heap[h] = ('text', st.heap[h][1] + tuple(ps))

    def h_lit(self, eng, st, info, args, dest, target):
        self.add(eng, st, args[0], pieces(eng, st, args[1]))
        return ok(UNIT)

    def h_disp(self, eng, st, info, args, dest, target):
        v = eng.strip(st, args[1])
        while not isinstance(v, bool) and v[0] == 'rc':
            v = eng.strip(st, st.heap[v[1]])
        if not isinstance(v, bool) and v[0] == 'a':
            ks = self.prog.find_impl(DISPLAY, 'fmt', v[1])
            if len(ks) != 1:
                raise Unknown('display of ' + show(v))
            eng.push_body(st, ks[0], [vref(v), args[0]], dest, target, {})
            raise Pushed()
        if not isinstance(v, bool) and v[0] == 'fmtargs':
            return self.write_args(eng, st, args[0], v, dest, target)
        self.add(eng, st, args[0], pieces(eng, st, v))
        return ok(UNIT)

    def write_args(self, eng, st, f, v, dest, target, final=('val', ok(UNIT))):
        h = self.formatter(eng, st, f)[1]
        calls = []
        for p in v[1]:
            if p[0] == 'lit':
                calls.append(('#lit', (f, ('str', p[1]))))
            else:
                g = ('r', ('H', st.alloc(('fmtr', h, p[2]))), ())
                calls.append(('#disp', (g, p[1])))
        self.script(eng, st, calls, final, dest, target)

    # ------------------------------------------------------- std::fmt
    def n_argument_new_display(self, eng, st, info, args, dest, target):
        return ('fmtarg', eng.resolve(st, args[0]))

    def n_arguments_from_str(self, eng, st, info, args, dest, target):
        return ('fmtargs', tuple(pieces(eng, st, args[0])))

    def n_arguments_new(self, eng, st, info, args, dest, target):
        t = eng.strip(st, args[0])
        if t[0] == 'deref':
            t = t[1]
        if t[0] != 'bytes':
            raise Unknown('format template ' + show(t))
        l = eng.as_list(st, args[1])
        out = []
        for p in decode(t[1]):
            if p[0] == 'lit':
                out.append(p)
                continue
            a = l[1][p[1]][1]
            if a[0] != 'fmtarg':
                raise Unknown('format argument ' + show(a))
            out.append(('arg', ('cut', eng.strip(st, a[1])) if p[3] else a[1], p[2]))
        return ('fmtargs', tuple(out))

    def n_arguments_as_str(self, eng, st, info, args, dest, target):
        raise Unknown('Arguments::as_str')

    def n_formatter_write_fmt(self, eng, st, info, args, dest, target):
        self.write_args(eng, st, args[0], eng.strip(st, args[1]), dest, target)

    def n_formatter_write_str(self, eng, st, info, args, dest, target):
        return self.h_lit(eng, st, info, args, dest, target)

    n_formatter_pad = n_formatter_write_str

    def n_formatter_alternate(self, eng, st, info, args, dest, target):
        return self.formatter(eng, st, args[0])[2]

    def text_of(self, eng, st, v, dest, target):
        """the string a formatter ends up with"""
        h = st.alloc(('text', ()))
        f = ('r', ('H', st.alloc(('fmtr', h, False))), ())
        self.script(eng, st, [('#disp', (f, v))], ('at', ('r', ('H', h), ())), dest, target)

    def to_string(self, eng, st, info, args, dest, target):
        v = eng.strip(st, args[0])
        if isinstance(v, bool) or v[0] in ('a', 'rc', 'fmtargs'):
            self.text_of(eng, st, v, dest, target)
        return ('text', pieces(eng, st, v))

    def n_fmt_format(self, eng, st, info, args, dest, target):
        self.text_of(eng, st, args[0], dest, target)

    n_fmt_format_inner = n_fmt_format

    # ----------------------------------------------------------- strings
    def n_string_new(self, eng, st, info, args, dest, target):
        return ('text', ())

    n_string_with_capacity = n_string_new

    def n_string_from(self, eng, st, info, args, dest, target):
        return ('text', pieces(eng, st, args[0]))

    def n_string_push_str(self, eng, st, info, args, dest, target):
        r = eng.resolve(st, args[0])
        old = eng.read(st, r[1], r[2])
        eng.write(st, r[1], r[2], ('text', pieces(eng, st, old) + pieces(eng, st, args[1])))
        return UNIT

    def n_hint_must_use(self, eng, st, info, args, dest, target):
        return args[0]

    def n_string_as_str(self, eng, st, info, args, dest, target):
        return args[0]

    def n_slice_join(self, eng, st, info, args, dest, target):
        out = ()
        for n, s in enumerate(eng.as_list(st, args[0])[1]):
            if s[0] != 'e':
                raise Unknown('join of ' + show(s))
            out += (pieces(eng, st, args[1]) if n else ()) + pieces(eng, st, s[1])
        return ('text', out)

    n_slice_concat = lambda self, eng, st, info, args, dest, target: self.n_slice_join(eng, st, info, [args[0], ('str', '')], dest, target)

    def trait_call(self, eng, st, info, args, dest, target):
        trait, name = info['trait'], info['name']
        if trait == DISPLAY and name == 'fmt':
            return self.h_disp(eng, st, info, [args[1], args[0]], dest, target)
        if trait == 'core::fmt::Write':
            w = eng.strip(st, args[0])
            if w[0] == 'fmtr':
                if name == 'write_str':
                    return self.h_lit(eng, st, info, args, dest, target)
                if name == 'write_fmt':
                    self.write_args(eng, st, args[0], eng.strip(st, args[1]), dest, target)
            raise Unknown('fmt::Write::%s on %s' % (name, show(w)))
        if trait.endswith('::AddAssign'):
            return self.n_string_push_str(eng, st, info, args, dest, target)
        if trait.endswith('::Add'):
            return ('text', pieces(eng, st, args[0]) + pieces(eng, st, args[1]))
        if trait in ('core::convert::From', 'core::convert::Into'):
            return ('text', pieces(eng, st, args[0]))
        return Layer.trait_call(self, eng, st, info, args, dest, target)

    def adt_of(self, eng, st, v):
        return None


def show_text(ps):
    return ''.join(p[1] if p[0] == 'lit' else '{%s}' % show(p[1]) for p in ps)


def spec(facts, ends):
    """the values displayed, in order (a set stands for all orders), and how often the end of input has to be named"""
    def f(layer, eng, st, vals):
        got = st.heap[st.ghost['out']][1]
        text = show_text(got)
        shown = [p[1] for p in got if p[0] == 'disp']
        want = []
        for x in facts:
            want += sorted(x, key=repr) if isinstance(x, (set, frozenset)) else [x]
        norm = []
        i = 0
        for x in facts:
            n = len(x) if isinstance(x, (set, frozenset)) else 1
            norm += sorted(shown[i:i + n], key=repr) if isinstance(x, (set, frozenset)) else shown[i:i + n]
            i += n
        norm += shown[i:]
        if norm != want:
            layer.problem(eng, st, ('text',), 'the message %r does not state %s in this order, each once' % (text, ', '.join(show(x) for x in want) or 'nothing'))
        for a, b in zip(got, got[1:]):
            if a[0] == b[0] == 'disp':
                layer.problem(eng, st, ('text',), 'the message %r runs %s and %s together' % (text, show(a[1]), show(b[1])))
        lits = ' '.join(p[1] for p in got if p[0] == 'lit')
        n = len(re.findall(r'(?i)eof|\bend\b|nothing|no more', lits))
        if n < ends:
            layer.problem(eng, st, ('text',), 'the message %r names the end of input %d times instead of %d' % (text, n, ends))
        r = st.ret
        if r != ok(UNIT):
            layer.problem(eng, st, ('text',), 'writing succeeds, but the result is ' + show(r))
    return f


def phase(adt, value):
    def f(layer, eng, st, vals):
        return layer.api.impl(DISPLAY, 'fmt', adt), [vref(value(layer)), st.ghost['fmt']], None
    return [f]


def rich(name, tag):
    """a value of one of the public structs, by field name"""
    def f(l):
        adt = LOC + name
        if adt not in l.prog.adts:
            raise Missing(adt)
        out = []
        for fd in l.prog.adts[adt]['variants'][0]['fields']:
            n = fd['name']
            if n in ('from', 'to'):
                out.append(rich('RichOffset', n + '.')(l))
            elif n == 'offset' and name == 'RichLocation':
                out.append(rich('RichOffset', '')(l))
            elif n == 'filename':
                out.append(('file',))
            else:
                out.append(('#' + tag + n,))
        return ('a', adt, 0, tuple(out))
    return f


def error_of(kind, fields):
    return lambda l: ('a', SIMPLE, variant_of(l, kind), tuple(x(l) if callable(x) else x for x in fields))


SCN = []


def add(name, adt, value, facts, ends=0, **k):
    SCN.append(('text.' + name, phase(adt, value), spec(facts, ends), dict(cls=FmtLayer, **k)))


def where(kind, tag):
    return [] if kind == 'None' else [(tag + kind,)]


def A(kind, tag):
    return lambda l: at(l, kind, tag)


for _k in ('None', 'Location', 'Span'):
    for _alt in (False, True):
        add('at_%s%s' % (_k, '_alternate' if _alt else ''), AT, A(_k, 'A'), where(_k, 'A'), alternate=_alt)
    add('left_%s' % _k, SIMPLE, error_of('UnmatchedLeftDelimiter', [('LT',), ('LS',), A(_k, 'A')]), [('LT',), ('LS',)] + where(_k, 'A'))
    add('right_%s' % _k, SIMPLE, error_of('UnmatchedRightDelimiter', [('RT',), ('RS',), A(_k, 'A')]), [('RT',), ('RS',)] + where(_k, 'A'))
    add('custom_%s' % _k, SIMPLE, error_of('Custom', [('MSG',), A(_k, 'A')]), [('MSG',)] + where(_k, 'A'))
    for _n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 20, 40):
        for _none in (None,) + tuple(range(_n) if _n < 8 else (0, 1, _n // 2, _n - 1)):
            for _found in (True, False):
                _items = [NONE if i == _none else some(('X%d' % i,)) for i in range(_n)]
                _facts = [frozenset(('X%d' % i,) for i in range(_n) if i != _none)] + ([('FOUND',)] if _found else []) + where(_k, 'A')
                add('expected_%d%s%s_%s' % (_n, '' if _none is None else '_end_at_%d' % _none, '_found' if _found else '_at_end', _k), SIMPLE,
                    error_of('ExpectedFound', [('a', HASHSET, 0, (lst(*_items),)), some(('FOUND',)) if _found else NONE, A(_k, 'A')]),
                    _facts, (_none is not None) + (not _found))
add('delimiter_type', SIMPLE, error_of('UnmatchedDelimiterType', [('LT',), ('LS',), ('RT',), ('RS',)]), [('LT',), ('LS',), ('RT',), ('RS',)])
add('rich_offset', LOC + 'RichOffset', rich('RichOffset', ''), [('#row',), ('#column',)])
add('rich_location', LOC + 'RichLocation', rich('RichLocation', ''), [('file',), ('#row',), ('#column',)])
add('rich_span', LOC + 'RichSpan', rich('RichSpan', ''), [('file',), ('#from.row',), ('#from.column',), ('#to.row',), ('#to.column',)])
