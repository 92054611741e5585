"""Recursive parsers (C27): declaration, definition, clones, re-entrance, misuse."""
from lin import num
from interp import vref, show
from layer import Layer, CR, PARSER, START, Missing
from specs import *

RECURSIVE = CR + '::recursive::Recursive'
A, B_, F = ('A',), ('B',), ('F',)


def declare(l, eng, st, vals):
    return l.api.inherent(RECURSIVE, 'declare'), [], None


def define(i, what):
    """define the recursive parser that phase i made"""
    def f(l, eng, st, vals):
        cells = dict(st.ghost.get('defs', ()))
        if i not in cells:
            cells[i] = ('r', ('H', st.alloc(vals[i])), ())
            st.ghost['defs'] = tuple(cells.items())
        return l.api.inherent(RECURSIVE, 'define'), [cells[i], what(vals) if callable(what) else what], None
    return f


def clone(i):
    def f(l, eng, st, vals):
        ks = l.prog.find_impl('core::clone::Clone', 'clone', RECURSIVE)
        if len(ks) != 1:
            raise Missing('Clone for Recursive')
        return ks[0], [vref(vals[i])], None
    return f


def parse(i, drop=None):
    def f(l, eng, st, vals):
        if drop is not None:
            cells = dict(st.ghost.get('defs', ()))
            c = cells.get(drop)
            eng.drop_value(st, eng.read(st, c[1], c[2]) if c else vals[drop])
        v = eng.resolve(st, vals[i])
        st.ghost['pos'] = START
        st.events = ()
        return l.api.impl(PARSER, 'parse_internal', v[1]), [vref(v), l.stream_ref(), REC], None
    return f


def must_panic(layer, eng, st, vals):
    layer.problem(eng, st, ('misuse',), 'does not panic')


def _ok(layer, eng, st, msg):
    return st.ghost['phase'] == len(layer.phases) - 1 and not any(e[0] == 'run' for e in st.events)


must_panic.on_panic = _ok


class Shallow(Layer):
    """the opaque part fails from the third run on: bounded recursion depth"""
    def kind_facts(self, eng, st, A, p, rec, k):
        runs = [e for e in st.events if e[0] == 'run']
        if len(runs) >= 3 and k != 'F':
            return False
        return Layer.kind_facts(self, eng, st, A, p, rec, k)


def nested(c):
    """r = A then r: runs A until it fails"""
    rec = c.rec()
    p = START
    while True:
        r = c.run(A, p, rec)
        if r.kind == 'F':
            return Exp('F', fi=r.fi, errs=r.errs)
        p = r.end


def unit(l, eng, st, vals):
    return None


SCN = [
    ('recursive.clone_before', [declare, clone(0), define(0, A), parse(1)], map_spec(A)),
    ('recursive.clone_after', [declare, define(0, A), clone(0), parse(2)], map_spec(A)),
    ('recursive.original', [declare, clone(0), define(0, A), parse(0)], map_spec(A)),
    ('recursive.define_clone', [declare, clone(0), define(1, A), parse(0)], map_spec(A)),
    ('recursive.again', [declare, define(0, A), parse(0), parse(0)], map_spec(A)),
    ('recursive.only_clone_left', [declare, clone(0), define(0, A), parse(1, drop=0)], map_spec(A)),
    ('recursive.fn', [FN('recursive::recursive', F), parse(0)], None),
    ('recursive.undefined', [declare, parse(0)], must_panic),
    ('recursive.twice', [declare, define(0, A), define(0, B_)], must_panic),
    ('recursive.twice_clone', [declare, clone(0), define(0, A), define(1, B_)], must_panic),
]
