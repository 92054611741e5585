"""Token containers (C31): every implementation of Container in the crate."""
from lin import num, add, sub
from interp import Infeasible, UNIT, Unknown, Violation, is_opaque, mk_list, show, vref
from layer import Layer, Missing, CONTAINER
from entryspec import new_cell
from specs import Ctx

ZERO = num(0)
SELF, STR, ITEMS, NI = ('SELF',), ('STR',), ('ITEMS',), ('#nitems',)


class ContLayer(Layer):
    delay = 2

    def __init__(self, *a):
        Layer.__init__(self, *a)
        self.hooks['shims::sink'] = self.sink

    def initial(self, eng):
        st = Layer.initial(self, eng)
        st.ghost['spos'] = ZERO
        st.assume(NI)
        st.assume(('#nchars', STR))
        return st

    def sink(self, eng, st, info, args, dest, target):
        x = eng.strip(st, args[0])
        i = st.ghost['spos']
        l = self.want
        if not eng.ge0(st, sub(sub(self.count, i), num(1))):
            self.problem(eng, st, ('container',), 'yields %s after all items' % show(x))
            raise Infeasible()
        w = eng.strip(st, eng.list_get(st, l, i))
        if not eng.same(st, x, w):
            self.problem(eng, st, ('container',), 'yields %s where %s is due' % (show(x), show(w)))
            raise Infeasible()
        st.ghost['spos'] = add(i, num(1))
        return UNIT


def shape(prog, t):
    """(self value, expected items, number of items) for a self type, or None"""
    if t['k'] == 'ref':
        s = shape(prog, prog.types[t['e']])
        return s and (vref(s[0]), s[1], s[2])
    if t['k'] == 'param':
        return SELF, ('l', (('e', SELF),)), num(1)
    if t['k'] == 'str' or t['k'] == 'adt' and t['d'] == 'alloc::string::String':
        n = ('#nchars', STR)
        return STR, mk_list([('x', ('chars', STR), ZERO, n)]), n
    if t['k'] in ('slice', 'array') or t['k'] == 'adt' and t['d'] in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
        n = ('#const', 'N') if t['k'] == 'array' and t.get('len') is None else num(t['len']) if t['k'] == 'array' else NI
        l = mk_list([('x', ITEMS, ZERO, n)])
        return l, l, n
    if t['k'] == 'adt' and t['d'] in ('alloc::boxed::Box', 'alloc::rc::Rc'):
        return shape(prog, prog.types[t['a'][0]])
    return None


def DRIVE(l, eng, st, vals):
    st.ghost['spos'] = ZERO
    return 'shims::drive', [new_cell(l, eng, st, eng.resolve(st, vals[-1]))], None


def cont_spec(l, eng, st, vals):
    c = Ctx(l, eng, st, vals)
    if not c.same_int(st.ghost['spos'], l.count):
        c.bad('container', 'ends after %s of %s items' % (show(st.ghost['spos']), show(l.count)))
    c.flush()


def mid_check(get):
    """start over; the first pass has to be complete"""
    def f(l, eng, st, vals):
        cont_spec(l, eng, st, vals)
        return get(l, eng, st, vals)
    return f


def containers(prog, run):
    out = []
    ims = prog.impl_ix.get((CONTAINER, 'get_iter'), [])
    if not ims:
        raise Missing(CONTAINER)
    for t, key, im in ims:
        s = shape(prog, t)
        name = 'container.%s as %s' % (t['s'], prog.types[im['trait_args'][1]]['s'])
        if s is None:
            out.append(dict(name=name, problems=[], undecided=[('no model of ' + t['s'], '')], counts={}, functions=[]))
            continue
        me, want, n = s
        get = lambda l, eng, st, vals, key=key, me=me: (key, [vref(me)], None)
        out.append(run((name, 'container', [get, DRIVE, mid_check(get), DRIVE], cont_spec, dict(cls=ContLayer, want=want, count=n))))
    return out
