"""Models of the std leaf operations (everything else in std is interpreted from the shims)."""
import lin
from lin import num, add, sub, const
from interp import (NARROW, UNIT, NONE, some, ok, err, vref, is_opaque, is_int, LESS, EQUAL, GREATER, Unknown, Panic, Pushed, Split,
                    list_len, mk_list, lst, seg_elem, show, OPTION, RESULT, subst_term)

NATIVES = {}
TRAIT_NATIVES = {}
HASHSET = 'std::collections::hash::set::HashSet'


def nat(*names):
    def f(g):
        for n in names:
            NATIVES[n] = g
        return g
    return f


def tnat(*names):
    def f(g):
        for n in names:
            TRAIT_NATIVES[n] = g
        return g
    return f


def shim(eng, st, name, args, dest, target):
    eng.push_body(st, 'shims::' + name, args, dest, target)
    raise Pushed()


def inner(eng, st, ref):
    """follow references and boxes: -> (base, path, value) of the innermost place"""
    ref = eng.resolve(st, ref)
    base, path, v = ('V', ref), (), ref
    while not isinstance(v, bool) and v[0] in ('r', 'box'):
        if v[0] == 'r':
            base, path = v[1], v[2]
        else:
            path = path + (('b',),)
        v = eng.read(st, base, path)
    return base, path, v


def lplace(eng, st, ref):
    base, path, v = inner(eng, st, ref)
    if v[0] == 'a' and v[1] == HASHSET:
        path = path + (('f', 0),)
        v = v[3][0]
    if v[0] != 'l':
        raise Unknown('list operation on ' + show(v))
    return base, path, v


# ------------------------------------------------------------------ vec etc.
@nat('vec_new', 'vec_with_capacity', 'vecdeque_new', 'vecdeque_with_capacity')
def vec_new(eng, st, info, args, dest, target):
    # whatever the items are, at least a byte each
    if args and eng.too_large(st, eng.resolve(st, args[0]), 1 << 63):
        raise Panic('capacity overflow')
    return lst()


@nat('hashset_new', 'hashset_with_capacity')
def set_new(eng, st, info, args, dest, target):
    return ('a', HASHSET, 0, (lst(),))


@nat('vec_push', 'vecdeque_push_back')
def vec_push(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    if st.frames and st.frames[-1].body['crate'] != 'shims':
        eng.cfg.on_grow(eng, st, v, args[1])
    eng.write(st, base, path, mk_list(v[1] + (('e', args[1]),)))
    return UNIT


def oneshot(eng, st, what):
    """an unconstrained choice (not remembered)"""
    c = st.ghost.pop('oneshot', None)
    if c is None:
        def setc(b):
            def f(s):
                s.ghost['oneshot'] = b
                return True
            return f
        raise Split([(what, setc(True)), ('not ' + what, setc(False))])
    return c


def in_set(eng, st, l, x):
    if any(s[0] == 'e' and eng.same(st, s[1], x) for s in l[1]):
        return True
    if not l[1]:
        return False
    return oneshot(eng, st, '%s is in the set' % show(x))


@nat('hashset_insert')
def set_insert(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    x = eng.resolve(st, args[1])
    eng.write(st, base, path, mk_list(v[1] + (('e', x),)))
    return ('isnew', x)


@nat('hashset_contains')
def set_contains(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    x = eng.strip(st, args[1])
    was = in_set(eng, st, v, x)
    if was and not any(s[0] == 'e' and s[1] == x for s in v[1]) and base[0] != 'V':
        # adding an item that is there changes nothing, so the set can be noted with it
        eng.write(st, base, path, mk_list(v[1] + (('e', x),)))
    elif was:
        # a set that is only seen through a shared reference: note what was found out
        st.ghost['inset'] = st.ghost.get('inset', ()) + ((v, x),)
    return was


@nat('hashset_is_empty')
def set_is_empty(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    return not eng.ge0(st, sub(list_len(v), num(1)))


@nat('vecdeque_push_front')
def push_front(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    if st.frames and st.frames[-1].body['crate'] != 'shims':
        eng.cfg.on_grow(eng, st, v, args[1])
    eng.write(st, base, path, mk_list((('e', args[1]),) + v[1]))
    return UNIT


def take_front(eng, st, v):
    """-> (element or None, rest)"""
    segs = list(v[1])
    while segs:
        s = segs[0]
        if s[0] == 'e':
            return s[1], ('l', tuple(segs[1:]))
        if eng.ge0(st, sub(sub(s[3], s[2]), num(1))):
            segs[0] = ('x', s[1], add(s[2], num(1)), s[3])
            return seg_elem(s[1], s[2]), mk_list(segs)
        segs.pop(0)
    return None, lst()


def take_back(eng, st, v):
    segs = list(v[1])
    while segs:
        s = segs[-1]
        if s[0] == 'e':
            return s[1], ('l', tuple(segs[:-1]))
        if eng.ge0(st, sub(sub(s[3], s[2]), num(1))):
            i = sub(s[3], num(1))
            segs[-1] = ('x', s[1], s[2], i)
            return seg_elem(s[1], i), mk_list(segs)
        segs.pop()
    return None, lst()


@nat('vec_pop', 'vecdeque_pop_back')
def vec_pop(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    x, rest = take_back(eng, st, v)
    eng.write(st, base, path, rest)
    return NONE if x is None else some(x)


@nat('vecdeque_pop_front')
def pop_front(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    x, rest = take_front(eng, st, v)
    eng.write(st, base, path, rest)
    return NONE if x is None else some(x)


@nat('vec_len', 'slice_len', 'vecdeque_len', 'hashset_len', 'str_len', 'string_len', 'iter_len')
def vec_len(eng, st, info, args, dest, target):
    v = eng.strip(st, args[0])
    if v[0] == 'a' and v[1] == HASHSET:
        # some of what was put in may be the same
        n, k = list_len(v[3][0]), ('#card', v[3][0])
        if const(n) is not None and const(n) < 2:
            return n
        if not eng.ge0(st, sub(n, num(1))):
            return num(0)
        st.assume(sub(k, num(1)))
        st.assume(sub(n, k))
        return k
    if v[0] == 'a' and v[1] == '#it':
        return list_len(v[3][1])
    if v[0] == 'a' and v[1].startswith('shims::'):
        return vec_len(eng, st, info, [vref(v[3][0])], dest, target)
    return eng.length(st, v)


@nat('vec_is_empty', 'slice_is_empty', 'vecdeque_is_empty', 'str_is_empty', 'string_is_empty')
def vec_is_empty(eng, st, info, args, dest, target):
    return not eng.ge0(st, sub(eng.length(st, args[0]), num(1)))


@nat('vec_capacity', 'vecdeque_capacity')
def capacity(eng, st, info, args, dest, target):
    v = eng.strip(st, args[0])
    c = eng.cfg.capacity(eng, st, v)
    if c is not None:
        return c
    c = ('#cap', v)
    st.assume(sub(c, eng.length(st, v)))
    return c


@nat('vec_reserve', 'vecdeque_reserve', 'vec_shrink_to_fit', 'vecdeque_shrink_to_fit', 'vec_reserve_exact')
def reserve(eng, st, info, args, dest, target):
    return UNIT


@nat('vec_clear', 'vecdeque_clear')
def clear(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    if eng.track_drops:
        eng.drop_value(st, v)
    eng.write(st, base, path, lst())
    return UNIT


@nat('vec_truncate', 'vecdeque_truncate')
def truncate(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    if eng.ge0(st, sub(args[1], list_len(v))):
        return UNIT
    a, b = eng.list_split(st, v, args[1])
    eng.write(st, base, path, a)
    return UNIT


@nat('vec_split_off', 'vecdeque_split_off')
def split_off(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    if not eng.ge0(st, sub(list_len(v), args[1])):
        raise Panic('split_off out of range')
    a, b = eng.list_split(st, v, args[1])
    eng.write(st, base, path, a)
    return b


@nat('vec_append', 'vecdeque_append')
def append(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    b2, p2, w = lplace(eng, st, args[1])
    eng.write(st, base, path, mk_list(v[1] + w[1]))
    eng.write(st, b2, p2, lst())
    return UNIT


@nat('vec_extend_from_slice')
def extend_from_slice(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    w = eng.as_list(st, args[1])
    eng.write(st, base, path, mk_list(v[1] + w[1]))
    return UNIT


@nat('vec_insert')
def insert(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    if not eng.ge0(st, sub(list_len(v), args[1])):
        raise Panic('insert out of range')
    a, b = eng.list_split(st, v, args[1])
    eng.write(st, base, path, mk_list(a[1] + (('e', args[2]),) + b[1]))
    return UNIT


@nat('vec_remove', 'vecdeque_remove')
def remove(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    if not eng.ge0(st, sub(sub(list_len(v), args[1]), num(1))):
        if 'vec_deque' in info['d']:
            return NONE
        raise Panic('remove out of range')
    a, b = eng.list_split(st, v, args[1])
    x, rest = take_front(eng, st, b)
    eng.write(st, base, path, mk_list(a[1] + rest[1]))
    return some(x) if 'vec_deque' in info['d'] else x


@nat('vec_swap_remove')
def swap_remove(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    if not eng.ge0(st, sub(sub(list_len(v), args[1]), num(1))):
        raise Panic('swap_remove out of range')
    x = eng.list_get(st, v, args[1])
    last, rest = take_back(eng, st, v)
    if not eng.eq_int(st, args[1], list_len(rest)):
        rest = eng.list_set(st, rest, args[1], last)
    eng.write(st, base, path, rest)
    return x


@nat('slice_swap', 'vec_swap', 'vecdeque_swap')
def swap(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    for i in (args[1], args[2]):
        if not eng.ge0(st, sub(sub(list_len(v), i), num(1))):
            raise Panic('swap out of range')
    x, y = eng.list_get(st, v, args[1]), eng.list_get(st, v, args[2])
    w = eng.list_set(st, eng.list_set(st, v, args[1], y), args[2], x)
    eng.write(st, base, path, w)
    return UNIT


@nat('slice_reverse')
def reverse(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    if any(s[0] == 'x' for s in v[1]):
        # expand by length
        out = []
        while True:
            x, v = take_back(eng, st, v)
            if x is None:
                break
            out.append(('e', x))
            if len(out) > 6:
                raise Unknown('reverse of a long opaque list')
        eng.write(st, base, path, ('l', tuple(out)))
        return UNIT
    eng.write(st, base, path, ('l', tuple(reversed(v[1]))))
    return UNIT


def range_bounds(eng, st, r, n):
    r = eng.strip(st, r)
    if is_int(r):
        return None
    k = r[1].split('::')[-1] if r[0] == 'a' else None
    if k == 'Range':
        return r[3][0], r[3][1]
    if k == 'RangeTo':
        return num(0), r[3][0]
    if k == 'RangeFrom':
        return r[3][0], n
    if k == 'RangeFull':
        return num(0), n
    if k == 'RangeInclusive':
        return r[3][0], add(r[3][1], num(1))
    if k == 'RangeToInclusive':
        return num(0), add(r[3][0], num(1))
    raise Unknown('range ' + show(r))


@nat('vec_drain', 'vecdeque_drain')
def drain(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    n = list_len(v)
    lo, hi = range_bounds(eng, st, args[1], n)
    if not eng.ge0(st, sub(hi, lo)) or not eng.ge0(st, sub(n, hi)):
        raise Panic('drain out of range')
    a, c = eng.list_split(st, v, hi)
    a, b = eng.list_split(st, a, lo)
    eng.write(st, base, path, mk_list(a[1] + c[1]))
    return ('a', '#it', 0, (False, b))


def elem_ref(eng, st, ref, v, i, mut):
    if mut:
        base, path, _ = lplace(eng, st, ref)
        return ('r', base, path + (('x', i),))
    return vref(eng.list_get(st, v, i))


@nat('slice_get', 'vec_get', 'vecdeque_get', 'slice_get_mut', 'vecdeque_get_mut', 'vec_get_mut')
def get(eng, st, info, args, dest, target):
    _, _, v = lplace(eng, st, args[0])
    rb = range_bounds(eng, st, args[1], list_len(v))
    if rb is not None:
        lo, hi = rb
        if not eng.ge0(st, sub(hi, lo)) or not eng.ge0(st, sub(list_len(v), hi)):
            return NONE
        return some(vref(eng.list_slice(st, v, lo, hi)))
    if not eng.ge0(st, sub(sub(list_len(v), args[1]), num(1))):
        return NONE
    return some(elem_ref(eng, st, args[0], v, args[1], info['name'].endswith('_mut')))


@nat('slice_first', 'vecdeque_front', 'slice_first_mut', 'vecdeque_front_mut')
def first(eng, st, info, args, dest, target):
    _, _, v = lplace(eng, st, args[0])
    if not eng.ge0(st, sub(list_len(v), num(1))):
        return NONE
    return some(elem_ref(eng, st, args[0], v, num(0), info['name'].endswith('_mut')))


@nat('slice_last', 'vecdeque_back', 'slice_last_mut', 'vecdeque_back_mut')
def last(eng, st, info, args, dest, target):
    _, _, v = lplace(eng, st, args[0])
    n = list_len(v)
    if not eng.ge0(st, sub(n, num(1))):
        return NONE
    if info['name'].endswith('_mut'):
        return some(elem_ref(eng, st, args[0], v, sub(n, num(1)), True))
    x, _ = take_back(eng, st, v)
    return some(vref(x))


@nat('slice_split_first', 'slice_split_last')
def split_first(eng, st, info, args, dest, target):
    _, _, v = lplace(eng, st, args[0])
    x, rest = (take_front if info['name'] == 'split_first' else take_back)(eng, st, v)
    return NONE if x is None else some(('t', (vref(x), vref(rest))))


@nat('slice_split_at')
def split_at(eng, st, info, args, dest, target):
    _, _, v = lplace(eng, st, args[0])
    if not eng.ge0(st, sub(list_len(v), args[1])):
        raise Panic('split_at out of range')
    a, b = eng.list_split(st, v, args[1])
    return ('t', (vref(a), vref(b)))


@nat('slice_iter', 'vec_iter', 'vecdeque_iter', 'hashset_iter')
def slice_iter(eng, st, info, args, dest, target):
    _, _, v = lplace(eng, st, args[0])
    return ('a', '#it', 0, (True, v))


@nat('slice_iter_mut', 'vec_iter_mut', 'vecdeque_iter_mut')
def slice_iter_mut(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    return ('a', '#itm', 0, (('r', base, path), num(0), list_len(v)))


@nat('slice_to_vec', 'slice_into_vec', 'vec_into_boxed_slice', 'vec_as_slice', 'vec_as_mut_slice', 'string_as_str',
     'str_as_bytes', 'string_as_bytes', 'slice_as_ref', 'string_into_bytes', 'str_as_str')
def ident(eng, st, info, args, dest, target):
    if info['name'] in ('to_vec',):
        return eng.as_list(st, args[0])
    if info['name'] == 'as_bytes':
        s = eng.strip(st, args[0])
        if s[0] == 'txt':
            return vref(tbytes(s))
    return args[0]


@nat('vec_from', 'string_from')
def from_(eng, st, info, args, dest, target):
    return eng.strip(st, args[0])


# texts with a known number of characters: ('txt', ((character, bytes), ...))
def tbytes(v):
    out = []
    for c, w in v[1]:
        out += [c] if w == 1 else [('#byte', c, num(i)) for i in range(w)]
    return lst(*out)


def tlen(cs):
    return sum(w for _, w in cs)


def tcut(v, lo, hi):
    """the part between two byte offsets"""
    out, at = [], 0
    marks = [0]
    for c, w in v[1]:
        if lo <= at < hi:
            out.append((c, w))
        at += w
        marks.append(at)
    if lo > hi or lo not in marks or hi not in marks:
        raise Panic('text is cut inside a character or out of range')
    return ('txt', tuple(out))


def is_char(eng, st, pat, c):
    """does a character match a pattern of one character?"""
    pat = eng.strip(st, pat)
    if not isinstance(pat, bool) and pat[0] == 'str' and len(pat[1]) == 1:
        pat = num(ord(pat[1]))
    if not is_int(pat):
        raise Unknown('pattern ' + show(pat))
    return eng.eq_int(st, pat, c)


def text_arg(eng, st, a):
    v = eng.strip(st, a)
    if v[0] != 'txt':
        raise Unknown('contents of ' + show(v))
    return v


def items(*vs):
    return ('a', '#it', 0, (False, lst(*vs)))


def tsplit(eng, st, v, pat):
    parts = [[]]
    for c, w in v[1]:
        if is_char(eng, st, pat, c):
            parts.append([])
        else:
            parts[-1].append((c, w))
    return [('txt', tuple(x)) for x in parts]


@nat('str_split', 'str_rsplit', 'str_split_terminator', 'str_split_inclusive', 'str_lines')
def str_split(eng, st, info, args, dest, target):
    v = text_arg(eng, st, args[0])
    name = info['name']
    pat = num(10) if name == 'lines' else args[1]
    ps = tsplit(eng, st, v, pat)
    if name in ('split_terminator', 'lines') and not ps[-1][1]:
        ps.pop()
    if name == 'lines':
        for p in ps:
            if p[1] and eng.eq_int(st, p[1][-1][0], num(13)):
                raise Unknown('lines() with a carriage return')
    if name == 'split_inclusive':
        raise Unknown('split_inclusive')
    if name == 'rsplit':
        ps.reverse()
    return items(*[vref(p) for p in ps])


@nat('str_matches')
def str_matches(eng, st, info, args, dest, target):
    v = text_arg(eng, st, args[0])
    return items(*[vref(('txt', (x,))) for x in v[1] if is_char(eng, st, args[1], x[0])])


@nat('str_find', 'str_rfind', 'str_contains', 'str_split_once', 'str_rsplit_once')
def str_find(eng, st, info, args, dest, target):
    v = text_arg(eng, st, args[0])
    name = info['name']
    hits, at = [], 0
    for c, w in v[1]:
        if is_char(eng, st, args[1], c):
            hits.append((at, w))
        at += w
    if name == 'contains':
        return bool(hits)
    if not hits:
        return NONE
    i, w = hits[-1 if name in ('rfind', 'rsplit_once') else 0]
    if name in ('find', 'rfind'):
        return some(num(i))
    return some(('t', (vref(tcut(v, 0, i)), vref(tcut(v, i + w, at)))))


@nat('str_ends_with', 'str_starts_with')
def str_ends(eng, st, info, args, dest, target):
    v = text_arg(eng, st, args[0])
    if not v[1]:
        return False
    return is_char(eng, st, args[1], v[1][-1 if info['name'] == 'ends_with' else 0][0])


@nat('str_get', 'str_split_at')
def str_get(eng, st, info, args, dest, target):
    v = text_arg(eng, st, args[0])
    if info['name'] == 'split_at':
        k = const(args[1])
        if k is None:
            raise Unknown('split_at')
        return ('t', (vref(tcut(v, 0, k)), vref(tcut(v, k, tlen(v[1])))))
    raise Unknown('str::get')


@nat('str_chars')
def chars(eng, st, info, args, dest, target):
    s = eng.strip(st, args[0])
    if s[0] == 'str':
        return ('a', '#it', 0, (False, lst(*[num(ord(c)) for c in s[1]])))
    if s[0] == 'txt':
        return items(*[c for c, _ in s[1]])
    n = ('#nchars', s)
    return ('a', '#it', 0, (False, mk_list([('x', ('chars', s), num(0), n)])))


@nat('str_bytes')
def str_bytes(eng, st, info, args, dest, target):
    s = eng.strip(st, args[0])
    if s[0] == 'str':
        return ('a', '#it', 0, (False, lst(*[num(c) for c in s[1].encode()])))
    if s[0] == 'txt':
        return ('a', '#it', 0, (False, tbytes(s)))
    return ('a', '#it', 0, (False, mk_list([('x', ('bytesof', s), num(0), ('#len', s))])))


@nat('str_trim', 'str_trim_start', 'str_trim_end', 'str_trim_matches', 'str_trim_start_matches', 'str_trim_end_matches',
     'str_to_lowercase', 'str_to_uppercase', 'str_to_ascii_lowercase', 'str_to_ascii_uppercase')
def str_op(eng, st, info, args, dest, target):
    return vref(('strop', info['name'], eng.strip(st, args[0])))


@nat('str_char_indices')
def char_indices(eng, st, info, args, dest, target):
    s = eng.strip(st, args[0])
    if s[0] == 'txt':
        out, at = [], 0
        for c, w in s[1]:
            out.append(('t', (num(at), c)))
            at += w
        return items(*out)
    k = ('#k',)
    return ('a', '#it', 0, (False, mk_list([('x', ('tmpl', ('t', (('#choff', s, k), ('el', ('chars', s), k)))), num(0), ('#nchars', s))])))


@nat('char_len_utf8')
def len_utf8(eng, st, info, args, dest, target):
    c = eng.strip(st, args[0])
    k = const(c) if is_int(c) else None
    if k is not None:
        return num(len(chr(k).encode()))
    if c[0] == '#chr':
        return c[3]
    return ('#utf8', c)


# -------------------------------------------------------------- box, rc, cell
@nat('box_new', 'box_pin')
def box_new(eng, st, info, args, dest, target):
    return ('box', args[0])


@nat('box_new_uninit')
def box_new_uninit(eng, st, info, args, dest, target):
    return ('box', ('uninit',))


@nat('boxed_box_assume_init_into_vec_unsafe', 'boxed_assume_init')
def box_into_vec(eng, st, info, args, dest, target):
    v = args[0]
    return v[1] if v[0] == 'box' else v


@nat('rc_new')
def rc_new(eng, st, info, args, dest, target):
    h = st.alloc(args[0])
    st.rc[h] = (1, 0)
    return ('rc', h)


@nat('rc_downgrade')
def rc_downgrade(eng, st, info, args, dest, target):
    v = eng.strip(st, args[0])
    if v[0] != 'rc':
        raise Unknown('downgrade')
    s, w = st.rc[v[1]]
    st.rc[v[1]] = (s, w + 1)
    return ('weak', v[1])


@nat('weak_strong_count', 'rc_strong_count')
def strong_count(eng, st, info, args, dest, target):
    v = eng.strip(st, args[0])
    c = eng.cfg.weak_count(eng, st, v) if hasattr(eng.cfg, 'weak_count') else None
    if c is not None:
        return c
    if getattr(eng.cfg, 'owners', False):
        # there may be other owners elsewhere
        st.assume(('#owners', v[1]))
        return add(num(st.rc[v[1]][0]), ('#owners', v[1]))
    return num(st.rc[v[1]][0])


@nat('rc_get_mut')
def rc_get_mut(eng, st, info, args, dest, target):
    v = eng.strip(st, args[0])
    if v[0] != 'rc':
        raise Unknown('Rc::get_mut of ' + show(v))
    n, w = st.rc[v[1]]
    if n != 1 or w:
        return NONE
    if getattr(eng.cfg, 'owners', False):
        st.assume(('#owners', v[1]))
        if eng.ge0(st, sub(('#owners', v[1]), num(1))):
            return NONE
    return some(('r', ('H', v[1]), ()))


@nat('hint_must_use', 'hint_black_box')
def hint_must_use(eng, st, info, args, dest, target):
    return args[0]


@nat('weak_upgrade')
def upgrade(eng, st, info, args, dest, target):
    v = eng.strip(st, args[0])
    c = eng.cfg.weak_upgrade(eng, st, v) if hasattr(eng.cfg, 'weak_upgrade') else None
    if c is not None:
        return c
    s, w = st.rc[v[1]]
    if s == 0:
        return NONE
    st.rc[v[1]] = (s + 1, w)
    return some(('rc', v[1]))


@nat('weak_new')
def weak_new(eng, st, info, args, dest, target):
    h = st.alloc(('uninit',))
    st.rc[h] = (0, 1)
    return ('weak', h)


@nat('rc_ptr_eq')
def ptr_eq(eng, st, info, args, dest, target):
    return eng.strip(st, args[0]) == eng.strip(st, args[1])


def new_cell(st, v):
    return ('cell', st.alloc(('t', (v, num(0)))))


@nat('refcell_new', 'cell_new', 'oncecell_new')
def cell_new(eng, st, info, args, dest, target):
    if info['name'] == 'new' and 'once' in info['d']:
        return new_cell(st, NONE)
    return new_cell(st, args[0])


def cell_of(eng, st, v):
    v = eng.strip(st, v)
    while v[0] == 'rc':
        v = eng.strip(st, st.heap[v[1]])
    if v[0] != 'cell':
        raise Unknown('not a cell: ' + show(v))
    return v[1]


@nat('refcell_borrow')
def borrow(eng, st, info, args, dest, target):
    h = cell_of(eng, st, args[0])
    _, (v, n) = st.heap[h]
    if const(n) < 0:
        raise Panic('already mutably borrowed')
    st.heap[h] = ('t', (v, add(n, num(1))))
    return ('guard', h, False)


@nat('refcell_borrow_mut')
def borrow_mut(eng, st, info, args, dest, target):
    h = cell_of(eng, st, args[0])
    _, (v, n) = st.heap[h]
    if const(n) != 0:
        raise Panic('already borrowed')
    st.heap[h] = ('t', (v, num(-1)))
    return ('guard', h, True)


@nat('refcell_replace', 'cell_replace')
def cell_replace(eng, st, info, args, dest, target):
    h = cell_of(eng, st, args[0])
    _, (v, n) = st.heap[h]
    if const(n) != 0:
        raise Panic('already borrowed')
    st.heap[h] = ('t', (args[1], n))
    return v


@nat('cell_get')
def cell_get(eng, st, info, args, dest, target):
    return st.heap[cell_of(eng, st, args[0])][1][0]


@nat('cell_set')
def cell_set(eng, st, info, args, dest, target):
    h = cell_of(eng, st, args[0])
    st.heap[h] = ('t', (args[1], num(0)))
    return UNIT


@nat('cell_take', 'refcell_take', 'oncecell_take')
def cell_take(eng, st, info, args, dest, target):
    h = cell_of(eng, st, args[0])
    _, (v, n) = st.heap[h]
    if const(n) != 0:
        raise Panic('already borrowed')
    v = eng.resolve(st, v)
    if v[0] == 'l':
        new = lst()
    elif v[0] == 'a' and v[1] == OPTION:
        new = NONE
    elif v[0] == 'i':
        new = num(0)
    else:
        raise Unknown('take of ' + show(v))
    st.heap[h] = ('t', (new, n))
    return v


@nat('oncecell_get')
def oncecell_get(eng, st, info, args, dest, target):
    h = cell_of(eng, st, args[0])
    v = eng.resolve(st, st.heap[h][1][0])
    return some(('r', ('H', h), (('f', 0), ('v', 1), ('f', 0)))) if v[2] == 1 else NONE


@nat('oncecell_set')
def oncecell_set(eng, st, info, args, dest, target):
    h = cell_of(eng, st, args[0])
    v = eng.resolve(st, st.heap[h][1][0])
    if v[2] == 1:
        return err(args[1])
    st.heap[h] = ('t', (some(args[1]), num(0)))
    return ok(UNIT)


@nat('mem_replace')
def mem_replace(eng, st, info, args, dest, target):
    base, path = args[0][1], args[0][2]
    old = eng.read(st, base, path)
    eng.write(st, base, path, args[1])
    return old


@nat('mem_take')
def mem_take(eng, st, info, args, dest, target):
    base, path = args[0][1], args[0][2]
    old = eng.read(st, base, path)
    t = info['types'][0]
    new = default_of(eng, st, t)
    if new is None:
        if old[0] == 'l':
            new = lst()
        elif old[0] == 'a' and old[1] == OPTION:
            new = NONE
        elif old[0] == 'i' or is_int(old):
            new = num(0)
        elif isinstance(old, bool):
            new = False
        else:
            raise Unknown('mem::take of ' + show(old))
    eng.write(st, base, path, new)
    return old


@nat('mem_swap')
def mem_swap(eng, st, info, args, dest, target):
    a, b = args
    x, y = eng.read(st, a[1], a[2]), eng.read(st, b[1], b[2])
    eng.write(st, a[1], a[2], y)
    eng.write(st, b[1], b[2], x)
    return UNIT


@nat('mem_drop', 'mem_forget', 'hint_black_box')
def mem_drop(eng, st, info, args, dest, target):
    if info['name'] == 'black_box':
        return args[0]
    if eng.track_drops and info['name'] == 'drop':
        eng.drop_value(st, args[0])
    return UNIT


@nat('intrinsics_discriminant_value', 'mem_discriminant')
def discriminant_value(eng, st, info, args, dest, target):
    v = eng.strip(st, args[0])
    if is_opaque(v):
        t = info['types'][0]
        if t['k'] != 'adt':
            raise Unknown('discriminant of opaque')
        v = eng.materialise(st, v, t['d'])
    return num(eng.prog.adts[v[1]]['variants'][v[2]]['discr'])


@nat('panicking_panic', 'panicking_panic_fmt', 'panicking_panic_display', 'panicking_unreachable_display',
     'panicking_panic_explicit', 'panicking_assert_failed', 'panicking_panic_nounwind', 'rt_begin_panic',
     'panicking_panic_bounds_check', 'option_expect_failed', 'option_unwrap_failed', 'panicking_panic_str_2015',
     'panicking_begin_panic', 'rt_panic_fmt', 'panicking_assert_failed_inner', 'panicking_panic_const')
def panic(eng, st, info, args, dest, target):
    m = args[0] if args else ('str', '')
    raise Panic(show(m)[:80])


# ------------------------------------------------------------------ integers
@nat('int_saturating_sub')
def saturating_sub(eng, st, info, args, dest, target):
    d = sub(args[0], args[1])
    return d if eng.ge0(st, d) else num(0)


@nat('int_checked_sub')
def checked_sub(eng, st, info, args, dest, target):
    d = sub(args[0], args[1])
    return some(d) if eng.ge0(st, d) else NONE


@nat('int_checked_add', 'int_saturating_add', 'int_wrapping_add')
def checked_add(eng, st, info, args, dest, target):
    d = add(args[0], args[1])
    k = info['name']
    t = info.get('self_t')
    limit = NARROW.get(t['s']) if t else None
    if limit is not None:
        over = eng.ge0(st, sub(d, num(limit)))
    else:
        limit = 1 << 64
        over = eng.too_large(st, d)
    if over:
        c = const(d)
        return NONE if k == 'checked_add' else num(limit - 1) if k == 'saturating_add' else num(c % limit) if c is not None else ('#low', d, num(limit))
    return some(d) if k == 'checked_add' else d


@nat('int_wrapping_sub')
def wrapping_sub(eng, st, info, args, dest, target):
    d = sub(args[0], args[1])
    if not eng.ge0(st, d):
        raise Unknown('wrapping subtraction below zero')
    return d


@nat('int_abs_diff')
def abs_diff(eng, st, info, args, dest, target):
    d = sub(args[0], args[1])
    return d if eng.ge0(st, d) else lin.scale(d, -1)


@nat('int_clamp')
def clamp(eng, st, info, args, dest, target):
    x, lo, hi = args
    if not eng.ge0(st, sub(x, lo)):
        return lo
    return x if eng.ge0(st, sub(hi, x)) else hi


# ------------------------------------------------------------- std traits
@tnat('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once')
def fn_call(eng, st, info, args, dest, target):
    a = eng.strip(st, args[1])
    if a[0] != 't':
        raise Unknown('call arguments')
    return eng.call_value(st, args[0], list(a[1]), dest, target)


@tnat('core::clone::Clone::clone')
def clone(eng, st, info, args, dest, target):
    v = args[0]
    if v[0] != 'r':
        raise Unknown('clone of ' + show(v))
    v = eng.read(st, v[1], v[2])
    if not isinstance(v, bool) and v[0] == 'rc':
        s, w = st.rc.get(v[1], (1, 0))
        st.rc[v[1]] = (s + 1, w)
    if not isinstance(v, bool) and v[0] == 'weak':
        s, w = st.rc.get(v[1], (1, 0))
        st.rc[v[1]] = (s, w + 1)
    if not isinstance(v, bool) and v[0] == 'cell':
        raise Unknown('clone of a cell')
    return v


@tnat('core::clone::Clone::clone_from')
def clone_from(eng, st, info, args, dest, target):
    v = eng.read(st, args[1][1], args[1][2])
    eng.write(st, args[0][1], args[0][2], v)
    return UNIT


@tnat('alloc::borrow::ToOwned::to_owned')
def to_owned(eng, st, info, args, dest, target):
    return eng.strip(st, args[0])


@tnat('core::cmp::PartialEq::eq')
def peq(eng, st, info, args, dest, target):
    return eng.eq_val(st, args[0], args[1])


@tnat('core::cmp::PartialEq::ne')
def pne(eng, st, info, args, dest, target):
    # an overridden eq of a local type
    v = eng.strip(st, args[0])
    return not eng.eq_val(st, args[0], args[1])


def cmp_val(eng, st, a, b):
    a, b = eng.strip(st, a), eng.strip(st, b)
    if isinstance(a, bool):
        a, b = num(int(a)), num(int(b))
    if is_int(a) and is_int(b):
        return eng.cmp_int(st, a, b)
    if a[0] == 'a' and b[0] == 'a' and a[1] == b[1]:
        if a[1] == 'core::cmp::Reverse':
            return cmp_val(eng, st, b[3][0], a[3][0])
        if a[2] != b[2]:
            return LESS if a[2] < b[2] else GREATER
        for x, y in zip(a[3], b[3]):
            r = cmp_val(eng, st, x, y)
            if r != EQUAL:
                return r
        return EQUAL
    if a[0] == 't' and b[0] == 't':
        for x, y in zip(a[1], b[1]):
            r = cmp_val(eng, st, x, y)
            if r != EQUAL:
                return r
        return EQUAL
    if is_opaque(a) and is_opaque(b):
        return eng.cmp_int(st, ('#ord', a), ('#ord', b))
    raise Unknown('cmp of ' + show(a))


@tnat('core::cmp::Ord::cmp')
def ord_cmp(eng, st, info, args, dest, target):
    return cmp_val(eng, st, args[0], args[1])


@tnat('core::cmp::PartialOrd::partial_cmp')
def partial_cmp(eng, st, info, args, dest, target):
    return some(cmp_val(eng, st, args[0], args[1]))


@tnat('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def pord(eng, st, info, args, dest, target):
    r = cmp_val(eng, st, args[0], args[1])[2]
    return {'lt': r == 0, 'le': r <= 1, 'gt': r == 2, 'ge': r >= 1}[info['name']]


@tnat('core::cmp::Ord::max')
def ord_max(eng, st, info, args, dest, target):
    return args[0] if cmp_val(eng, st, args[0], args[1]) == GREATER else args[1]


@tnat('core::cmp::Ord::min')
def ord_min(eng, st, info, args, dest, target):
    return args[1] if cmp_val(eng, st, args[0], args[1]) == GREATER else args[0]


@nat('cmp_max', 'int_max')
def cmp_max(eng, st, info, args, dest, target):
    return ord_max(eng, st, info, args, dest, target)


@nat('cmp_min', 'int_min')
def cmp_min(eng, st, info, args, dest, target):
    return ord_min(eng, st, info, args, dest, target)


def default_of(eng, st, t):
    k = t['k']
    if k in ('uint', 'int', 'char'):
        return num(0)
    if k == 'bool':
        return False
    if k == 'tuple':
        vs = [default_of(eng, st, eng.prog.types[x]) for x in t['e']]
        return None if any(v is None for v in vs) else ('t', tuple(vs))
    if k == 'adt':
        d = t['d']
        if d == 'core::marker::PhantomData':
            return ('a', d, 0, ())
        if d == OPTION:
            return NONE
        if d in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
            return lst()
        if d == HASHSET:
            return ('a', HASHSET, 0, (lst(),))
        if d == 'alloc::string::String':
            return ('str', '')
        if d == 'alloc::rc::Rc' or d.endswith('::Rc'):
            v = default_of(eng, st, eng.prog.types[t['a'][0]])
            if v is None:
                return None
            h = st.alloc(v)
            st.rc[h] = (1, 0)
            return ('rc', h)
        if d.endswith('::RefCell') or d.endswith('::Cell'):
            v = default_of(eng, st, eng.prog.types[t['a'][0]])
            return None if v is None else new_cell(st, v)
        if d.endswith('::OnceCell'):
            return new_cell(st, NONE)
        if d.endswith('::Box'):
            v = default_of(eng, st, eng.prog.types[t['a'][0]])
            return None if v is None else ('box', v)
    if k in ('param', 'alias'):
        return ('default', t['s'])
    return None


@tnat('core::default::Default::default')
def default(eng, st, info, args, dest, target):
    t = info['types'][0]
    if t['k'] == 'adt':
        ks = eng.prog.find_impl('core::default::Default', 'default', t['d'])
        if len(ks) == 1:
            eng.push(st, eng.prog.bodies[ks[0]], [], dest, target, {})
            raise Pushed()
    v = default_of(eng, st, t)
    if v is None:
        res = info.get('res')
        if res in eng.prog.bodies:
            return NotImplemented
        raise Unknown('default of ' + t['s'])
    return v


@tnat('core::convert::Into::into', 'core::convert::From::from')
def into(eng, st, info, args, dest, target):
    if info['name'] == 'into':
        tgt = info['types'][1]
    else:
        tgt = info['types'][0]
    v = args[0]
    if tgt['k'] == 'adt':
        ks = eng.prog.find_impl('core::convert::From', 'from', tgt['d'])
        if len(ks) == 1 and not (v[0] == 'a' and v[1] == tgt['d']):
            eng.push(st, eng.prog.bodies[ks[0]], [v], dest, target, {})
            raise Pushed()
        if v[0] == 'a' and v[1] == tgt['d']:
            return v
        if tgt['d'] == OPTION:
            return some(v)
        if tgt['d'] in ('alloc::vec::Vec', 'alloc::string::String'):
            return eng.strip(st, v)
        if tgt['d'].endswith('::Rc'):
            h = st.alloc(v)
            st.rc[h] = (1, 0)
            return ('rc', h)
        if tgt['d'].endswith('::Box'):
            return ('box', v)
    if tgt['k'] in ('uint', 'int'):
        return num(int(v)) if isinstance(v, bool) else v
    if tgt['k'] in ('param', 'alias'):
        return v
    raise Unknown('into ' + tgt['s'])


@tnat('core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut', 'core::convert::AsMut::as_mut')
def as_ref(eng, st, info, args, dest, target):
    return args[0]


@nat('rc_as_ref')
def rc_as_ref(eng, st, info, args, dest, target):
    v = eng.strip(st, args[0])
    return vref(st.heap[v[1]])


@nat('box_as_ref', 'box_as_mut', 'option_as_slice')
def box_as_ref(eng, st, info, args, dest, target):
    base, path, v = args[0][1], args[0][2], None
    return ('r', base, path + (('b',),)) if base[0] != 'V' else vref(eng.strip(st, args[0]))


@tnat('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def deref(eng, st, info, args, dest, target):
    a = args[0]
    base, path = a[1], a[2]
    v = eng.read(st, base, path)
    while not isinstance(v, bool) and v[0] == 'r':
        base, path = v[1], v[2]
        v = eng.read(st, base, path)
    if v[0] == 'rc':
        return vref(st.heap[v[1]])
    if v[0] == 'guard':
        if v[2]:
            return ('r', ('H', v[1]), (('f', 0),))
        return vref(st.heap[v[1]][1][0])
    if v[0] == 'box':
        if base[0] == 'V':
            return vref(v[1])
        return ('r', base, path + (('b',),))
    return ('r', base, path)


@tnat('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def index(eng, st, info, args, dest, target):
    mut = info['name'] == 'index_mut'
    s = eng.strip(st, args[0])
    if not isinstance(s, bool) and s[0] == 'txt':
        lo, hi = range_bounds(eng, st, args[1], num(tlen(s[1])))
        if const(lo) is None or const(hi) is None:
            raise Unknown('text cut at ' + show(lo))
        return vref(tcut(s, const(lo), const(hi)))
    base, path, v = lplace(eng, st, args[0])
    i = args[1]
    rb = range_bounds(eng, st, i, list_len(v))
    if rb is not None:
        lo, hi = rb
        if not eng.ge0(st, sub(hi, lo)) or not eng.ge0(st, sub(list_len(v), hi)):
            raise Panic('slice index out of range')
        if mut:
            raise Unknown('mutable slice')
        return vref(eng.list_slice(st, v, lo, hi))
    if not eng.ge0(st, sub(sub(list_len(v), i), num(1))):
        raise Panic('index out of bounds')
    if mut:
        return ('r', base, path + (('x', i),))
    return vref(eng.list_get(st, v, i))


@tnat('core::iter::traits::iterator::Iterator::next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def iter_next(eng, st, info, args, dest, target):
    base, path, v = inner(eng, st, args[0])
    back = info['name'] == 'next_back'
    if v[0] == 'a' and v[1] == '#it':
        byref, l = v[3]
        x, rest = (take_back if back else take_front)(eng, st, l)
        if x is not None and not back:
            eng.cfg.on_item(eng, st, x)
        eng.write(st, base, path, ('a', '#it', 0, (byref, rest)))
        if x is None:
            return NONE
        return some(vref(x) if byref else x)
    if v[0] == 'a' and v[1] == '#itm':
        r, lo, hi = v[3]
        if not eng.ge0(st, sub(sub(hi, lo), num(1))):
            return NONE
        if back:
            hi = sub(hi, num(1))
            i = hi
        else:
            i = lo
            lo = add(lo, num(1))
        eng.write(st, base, path, ('a', '#itm', 0, (r, lo, hi)))
        return some(('r', r[1], r[2] + (('x', i),)))
    if v[0] == 'a' and v[1] == 'core::ops::range::Range':
        shim(eng, st, 'range_next_back' if back else 'range_next', [('r', base, path)], dest, target)
    if v[0] == 'a' and v[1] == 'core::ops::range::RangeFrom':
        shim(eng, st, 'rangefrom_next', [('r', base, path)], dest, target)
    return eng.cfg.iter_next(eng, st, base, path, v, back)


@tnat('core::iter::traits::iterator::Iterator::size_hint')
def size_hint(eng, st, info, args, dest, target):
    v = eng.strip(st, args[0])
    if v[0] == 'a' and v[1] == '#it':
        n = list_len(v[3][1])
        return ('t', (n, some(n)))
    return ('t', (('#hint', v), NONE))


@tnat('core::iter::traits::exact_size::ExactSizeIterator::len')
def exact_len(eng, st, info, args, dest, target):
    return vec_len(eng, st, info, args, dest, target)


def is_iterator(eng, v):
    if v[0] != 'a':
        return False
    return v[1] in ('#it', '#itm', 'core::ops::range::Range', 'core::ops::range::RangeFrom') or \
        bool(eng.prog.find_impl('core::iter::traits::iterator::Iterator', 'next', v[1]))


@tnat('core::iter::traits::collect::IntoIterator::into_iter')
def into_iter(eng, st, info, args, dest, target):
    a = eng.resolve(st, args[0])
    base, path, v = inner(eng, st, a)
    if is_opaque(v):
        d = eng.cfg.adt_of(eng, st, v)
        if d:
            v = eng.materialise(st, v, d)
    if a[0] == 'r':
        if v[0] == 'l' or (v[0] == 'a' and v[1] == HASHSET):
            if base[0] == 'V':
                return slice_iter(eng, st, info, [a], dest, target)
            t = info['types'][0]
            if t['k'] == 'ref' and not t['m']:
                return slice_iter(eng, st, info, [a], dest, target)
            return slice_iter_mut(eng, st, info, [a], dest, target)
        if v[0] == 'a' and v[1] == OPTION:
            shim(eng, st, 'option_iter', [vref(v)], dest, target)
        if is_iterator(eng, v):
            return a
        if is_opaque(v):
            return eng.cfg.into_iter(eng, st, v, True)
        raise Unknown('into_iter of reference to ' + show(v))
    if v[0] == 'l':
        return ('a', '#it', 0, (False, v))
    if v[0] == 'a':
        if v[1] == HASHSET:
            return ('a', '#it', 0, (False, v[3][0]))
        if v[1] == OPTION:
            shim(eng, st, 'option_into_iter', [v], dest, target)
        if is_iterator(eng, v):
            return v
    if is_opaque(v):
        return eng.cfg.into_iter(eng, st, v, False)
    raise Unknown('into_iter of ' + show(v))


def map_template(eng, st, v):
    """`map(f)` over a list whose opaque segments are mapped element-wise by a straight-line
    function: the mapped list, or None"""
    if v[0] == 'a' and v[1] == '#it' and not v[3][0]:
        return v[3][1]
    if v[0] == 'a' and v[1] == 'shims::Chain':
        a = eng.resolve(st, v[3][0])
        if a[0] != 'a' or a[1] != OPTION:
            return None
        parts = [map_template(eng, st, eng.resolve(st, x)) for x in a[3] + (v[3][1],)]
        return None if None in parts else mk_list(sum((x[1] for x in parts), ()))
    if v[0] == 'a' and v[1] == 'shims::Cloned':
        w = v[3][0]
        if w[0] == 'a' and w[1] == '#it':
            return w[3][1]
        return None
    if v[0] == 'a' and v[1] == 'shims::Map':
        src = v[3][0]
        byref = src[0] == 'a' and src[1] == '#it' and src[3][0]
        base = src[3][1] if byref else map_template(eng, st, src)
        if base is None or not any(s[0] == 'x' for s in base[1]):
            return None
        f = v[3][1]
        out = []
        for s in base[1]:
            el = s[1] if s[0] == 'e' else seg_elem(s[1], ('#k',))
            r = eng.cfg.pure_apply(eng, st, f, [vref(el) if byref else el])
            if r is None:
                return None
            out.append(('e', r) if s[0] == 'e' else ('x', ('tmpl', r), s[2], s[3]))
        return mk_list(out)
    return None


@tnat('core::iter::traits::collect::Extend::extend')
def extend(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    src = eng.resolve(st, args[1])
    if src[0] == 'l':
        eng.write(st, base, path, mk_list(v[1] + src[1]))
        return UNIT
    m = map_template(eng, st, src)
    if m is not None:
        eng.write(st, base, path, mk_list(v[1] + m[1]))
        return UNIT
    t = info['types']
    if src[0] == 'r':
        # extend(&[T]) copies
        w = eng.strip(st, src)
        if w[0] == 'l':
            eng.write(st, base, path, mk_list(v[1] + w[1]))
            return UNIT
    shim(eng, st, 'vec_extend', [('r', base, path), src], dest, target)


@nat('iter_collect')
def collect(eng, st, info, args, dest, target):
    t = info['types'][-1] if info['types'] else None
    return collect_to(eng, st, args[0], t, dest, target)


def collect_to(eng, st, it, t, dest, target):
    if t is not None and t['k'] == 'adt':
        d = t['d']
        if d == HASHSET or d.endswith('::BTreeSet'):
            m = map_template(eng, st, it)
            if m is not None:
                return ('a', HASHSET, 0, (m,))
            shim(eng, st, 'set_from_iter', [it], dest, target)
        if d not in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque', 'alloc::boxed::Box'):
            raise Unknown('collect into ' + t['s'])
    m = map_template(eng, st, it)
    if m is not None:
        return m
    shim(eng, st, 'vec_from_iter', [it], dest, target)


@tnat('core::iter::traits::collect::FromIterator::from_iter')
def from_iter(eng, st, info, args, dest, target):
    it = args[0]
    if it[0] == 'l':
        it = ('a', '#it', 0, (False, it))
    elif it[0] == 'a' and not is_iterator(eng, it):
        raise Unknown('from_iter')
    elif is_opaque(it):
        it = eng.cfg.into_iter(eng, st, it, False)
    return collect_to(eng, st, it, info['types'][0], dest, target)


@nat('slice_sort', 'slice_sort_unstable')
def sort(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    if any(s[0] == 'x' for s in v[1]):
        raise Unknown('sort of an opaque list')
    out = []
    for s in v[1]:
        i = len(out)
        while i > 0 and cmp_val(eng, st, s[1], out[i - 1][1]) == LESS:
            i -= 1
        out.insert(i, s)
    eng.write(st, base, path, ('l', tuple(out)))
    return UNIT


@nat('slice_sort_unstable_by_key', 'slice_sort_by_cached_key')
def sort_by_key(eng, st, info, args, dest, target):
    # equal keys end up in an unspecified order: the abstract order is as likely the other
    # way around, so an unstable sort is interpreted on the reversed list
    if info['name'] == 'sort_unstable_by_key':
        base, path, v = lplace(eng, st, args[0])
        eng.write(st, base, path, ('l', tuple(reversed(v[1]))))
    shim(eng, st, 'slice_sort_by_key', args, dest, target)


@nat('slice_sort_unstable_by')
def sort_unstable_by(eng, st, info, args, dest, target):
    base, path, v = lplace(eng, st, args[0])
    eng.write(st, base, path, ('l', tuple(reversed(v[1]))))
    shim(eng, st, 'slice_sort_by', args, dest, target)


@tnat('core::ops::try_trait::Try::branch')
def branch(eng, st, info, args, dest, target):
    v = eng.resolve(st, args[0])
    if is_opaque(v):
        t = info['types'][0]
        v = eng.materialise(st, v, t['d'])
    if v[1] == OPTION:
        shim(eng, st, 'option_branch', [v], dest, target)
    if v[1] == RESULT:
        shim(eng, st, 'result_branch', [v], dest, target)
    raise Unknown('? on ' + show(v))


@tnat('core::ops::try_trait::FromResidual::from_residual')
def from_residual(eng, st, info, args, dest, target):
    return args[0]


@tnat('alloc::string::ToString::to_string')
def to_string(eng, st, info, args, dest, target):
    v = eng.strip(st, args[0])
    if not isinstance(v, bool) and v[0] in ('str', 'tostr'):
        return v
    return ('tostr', v)


@nat('str_to_owned', 'str_to_string', 'string_clone')
def str_id(eng, st, info, args, dest, target):
    return eng.strip(st, args[0])


@nat('fmt_format', 'fmt_format_inner')
def fmt_format(eng, st, info, args, dest, target):
    f = eng.strip(st, args[0])
    if f[0] == 'fmt' and f[1] == 'new' and len(f) == 4:
        # format!("{}", x) is x.to_string()
        t, l = eng.strip(st, f[2]), eng.as_list(st, f[3])
        t = t[1] if t[0] == 'deref' else t
        if t == ('bytes', (0xc0, 0)) and len(l[1]) == 1 and l[1][0][0] == 'e':
            x = eng.strip(st, l[1][0][1])
            if x[:2] == ('fmt', 'new_display'):
                return to_string(eng, st, info, [x[2]], dest, target)
    return ('fmt', f)


@tnat('core::ops::drop::Drop::drop')
def drop(eng, st, info, args, dest, target):
    return UNIT
