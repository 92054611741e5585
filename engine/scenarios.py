"""The scenarios: which public construction is analysed against which specification."""
from specs import *
from interp import show

A, B_, C, D, F, V, S, E_ = (('A',), ('B',), ('C',), ('D',), ('F',), ('V',), ('S',), ('E',))
SCEN = []


def add_scn(name, family, phases, sp, **opts):
    SCEN.append((name, family, phases, sp, opts))


def t(*xs):
    return ('t', tuple(xs))


# --- sequences
add_scn('then', 'seq', [B('then', A, B_), PARSE], spec(seq_spec([A, B_], lambda o: t(*o))))
add_scn('then_ignore', 'seq', [B('then_ignore', A, B_), PARSE], spec(seq_spec([A, B_], lambda o: o[0])))
add_scn('ignore_then', 'seq', [B('ignore_then', A, B_), PARSE], spec(seq_spec([A, B_], lambda o: o[1])))
add_scn('delimited_by', 'seq', [B('delimited_by', A, B_, C), PARSE], spec(seq_spec([B_, A, C], lambda o: o[1])))
add_scn('padded_by', 'seq', [B('padded_by', A, B_), PARSE], spec(seq_spec([B_, A, B_], lambda o: o[1])))
add_scn('chain2', 'seq', [B('chain', A, B_), PARSE], spec(seq_spec([A, B_], lambda o: lst(*o))), delay=6)
add_scn('chain3', 'seq', [B('chain', A, B_), M('and', C), PARSE], spec(seq_spec([A, B_, C], lambda o: lst(*o))), delay=6)
add_scn('chain4', 'seq', [B('chain', A, B_), M('and', C), M('and', D), PARSE], spec(seq_spec([A, B_, C, D], lambda o: lst(*o))), delay=6)

# --- choice
add_scn('or', 'choice', [B('or', A, B_), PARSE], choice_spec([A, B_]), delay=6, fes_len=(1, 2))
add_scn('or_not', 'choice', [B('or_not', A), PARSE], choice_spec([A], opt=True), delay=6, fes_len=(1, 2))
add_scn('alters2', 'choice', [B('alters', A, B_), PARSE], choice_spec([A, B_]), delay=6, fes_len=(1, 2))
add_scn('alters3', 'choice', [B('alters', A, B_), M('and', C), PARSE], choice_spec([A, B_, C]), delay=7, fes_len=(1,))
add_scn('or_long', 'choice', [B('or', A, B_), PARSE], choice_spec([A, B_]), delay=300, cls=LongChoice)
add_scn('alters_long', 'choice', [B('alters', A, B_), PARSE], choice_spec([A, B_]), delay=300, cls=LongChoice)
MANY = [('K%d' % i,) for i in range(18)]
for n_, o_ in (('asc', lambda i: i), ('desc', lambda i: -i), ('eq', lambda i: 0), ('mixed', lambda i: i * 7 % 5)):
    add_scn('alters18_' + n_, 'choice', [B('alters', MANY[0], MANY[1])] + [M('and', k) for k in MANY[2:]] + [PARSE],
            choice_spec(MANY), delay=24, cls=ManyChoice, order=o_)
add_scn('chain18', 'seq', [B('chain', MANY[0], MANY[1])] + [M('and', k) for k in MANY[2:]] + [PARSE],
        spec(seq_spec(MANY, lambda o: lst(*o))), delay=24, cls=ManySeq)

# --- mapping
app = lambda *a: ('app', F) + a
add_scn('to', 'map', [B('to', A, V), PARSE], map_spec(A, out=lambda c, r: V))
add_scn('ignored', 'map', [B('ignored', A), PARSE], map_spec(A, out=lambda c, r: UNIT))
add_scn('some', 'map', [B('some', A), PARSE], map_spec(A, out=lambda c, r: some(r.out)))
add_scn('map', 'map', [B('map', A, F), PARSE], map_spec(A, out=lambda c, r: c.call(F, r.out)))
add_scn('map_with_span', 'map', [B('map_with_span', A, F), PARSE],
        map_spec(A, out=lambda c, r: c.call(F, r.out, ('span', START, r.end))))
add_scn('map_err', 'map', [B('map_err', A, F), PARSE],
        map_spec(A, err=lambda c, r: tmpl_map(c, r.errs, lambda e: app(e)), calls=False))
add_scn('map_err_with_span', 'map', [B('map_err_with_span', A, F), PARSE],
        map_spec(A, err=lambda c, r: tmpl_map(c, r.errs, lambda e: app(e, ('span', START, r.end))), calls=False))
add_scn('with_error', 'map', [B('with_error', A), PARSE], map_spec(A))
add_scn('boxed', 'map', [B('boxed', A), PARSE], map_spec(A))

# --- try_map, to_recover
add_scn('try_map', 'try_map', [B('try_map', A, F), PARSE], try_map_spec(A, F))
add_scn('to_recover', 'to_recover', [B('to_recover', A, S), PARSE], to_recover_spec(A, S))

# --- token matchers
add_scn('empty', 'matcher', [FN('primitive::empty'), PARSE], p_empty(UNIT))
add_scn('none', 'matcher', [FN('primitive::none'), PARSE], p_empty(NONE))
add_scn('end', 'matcher', [FN('primitive::end'), PARSE], prim(p_end))
add_scn('just', 'matcher', [FN('primitive::just', V), PARSE], p_just(V))
add_scn('filter', 'matcher', [FN('primitive::filter', F), PARSE], p_filter(F))
add_scn('filter_map', 'matcher', [FN('primitive::filter_map', F), PARSE], p_filter_map(F))
add_scn('seq', 'matcher', [FN('primitive::seq', C), PARSE], p_seq(C))
add_scn('one_of', 'matcher', [FN('primitive::one_of', C), PARSE], p_one_of(C, False))
add_scn('none_of', 'matcher', [FN('primitive::none_of', C), PARSE], p_one_of(C, True))

# --- recovery strategies
from recspec import *

T_ = ('T',)
RL = dict(cls=RecLayer)


def strat(name, args, act, mods=(), mon=None, free=True, opts=None):
    """both as a method on an opaque strategy S and as a free function"""
    n = '_'.join([name] + list(mods))
    o = dict(RL, **(opts or {}))
    ms = [M(m) for m in mods]
    if mon:
        o['mon0'] = mon
    add_scn('S.' + n, 'strategy', [RB(name, S, *args)] + ms + [RECOVER_PHASE], rec_spec(S, act), **o)
    if free:
        fr = {'and_return': 'just_return', 'and_return_with': 'just_return_with', 'and_return_with_span': 'just_return_with_span'}.get(name, name)
        add_scn(n, 'strategy', [FN('recovery::' + fr, *args)] + ms + [RECOVER_PHASE], rec_spec(None, act), **o)


add_scn('attempt_to', 'strategy', [FN('recovery::attempt_to'), RECOVER_PHASE], rec_spec(None, a_nothing), **RL)
strat('restart', [], a_restart, free=False)
strat('seek_to_failed', [], a_seek)
strat('skip', [], a_skip)
strat('skip_if', [F], a_skip_if(F))
strat('find', [F], a_find(F))
strat('scan', [F], a_scan(F), mon=('scan', ('first',), 'run', F))
strat('maybe', [T_], a_maybe(T_))
strat('while_not', [F, T_], a_while_not(F, T_), mon=('while', T_, F, ('first',), 'run', None))
import itertools
for _n in range(4):
    for mods in itertools.product(('exactly', 'silently', 'exactly_and_silently'), repeat=_n):
        ex, si = any('exactly' in m for m in mods), any('silently' in m for m in mods)
        strat('retry', [], a_parse(PARSERC, ex, si), mods, free=_n < 3)
        strat('try_to_parse', [A], a_parse(A, ex, si), mods, free=_n < 3)
strat('push_error', [F], a_push(F))
strat('push_error_here', [F], a_push(F, here))
strat('push_error_up_to_here', [F], a_push(F, up_to_here))
strat('push_error_for_token', [F], a_push(F, token, token_span))
strat('update_errors', [F], a_update(F))
strat('update_errors_here', [F], a_update(F, here))
strat('update_errors_up_to_here', [F], a_update(F, up_to_here))
strat('update_errors_for_token', [F], a_update(F, token, token_span))
strat('boxed', [], a_nothing, free=False)
strat('or_fail', [], a_nothing, free=False)
strat('and_return', [V], a_return(lambda c: V))
strat('and_return_with', [F], a_return(lambda c: ('app', F)))
strat('and_return_with_span', [F], a_return(lambda c: ('app', F, up_to_here(c))))
# a chain of three: the order holds through composition
add_scn('S.skip.skip.and_return', 'strategy', [RB('skip', S), RB('restart', last), RB('and_return', last, V), RECOVER_PHASE],
        rec_spec(S, lambda c: (a_skip(c), a_restart(c), V)[2]), **RL)

# --- recursive parsers
import recursive_scn as R


def _fn_spec(layer, eng, st, vals):
    """recursive(f) runs what f returned, f having been given the parser itself"""
    c = Ctx(layer, eng, st, vals)
    runs = [e for e in st.events if e[0] == 'run']
    if len(runs) != 1 or runs[0][1][0] != 'app' or runs[0][1][1] != F:
        c.bad('runs', 'runs %s instead of the parser the function returned' % names([e[1] for e in runs]))
        return c.flush()
    e = c.run(runs[0][1], START, c.rec())
    given = eng.resolve(st, runs[0][1][2])
    if given != eng.resolve(st, vals[0]):
        c.bad('runs', 'the function is given %s instead of the recursive parser' % show(given))
    c.check_result(e)
    c.flush()


for _n, _ph, _sp in R.SCN:
    add_scn(_n, 'recursive', _ph, _sp or _fn_spec, track_drops=True, owners=True)
add_scn('recursive.nested', 'recursive', [R.declare, R.clone(0), B('then', A, lambda vals: vals[1]), R.define(0, lambda vals: vals[2]), R.parse(0)],
        spec(R.nested), cls=R.Shallow, track_drops=True, owners=True)

# --- repetition
from repspec import *

SEP = ('Z',)


def rep(name, phases, **o):
    add_scn('rep.' + name, 'repeat', phases + [PARSE], rep_spec, cls=RepLayer, **o)


rep('repeated', [B('repeated', A)])
for _lo in (0, 1):
    for _hi in (0, 1):
        ms = ([M('at_least', MIN)] if _lo else []) + ([M('at_most', MAX)] if _hi else [])
        bounds = dict(lo=MIN if _lo else num(0), hi=MAX if _hi else None)
        nm = ('_min' if _lo else '') + ('_max' if _hi else '')
        if _lo or _hi:
            rep('repeated' + nm, [B('repeated', A)] + ms, **bounds)
        for _l in (0, 1):
            for _t in (0, 1):
                mm = ms + ([M('allow_leading')] if _l else []) + ([M('allow_trailing')] if _t else [])
                rep('separated' + nm + ('_lead' if _l else '') + ('_trail' if _t else ''), [B('separated_by', A, SEP)] + mm,
                    sep=SEP, lead=bool(_l), trail=bool(_t), **bounds)
rep('repeated_exactly', [B('repeated', A), M('exactly', MIN)], lo=MIN, hi=MIN)
rep('separated_exactly', [B('separated_by', A, SEP), M('exactly', MIN)], lo=MIN, hi=MIN, sep=SEP)
rep('repeated_with_separator', [B('repeated', A), M('with_separator', SEP)], sep=SEP)
# builder methods in every order, on whichever type they leave
_bm = dict(at_least=dict(lo=MIN), at_most=dict(hi=MAX), exactly=dict(lo=MIN, hi=MIN), allow_leading=dict(lead=True), allow_trailing=dict(trail=True),
           with_separator=dict(sep=SEP))
_arg = dict(at_least=MIN, at_most=MAX, exactly=MIN, with_separator=SEP)


def _orders(first, names):
    for ms in names:
        o = dict(sep=SEP) if first == 'separated_by' else {}
        for m in ms:
            o.update(_bm[m])
        rep('%s_%s' % (first, '_'.join(ms)), [B(first, A, *([SEP] if first == 'separated_by' else []))] + [M(m, *([_arg[m]] if m in _arg else [])) for m in ms], **o)


_orders('repeated', [p for k in (('at_least', 'with_separator'), ('at_most', 'with_separator'), ('exactly', 'with_separator'), ('at_least', 'at_most', 'with_separator'),
                                 ('at_least', 'at_most'), ('exactly', 'at_most'), ('exactly', 'at_least')) for p in itertools.permutations(k)])
_orders('repeated', [('with_separator', 'allow_leading'), ('with_separator', 'allow_trailing'), ('allow_leading',), ('allow_trailing',)] +
        [p for p in itertools.permutations(('at_least', 'at_most', 'allow_leading', 'allow_trailing'))][::5])
_orders('separated_by', [p for k in (('exactly', 'allow_leading'), ('exactly', 'allow_trailing'), ('exactly', 'at_most'), ('exactly', 'at_least'), ('at_least', 'at_most'),
                                     ('allow_leading', 'allow_trailing'), ('at_least', 'allow_leading'), ('at_most', 'allow_trailing'), ('at_most', 'allow_leading'),
                                     ('at_least', 'allow_trailing')) for p in itertools.permutations(k)])
_orders('separated_by', [p for p in itertools.permutations(('at_least', 'at_most', 'allow_leading', 'allow_trailing'))][::5])
# small numbers of items, every path followed exactly
for _lo in (0, 1, 2, 3):
    _ph = [M('at_least', num(_lo)), M('at_most', num(3))]
    rep('small_repeated_%d_3' % _lo, [B('repeated', A)] + _ph, lo=num(_lo), hi=num(3), delay=20)
    for _l in (0, 1):
        for _t in (0, 1):
            rep('small_separated_%d_3%s%s' % (_lo, '_lead' if _l else '', '_trail' if _t else ''),
                [B('separated_by', A, SEP)] + _ph + ([M('allow_leading')] if _l else []) + ([M('allow_trailing')] if _t else []),
                lo=num(_lo), hi=num(3), sep=SEP, lead=bool(_l), trail=bool(_t), delay=20)

for _n, _ph, _o in (('repeated', B('repeated', A), {}), ('separated', B('separated_by', A, SEP), dict(sep=SEP))):
    # many items: nothing changes below a hundred
    rep('many_%s' % _n, [_ph], hi=None, lo=num(0), delay=120, rounds=100, **_o)
    rep('many_%s_exactly' % _n, [_ph, M('exactly', num(70))], lo=num(70), hi=num(70), delay=220, rounds=100, **_o)
    # very many, one run of the loop
    _o = dict(_o, delay=5000, rounds=1100, plain=True, round_limit=5000, max_states=600000)
    rep('long_%s' % _n, [_ph], hi=None, lo=num(0), **_o)
    rep('long_%s_min' % _n, [_ph, M('at_least', num(1105))], hi=None, lo=num(1105), **_o)
    rep('long_%s_max' % _n, [_ph, M('at_most', num(300))], lo=num(0), hi=num(300), **_o)
    rep('long_%s_exactly' % _n, [_ph, M('exactly', num(300))], lo=num(300), hi=num(300), **_o)
for _lo in range(6):
    _ph = [M('at_least', num(_lo)), M('at_most', num(5))]
    rep('some_repeated_%d_5' % _lo, [B('repeated', A)] + _ph, lo=num(_lo), hi=num(5), delay=20)
    rep('some_separated_%d_5' % _lo, [B('separated_by', A, SEP)] + _ph + [M('allow_trailing')], lo=num(_lo), hi=num(5), sep=SEP, trail=True, delay=20)

_ms = [M('at_least', MIN), M('at_most', MAX)]
for _n, _ph in (('repeated', [B('repeated', A)]), ('repeated_bounded', [B('repeated', A)] + _ms), ('repeated_min', [B('repeated', A)] + _ms[:1])):
    add_scn('term.' + _n, 'terminate', _ph + [PARSE], term_spec, cls=TermLayer)
for _l in (0, 1):
    for _t in (0, 1):
        for _b in ([], _ms[:1], _ms[1:], _ms):
            add_scn('term.separated%s%s%s' % ('_lead' if _l else '', '_trail' if _t else '', '_' + '_'.join('min' if b is _ms[0] else 'max' for b in _b) if _b else ''),
                    'terminate', [B('separated_by', A, SEP)] + _b + ([M('allow_leading')] if _l else []) + ([M('allow_trailing')] if _t else []) + [PARSE],
                    term_spec, cls=TermLayer)

# --- entry points, streaming, results
from entryspec import *

for _n, _loc, _std in (('parse_with_recovery', None, False), ('parse_with_recovery_and_location', LOC, False),
                       ('parse', None, True), ('parse_with_location', LOC, True)):
    add_scn('entry.' + _n, 'entry', [ENTRY(_n, SRC, *([LOC] if _loc else []))], entry_spec(_loc, _std), cls=EntryLayer)
for _n, _loc in (('stream', None), ('stream_with_location', LOC)):
    _e = ENTRY(_n, SRC, *([LOC] if _loc else []))
    add_scn('entry.' + _n, 'entry', [_e, DRIVE('stream'), NEXT_OF('stream', None)], stream_spec(_loc, 1), cls=EntryLayer)
    add_scn('entry.' + _n + '_tail', 'entry', [_e, NEXT_OF('stream', None), TAIL, DRIVE('tail'), NEXT_OF('tail', None)], stream_spec(_loc, 1), cls=EntryLayer)
    add_scn('entry.' + _n + '_tail_only', 'entry', [_e, TAIL, DRIVE('tail'), NEXT_OF('tail', None)], stream_spec(_loc, 1), cls=EntryLayer)
for _k in 'SRF':
    for _n, _ph, _sp in (('is_ok', [RES('is_ok', byref=True)], is_ok_spec), ('tree', [RES('tree', byref=True)], tree_spec),
                         ('errors', [RES('errors', byref=True), DRIVE('errors'), NEXT_OF('errors', None)], errors_spec),
                         ('into', [INTO], std_spec), ('map', [RES('map', F)], map_out_spec), ('map_err', [RES('map_err', F)], map_err_spec),
                         ('try_map', [RES('try_map', F)], try_map_res_spec)):
        add_scn('result.%s_%s' % (_n, _k), 'result', _ph, _sp, cls=ResLayer, kind_=_k)

# --- error values
from errspec import *

_g = lambda s: (s + 'x',)
_at = ('ATx',)
for _t, _n, _k, _args, _want in (
        (ERROR, 'expected_found', 'ExpectedFound', lambda l: [('l', (('x', ('Xx',), ZERO, ('#nx',)),)), _g('FOUND'), _at], lambda l: fields(l, 'ExpectedFound', 'x', _at)),
        (ERROR, 'unmatched_left_delimiter', 'UnmatchedLeftDelimiter', lambda l: [_g('LT'), _g('LS'), _at], lambda l: fields(l, 'UnmatchedLeftDelimiter', 'x', _at)),
        (ERROR, 'unmatched_right_delimiter', 'UnmatchedRightDelimiter', lambda l: [_g('RT'), _g('RS'), _at], lambda l: fields(l, 'UnmatchedRightDelimiter', 'x', _at)),
        (ERROR, 'unmatched_delimiter_type', 'UnmatchedDelimiterType', lambda l: [_g('LT'), _g('LS'), _g('RT'), _g('RS')], lambda l: fields(l, 'UnmatchedDelimiterType', 'x', _at)),
        (ERROR, 'custom', 'Custom', lambda l: [_g('MSG'), _at], lambda l: (('tostr', _g('MSG')), _at)),
        (FALLBACK, 'simple', 'Custom', lambda l: [_g('MSG')], lambda l: (('tostr', _g('MSG')), at(l, 'None', '')))):
    add_scn('error.' + _n, 'error', [CTOR(_t, _n, _args)], ctor_spec(_k, _want), cls=ErrLayer)
for _k in VARIANTS:
    for _a in ('None', 'Location', 'Span'):
        add_scn('error.location_%s_%s' % (_k, _a), 'error', [ON('location', _k, _a)], location_spec(_k, _a), cls=ErrLayer)
    add_scn('error.is_expected_found_%s' % _k, 'error', [ON('is_expected_found', _k, 'Span')], isef_spec(_k), cls=ErrLayer)
    for _k2 in VARIANTS:
        add_scn('error.merge_%s_%s' % (_k, _k2), 'error', [MERGE(_k, _k2)], merge_spec(_k, _k2), cls=ErrLayer)
for _a in ('None', 'Location', 'Span'):
    for _a2 in ('None', 'Location', 'Span'):
        add_scn('error.merge_at_%s_%s' % (_a, _a2), 'error', [MERGE('ExpectedFound', 'ExpectedFound', _a, _a2)],
                merge_spec('ExpectedFound', 'ExpectedFound', _a, _a2), cls=ErrLayer)

# --- location trackers
import locspec

for _n, _ph, _sp, _o in locspec.SCN:
    add_scn(_n, 'tracker', _ph, _sp, **_o)

# --- delimiters
import delimspec

for _n, _ph, _sp, _o in delimspec.SCN:
    add_scn(_n, 'delimiters', _ph, _sp, **_o)

# --- the stream
import streamspec

for _n, _ph, _sp, _o in streamspec.SCN:
    add_scn(_n, 'stream', _ph, _sp, **_o)

# --- rendered messages
import textspec

for _n, _ph, _sp, _o in textspec.SCN:
    add_scn(_n, 'text', _ph, _sp, **_o)
