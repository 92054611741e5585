"""Values users keep and compare (C34): equality and Clone of results, errors, locations, spans,
trackers and scanners are structural."""
from lin import num
from interp import show, vref, Unknown
from layer import CR, PARSER, RECOVER, SCANNER
from effects import CLONE, CloneLayer, Facts, SelfTest, clones, clone_scn, field_value, PARSERLIKE

EQ = 'core::cmp::PartialEq'


def eq_scn(prog, t, key, name, i, j, adt):
    vs = adt['variants']

    def make(st, k, tag):
        return ('a', t['d'], k, tuple(field_value(prog, st, prog.types[f['ty'] + adt['off']], tag + '.' + f['name']) for f in vs[k]['fields']))

    def phase(l, eng, st, vals):
        st.ghost['pair'] = (make(st, i, 'left'), make(st, j, 'right'))
        return key, [vref(x) for x in st.ghost['pair']], None

    def check(l, eng, st, vals):
        r = eng.resolve(st, vals[-1])
        a, b = st.ghost['pair']
        want, why = i == j, 'they are of different kinds'
        if want:
            for f, x, y in zip(vs[i]['fields'], a[3], b[3]):
                if not eng.eq_val(st, x, y):
                    want, why = False, 'field %s differs' % f['name']
                    break
        if name == 'ne':
            want = not want
        if r != want:
            if i == j and want == (name == 'eq'):
                why = 'all fields agree'
            l.problem(eng, st, ('effect',), '%s of two %s%s is %s although %s' % (
                'equality' if name == 'eq' else 'inequality', t['s'], '' if i == j and len(vs) == 1 else ' (%s, %s)' % (vs[i]['name'], vs[j]['name']),
                show(r) if not isinstance(r, bool) else r, why))
    return ('%s.%s.%s_%s' % (name, t['s'], vs[i]['name'], vs[j]['name']), 'value', [phase], check, dict(cls=CloneLayer))


def equalities(prog, settle, crate, only=None):
    out = []
    for name in ('eq', 'ne'):
        for t, key, im in prog.impl_ix.get((EQ, name), []):
            if im['crate'] != crate or t['k'] != 'adt' or only and only not in t['s']:
                continue
            ta = im.get('trait_args') or []
            if len(ta) > 1 and prog.types[ta[1]].get('d') != t['d']:
                continue            # comparison with something else
            adt = prog.adts[t['d']]
            n = len(adt['variants'])
            for i in range(n):
                for j in range(n):
                    out.append(settle(eq_scn(prog, t, key, name, i, j, adt)))
    return out


def selftest(prog, settle):
    eq = equalities(prog, settle, 'shims', 'selftest')
    bad = sorted(r['name'] for r in eq if r['problems'])
    if len(eq) < 5 or not bad or any('Half' not in b for b in bad):
        raise SelfTest('the equality rule reports %s of %d in the self test' % (bad, len(eq)))


def values(prog, settle):
    selftest(prog, settle)
    eq = equalities(prog, settle, CR)
    f = Facts(prog, CR, PARSERLIKE, 'nothing')
    parsers = set()
    for im in prog.impls:
        if im['crate'] == CR and im.get('trait') in (PARSER, RECOVER):
            for p in f.parts(prog.types[im['self']]):
                if p['k'] == 'adt':
                    parsers.add(p['d'])
    cl = []
    for t, key, im in prog.impl_ix.get((CLONE, 'clone'), []):
        if im['crate'] != CR or t['k'] != 'adt' or t['d'] in parsers:
            continue
        for i, v in enumerate(prog.adts[t['d']]['variants']):
            cl.append(settle(clone_scn(prog, CR, t, key, i, v)))
    if not eq or not cl:
        raise SelfTest('no equality or no Clone found')
    return eq + cl
