"""What the type checker must refuse (C29).

Two parts.  Facts over all impls and public functions of the current tree, which hold for every
client program; and witnesses: client programs that rustc has to refuse with a given error,
each next to a twin that differs in one place and has to compile (so that the refusal is not
for another reason).  The witnesses are generic over token, parser and error types."""
import glob
import json
import os
import shutil
import subprocess
import tempfile
import build
from effects import SelfTest, CELLS
from layer import CR

STRATEGY, INCOMPLETE, RECOVERT = [CR + '::recovery::' + x for x in ('Strategy', 'IncompleteStrategy', 'Recover')]
SAVED, STREAM = CR + '::stream::SavedState', CR + '::stream::Stream'

# ways to extend a strategy: method -> arguments; each is also a free function of the same name
METHODS = {
    'restart': '', 'seek_to_failed': '', 'skip': '', 'skip_if': '|_| true', 'find': '|_| true',
    'scan': '|| NoScan', 'maybe': 'skip()', 'while_not': '|_| true, skip()', 'retry': '', 'try_to_parse': 'c2',
    'push_error': '|| todo!()', 'push_error_here': '|_| todo!()', 'push_error_up_to_here': '|_| todo!()', 'push_error_for_token': '|_, _| todo!()',
    'update_errors': '|_| ()', 'update_errors_here': '|_, _| ()', 'update_errors_up_to_here': '|_, _| ()', 'update_errors_for_token': '|_, _, _| ()',
    'boxed': '', 'do_nothing': '',
}
FREE_ONLY = {'attempt_to': ''}
NOT_FREE = {'boxed', 'do_nothing', 'restart'}
COMPLETE = {'and_return': 'o', 'and_return_with': '|| todo!()', 'and_return_with_span': '|_| todo!()', 'or_fail': ''}
FREE_COMPLETE = {'just_return': 'o', 'just_return_with': '|| todo!()', 'just_return_with_span': '|_| todo!()'}

HEAD = '''#![allow(warnings)]
use parse_proof_of_concept::prelude::*;
use parse_proof_of_concept::{error, location, scanner};
use parse_proof_of_concept::stream::{SavedState, Stream};
pub struct NoScan;
impl<'i, I: Clone + 'i, E: error::Error<'i, I>> scanner::Scanner<'i, I, E> for NoScan {
    fn scan(&mut self, _: I, _: <E::LocationTracker as location::Tracker<I>>::Span, _: &mut Vec<E>) -> bool { true }
}
fn clone<T: Clone>() {}
fn copy<T: Copy>() {}
fn default<T: Default>() {}
fn from<T: From<X>, X>() {}
fn as_mut<T: AsMut<X>, X>() {}
fn deref_mut<T: std::ops::DerefMut>() {}
fn add_assign<T: std::ops::AddAssign<X>, X>() {}
'''
GEN = "<'i, I: Clone + 'i, C: Parser<'i, I> + 'i, D: Parser<'i, I, Output = C::Output, Error = C::Error> + 'i>(c: C, c2: D, o: C::Output) where C::Output: Clone + 'i, C::Error: 'i"
STR = "<'i, I: 'i, L: location::Tracker<I>>(s: &mut Stream<'i, I, L>)"


def call(fn, args):
    return '%s(%s)' % (fn, args)


def programs(prog):
    """[(name, signature, refused body, accepted body, expected codes)]"""
    out = []
    free = {m: a for m, a in METHODS.items() if m not in NOT_FREE}
    free.update(FREE_ONLY)
    incomplete = [('free ' + m, call(m, a)) for m, a in free.items()]
    incomplete += [('method ' + m, 'attempt_to().%s' % call(m, a)) for m, a in METHODS.items()]
    for n, x in incomplete:
        out.append(('to_recover takes no incomplete strategy: ' + n, GEN, 'let _ = c.to_recover(%s);' % x, 'let _ = c.to_recover(%s.or_fail());' % x, {'E0277'}))
    complete = [('method ' + m, 'skip().%s' % call(m, a)) for m, a in COMPLETE.items()] + [('free ' + m, call(m, a)) for m, a in FREE_COMPLETE.items()]
    for n, y in complete:
        ty = 'let y = %s;' % y
        for m, a in list(METHODS.items()) + list(COMPLETE.items()):
            if (a == 'o' or m == 'and_return') and "(o)" in y:
                a = 'todo!()'
            out.append(('%s cannot follow %s' % (m, n), GEN, 'let y = %s; let z = y.%s; let _ = c.to_recover(z);' % (y, call(m, a)), 'let y = %s; let _ = c.to_recover(y);' % y, {'E0599'}))
        for m in ('maybe(%s)', 'skip().maybe(%s)', 'while_not(|_| true, %s)', 'skip().while_not(|_| true, %s)'):
            out.append(('%s cannot hold %s' % (m % '..', n), GEN, 'let _ = c.to_recover(%s.or_fail());' % (m % y), 'let _ = c.to_recover(%s.or_fail());' % (m % 'skip()'), {'E0277'}))
    for n, b, code in (('Clone', 'clone::<%s>()', 'E0277'), ('Copy', 'copy::<%s>()', 'E0277'), ('Default', 'default::<%s>()', 'E0277'),
                       ('From<usize>', 'from::<%s, usize>()', 'E0277'), ('AsMut<usize>', 'as_mut::<%s, usize>()', 'E0277'),
                       ('DerefMut', 'deref_mut::<%s>()', 'E0277'), ('AddAssign<usize>', 'add_assign::<%s, usize>()', 'E0277')):
        good = {'AsMut<usize>': 'Box<usize>', 'DerefMut': 'Box<usize>'}.get(n, 'usize')
        out.append(('a saved position is not ' + n, STR, (b % 'SavedState') + ';', (b % good) + ';', {code}))
    out.append(('a saved position is not duplicated', STR, 'let a = s.save(); let b = a; s.restore(&a);', 'let a = s.save(); let b = &a; s.restore(&a);', {'E0382'}))
    adt = prog.adts[SAVED]
    fs = [f['name'] for f in adt['variants'][0]['fields']]
    if not adt['enum']:
        tup = fs and fs[0] == '0'
        for f in fs:
            out.append(('field %s of a saved position cannot be read' % f, STR, 'let a = s.save(); let _ = &a.%s;' % f, 'let a = s.save(); let _ = &a;', {'E0616'}))
            out.append(('field %s of a saved position cannot be written' % f, STR, 'let mut a = s.save(); a.%s = todo!();' % f, 'let mut a = s.save(); a = todo!();', {'E0616'}))
        if tup:
            out.append(('a saved position cannot be constructed', STR, 'let _ = SavedState(%s);' % ', '.join('todo!()' for _ in fs), 'let _: SavedState = todo!();', {'E0423', 'E0603'}))
        else:
            out.append(('a saved position cannot be constructed', STR, 'let _ = SavedState { %s };' % ', '.join('%s: todo!()' % f for f in fs), 'let _: SavedState = todo!();', {'E0451'}))
            out.append(('a saved position cannot be taken apart', STR, 'let SavedState { %s } = s.save();' % ', '.join(fs), 'let _a = s.save();', {'E0451'}))
    return out


def rustc(path, rmeta, out):
    p = subprocess.run(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--emit', 'metadata', '--error-format', 'json', '--extern',
                        'parse_proof_of_concept=' + rmeta, '-o', out + '/w.rmeta', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=out)
    errs = []
    for line in p.stderr.split('\n'):
        if line.startswith('{'):
            d = json.loads(line)
            if d.get('level') == 'error' and d['spans']:
                errs.append(((d['code'] or {}).get('code'), {s['line_start'] for s in d['spans'] if s['is_primary']}, d['message']))
            elif d.get('level', '').startswith('error') and not d['message'].startswith('aborting'):
                errs.append((None, set(), d['message']))
    return p.returncode, errs


def write(path, ps, which):
    lines = HEAD.rstrip('\n').split('\n')
    at = []
    for i, p in enumerate(ps):
        gen, rest = p[1].split('(', 1)
        lines.append('pub fn w%d%s { %s }' % (i, p[1], p[which]) if ' where ' not in p[1] else 'pub fn w%d%s { %s }' % (i, p[1], p[which]))
        at.append(len(lines))
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return at


def witnesses(prog):
    tmp = tempfile.mkdtemp(prefix='ppoc-wit-')
    try:
        e = dict(os.environ, CARGO_INCREMENTAL='0')
        e.pop('RUSTC_WRAPPER', None)
        build.run(['cargo', '+nightly', 'check', '--lib', '--offline', '--target-dir', tmp + '/t'], build.REPO, e)
        rmeta = glob.glob(tmp + '/t/**/libparse_proof_of_concept*.rmeta', recursive=True)
        if not rmeta:
            raise SelfTest('cargo check leaves no metadata')
        rmeta = rmeta[0]
        ps = programs(prog)
        problems, undecided = [], []
        at = write(tmp + '/good.rs', ps, 3)
        rc, errs = rustc(tmp + '/good.rs', rmeta, tmp)
        bad = {}
        for code, ls, msg in errs:
            for i, a in enumerate(at):
                if a in ls:
                    bad.setdefault(i, msg)
            if not any(a in ls for a in at):
                bad.setdefault(None, msg)
        if None in bad or rc and not bad:
            undecided.append(('the accepted programs do not compile: %s' % bad.get(None, 'rustc fails'), ''))
        for i, m in bad.items():
            if i is not None:
                undecided.append(('%s: the twin does not compile: %s' % (ps[i][0], m), ''))
        # refusals come from several passes of the compiler, of which an early one hides the later ones
        group = {}
        for i, p in enumerate(ps):
            if i not in bad:
                group.setdefault({'E0599': 1, 'E0277': 2, 'E0616': 3, 'E0382': 4}.get(sorted(p[4])[0], 5), []).append(i)
        n = 0
        for g, ix in sorted(group.items()):
            at = write(tmp + '/bad.rs', [ps[i] for i in ix], 2)
            rc, errs = rustc(tmp + '/bad.rs', rmeta, tmp)
            for k, i in enumerate(ix):
                n += 1
                codes = {c for c, ls, _ in errs if at[k] in ls}
                if not codes & ps[i][4]:
                    what = 'is refused with %s only' % sorted(map(str, codes)) if codes else 'compiles'
                    msg = '%s: the program `%s` %s' % (ps[i][0], ps[i][2], what)
                    if codes:
                        undecided.append((msg, ''))
                    else:
                        problems.append(dict(aspects=['types'], message=msg, where='client program', path=[['', ps[i][1] + ' { ' + ps[i][2] + ' }']], widened=False))
        return dict(name='witnesses', problems=problems, undecided=undecided, functions=[], missing=None,
                    counts=dict(programs_refused=n, programs_accepted=len(ps) - len(bad)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def held(prog, t, stop, seen=None):
    """parts of a type that come with ownership or as &mut"""
    seen = set() if seen is None else seen
    if id(t) in seen:
        return
    seen.add(id(t))
    yield t
    k = t['k']
    sub = []
    if k == 'adt':
        sub = [prog.types[a] for a in t['a']]
        d = prog.adts.get(t['d'])
        if d and d['local'] and t['d'] != stop:
            sub += [prog.types[f['ty'] + d['off']] for v in d['variants'] for f in v['fields'] if f.get('ty') is not None]
    elif k in ('slice', 'array') or k == 'ref' and t['m']:
        sub = [prog.types[t['e']]]
    elif k == 'tuple':
        sub = [prog.types[a] for a in t['e']]
    elif k == 'closure':
        sub = [prog.types[a] for a in t['u']]
    for s in sub:
        yield from held(prog, s, stop, seen)


def has(prog, t, d):
    return any(p['k'] == 'adt' and p['d'] == d for p in held(prog, t, d))


def through(t, prog):
    while t['k'] == 'ref':
        t = prog.types[t['e']]
    return t


def saved_facts(prog, crate, saved, stream, problem):
    n = 0
    adt = prog.adts[saved]
    for v in adt['variants']:
        for f in v['fields']:
            n += 1
            if f['pub'] or adt['enum']:
                problem('field %s of a saved position is public' % f['name'], saved)
    for im in prog.impls:
        if im['crate'] != crate:
            continue
        t = prog.types[im['self']]
        if t['k'] == 'adt' and t['d'] == saved and not im.get('negative'):
            n += 1
            name = (im.get('trait') or '').split('::')[-1]
            if name in ('Clone', 'Copy', 'Default', 'DerefMut', 'AsMut', 'BorrowMut', 'IndexMut', 'From', 'FromStr', 'TryFrom'):
                problem('a saved position implements ' + name, im['loc'])
    traits = {im['d'] for im in prog.impls if im['crate'] == crate and im.get('trait')}
    for k, b in prog.bodies.items():
        if b['crate'] != crate or b.get('kind') not in ('Fn', 'AssocFn') or not (b.get('pub') or b.get('trait') or b.get('impl') in traits):
            continue
        n += 1
        args = [prog.types[x] for x in b['locals'][1:b['argc'] + 1]]
        ret = prog.types[b['locals'][0]]
        streams = any(p['k'] == 'adt' and p['d'] == stream for a in args for p in held(prog, through(a, prog), saved))
        owned = any(has(prog, a, saved) for a in args if a['k'] != 'ref')
        if has(prog, ret, saved) and not streams and not owned:
            problem('%s makes a saved position without a stream' % b['path'], b['loc'])
        if args and args[0]['k'] == 'ref' and through(args[0], prog).get('d') == saved:
            if args[0]['m'] and b['name'] != 'drop' and not streams:
                problem('%s alters a saved position' % b['path'], b['loc'])
            if any(p['k'] == 'adt' and p['d'] in CELLS for p in held(prog, through(ret, prog), saved)):
                problem('%s gives access to the inside of a saved position' % b['path'], b['loc'])
    return n


def strategy_facts(prog, crate, strategy, incomplete, problem):
    n = 0
    byt = {}
    for im in prog.impls:
        if im['crate'] == crate and im.get('trait') in (strategy, incomplete):
            byt.setdefault(im['trait'], []).append((prog.types[im['self']], im))

    def head(t):
        """the type that decides, through references and boxes"""
        while True:
            if t['k'] == 'ref':
                t = prog.types[t['e']]
            elif t['k'] == 'adt' and t['d'].split('::')[-1] in ('Box', 'Rc', 'Arc') and not prog.adts.get(t['d'], {}).get('local') and t['a']:
                t = prog.types[t['a'][0]]
            else:
                return t
    inc = {head(t)['d'] for t, im in byt.get(incomplete, []) if head(t)['k'] == 'adt'}
    for t, im in byt.get(strategy, []):
        n += 1
        h = head(t)
        if h['k'] == 'adt':
            # two impls for one type that never apply together are too subtle to allow
            if h['d'] in inc:
                problem('%s is both a complete and an incomplete strategy' % t['s'], im['loc'])
        elif h['k'] in ('param', 'alias'):
            if not any(k == strategy and prog.types[p]['s'] == h['s'] for p, k in im['preds']):
                problem('%s is a complete strategy whatever it wraps' % t['s'], im['loc'])
        elif h['k'] == 'dyn':
            if strategy not in [x[0] if isinstance(x, (list, tuple)) else x for x in h.get('t', [])]:
                problem('%s is a complete strategy whatever it is' % t['s'], im['loc'])
    for t, im in byt.get(incomplete, []):
        n += 1
        h = head(t)
        if h['k'] in ('param', 'alias') and not any(k == incomplete and prog.types[p]['s'] == h['s'] for p, k in im['preds']):
            problem('%s is an incomplete strategy whatever it wraps' % t['s'], im['loc'])
    return n


def selftest(prog):
    """the rules have to report the examples of shims::selftest"""
    got = []
    s = 'shims::selftest::'
    strategy_facts(prog, 'shims', s + 'Complete', s + 'Partial', lambda m, w: got.append(m))
    saved_facts(prog, 'shims', s + 'Place', s + 'Places', lambda m, w: got.append(m))
    want = ['Both is both', '&T is a complete strategy whatever', 'Box<T> is an incomplete strategy whatever', 'field open', 'implements Clone', 'Place::forge makes', 'Place::bump alters', 'Place::inside gives']
    for w in want:
        if not any(w in g for g in got):
            raise SelfTest('the type rules do not report "%s" (%s)' % (w, got))
    if len(got) != len(want) + 1:       # Clone::clone also makes one
        raise SelfTest('the type rules report %s' % got)


def misuse(prog, settle):
    selftest(prog)
    problems = []

    def problem(msg, where):
        problems.append(dict(aspects=['types'], message=msg, where=where, path=[], widened=False))
    n = strategy_facts(prog, CR, STRATEGY, INCOMPLETE, problem)
    if n < 10:
        raise SelfTest('only %d strategies found' % n)
    n += saved_facts(prog, CR, SAVED, STREAM, problem)
    return [dict(name='facts', problems=problems, undecided=[], functions=[], missing=None, counts=dict(type_facts=n)), witnesses(prog)]
