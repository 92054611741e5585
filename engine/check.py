"""check.py <property id>: decide one property on /repo's current working tree.

Exit 0: held on everything analysed.  Exit 1 and a VIOLATION line: broken."""
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
from build import VERIF
from model import Program
from layer import Layer, Missing, Found
from interp import Unknown
import scenarios
import table



class OutOfTime(Exception):
    pass


PROG = None
PROGS = []            # the tree as compiled with and, where that differs, without debug assertions
TIER = 'quick'
LIMIT = 200           # seconds for one analysis
DEADLINE = 0
RETRY_DELAY = 3
DEEP_LIMIT = 60
AFTER = 20            # seconds the other analyses get once something was found


def run_scenario(scn, extra_delay=0, stop=False):
    """-> dict with the problems, undecided paths and counts of one scenario"""
    name, fam, phases, sp, opts = scn
    out = dict(name=name, family=fam, problems=[], undecided=[], missing=None)
    t = time.time()
    try:
        l = opts.get('cls', Layer)(PROG, name, phases, sp)
        for k, v in opts.items():
            if k != 'cls':
                setattr(l, k, v)
        if extra_delay:
            l.delay = l.delay + extra_delay
        l.stop_at_problem = stop
        l.eng = None
        try:
            l.run()
            unk = list(l.eng.unknowns)
        except Found:
            unk = list(l.eng.unknowns)
        except Unknown as u:
            unk = (l.eng.unknowns if l.eng else []) + [(str(u), '')]
        except RecursionError:
            unk = (l.eng.unknowns if l.eng else []) + [('recursion limit', '')]
        except (OutOfTime, Missing):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            unk = (l.eng.unknowns if l.eng else []) + [('%s: %s at %s:%d' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno), '')]
    except Missing as m:
        out['missing'] = str(m)
        out['wall'] = time.time() - t
        return out
    out['undecided'] = sorted(set(u for u in unk))
    for a, msg, loc, trail, widened in l.problems:
        out['problems'].append(dict(aspects=list(a), message=msg, where=loc, path=[list(x) for x in trail], widened=bool(widened)))
    if l.eng:
        st = l.eng.stats
        out['counts'] = dict(final_states=l.finals, panics=l.panics, statements=st['steps'], forks=st['splits'], calls=st['calls'],
                             loop_joins=st['joins'], loop_states_covered=st['pruned'])
        out['functions'] = sorted(k for k in st['functions'] if not k.startswith('shims::'))
    else:
        out['counts'], out['functions'] = {}, []
    out['wall'] = time.time() - t
    return out


def on_alarm(sig, frame):
    raise OutOfTime()


def limited(f, limit):
    """f() or None when it takes too long"""
    left = min(limit, DEADLINE - time.time())
    if left < 2:
        return None
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(left))
    try:
        return f()
    except OutOfTime:
        return None
    except MemoryError:
        return None
    finally:
        signal.alarm(0)


def firm(r):
    """problems on paths that were followed exactly"""
    return any(not p['widened'] for p in r['problems'])


def first_look(scn):
    r = limited(lambda: run_scenario(scn), LIMIT)
    if r is None:
        return dict(name=scn[0], family=scn[1], problems=[], missing=None, undecided=[('time limit', '')], wall=LIMIT, late=True)
    return r


def settle(scn):
    """analyse one scenario; where a loop had to be widened too much, look closer"""
    return closer(scn, first_look(scn))


def closer(scn, r):
    if r.get('late'):
        return r
    if TIER == 'thorough' and not firm(r):
        # keep more iterations of every loop apart
        r2 = limited(lambda: run_scenario(scn, 1), LIMIT)
        if r2 is not None and len(r2['undecided']) + len(r2['problems']) <= len(r['undecided']) + len(r['problems']):
            r = r2
    if not firm(r) and (r['undecided'] or r['problems']):
        # a widened state may be too coarse: keep more loop iterations apart
        r2 = limited(lambda: run_scenario(scn, RETRY_DELAY), LIMIT)
        if r2 is not None and (firm(r2) or len(r2['undecided']) + len(r2['problems']) <= len(r['undecided']) + len(r['problems'])):
            r2['retried'] = True
            r = r2
    if not firm(r) and (r['problems'] or any('does not converge' in u for u, _ in r['undecided'])):
        # something that only a late iteration does? follow many iterations, up to the first problem
        for d in (18, 70, 300):
            r2 = limited(lambda: run_scenario(scn, d, True), DEEP_LIMIT)
            if r2 is None:
                break
            if firm(r2):
                return r2
    return r


def merged(rs):
    """one result for a list of them"""
    r = dict(problems=[], undecided=[], missing=None, counts={}, functions=[], obligations=[])
    for x in rs:
        if x.get('missing'):
            r['missing'] = x['missing']
        r['problems'] += [dict(p, message='%s: %s' % (x['name'], p['message'])) for p in x['problems']]
        r['undecided'] += [('%s: %s' % (x['name'], u), w) for u, w in x['undecided']]
        for k, v in x.get('counts', {}).items():
            r['counts'][k] = r['counts'].get(k, 0) + v
        r['functions'] += x.get('functions', [])
        r['obligations'].append(x['name'])
    return r


def custom_worker(name):
    import importlib
    mod, fn = name.split('.')
    t = time.time()
    try:
        r = merged(getattr(importlib.import_module(mod), fn)(PROG, settle))
    except Missing as m:
        r = dict(problems=[], undecided=[], missing=str(m))
    except Exception as e:
        if type(e).__name__ == 'SelfTest':
            raise
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r = dict(problems=[], missing=None, undecided=[('%s: %s at %s:%d' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno), '')])
    r['name'] = name
    r['wall'] = time.time() - t
    return r


def job(j):
    global PROG
    n, kind, what, k = j[:4]
    PROG = PROGS[k]
    n, r = run_job(n, kind, what, j)
    if k:
        r['name'] += ' (without debug assertions)'
    return n, r


def run_job(n, kind, what, j):
    if kind == 's':
        return n, first_look(scenarios.SCEN[what])
    if kind == 'r':
        return n, closer(scenarios.SCEN[what], dict(j[4], name=scenarios.SCEN[what][0]))
    return n, custom_worker(what)


def open_end(r):
    return not firm(r) and not r.get('late') and not r.get('missing') and bool(r['undecided'] or r['problems'])


def run_jobs(jobs, relevant):
    """-> results; once something is found the rest is given a little time"""
    results = {}
    if len(jobs) == 1:
        results.update([job(jobs[0])])
        return results
    with multiprocessing.get_context('fork').Pool(min(8, len(jobs))) as pool:
        it = pool.imap_unordered(job, jobs, chunksize=1)
        stop = None
        while len(results) < len(jobs):
            try:
                n, r = it.next(None if stop is None else max(0.1, stop - time.time()))
            except multiprocessing.TimeoutError:
                pool.terminate()
                break
            results[n] = r
            if stop is None and any(relevant(r, p) and not p['widened'] for p in r['problems']):
                stop = time.time() + AFTER
    return results


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p))['findings'] if os.path.exists(p) else []


def main():
    global PROGS, TIER, DEADLINE
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    TIER = tier
    DEADLINE = t0 + (600 if tier == 'quick' else 800)
    spec = table.PROPS[pid]
    cp, sh, cleanup = build.dump_repo()
    try:
        PROGS = [Program([p, sh]) for p in cp]
    finally:
        cleanup()
    jobs = []
    for i, s in enumerate(scenarios.SCEN):
        if any(fam == s[1] for fam, _ in spec['families']) and (tier == 'thorough' or not s[4].get('thorough') and s[0] not in spec.get('skip', ())):
            jobs.append(('s', i))
    jobs += [('c', n) for n in spec.get('custom', [])]
    # the slow ones first
    jobs.sort(key=lambda j: -(scenarios.SCEN[j[1]][4].get('cost', 0) if j[0] == 's' else 0))
    fam_aspects = {}
    for fam, asp in spec['families']:
        fam_aspects.setdefault(fam, set()).update(asp)

    def relevant(r, p):
        return 'family' not in r or '*' in fam_aspects[r['family']] or bool(fam_aspects[r['family']] & set(p['aspects']))
    jobs = [(n,) + j for n, j in enumerate(j + (k,) for j in jobs for k in range(len(PROGS)))]
    got = run_jobs(jobs, relevant)
    if not any(relevant(r, p) and not p['widened'] for r in got.values() for p in r['problems']):
        again = [(n, 'r', w, i, got[n]) for n, k, w, i in jobs if k == 's' and n in got and (open_end(got[n]) or TIER == 'thorough' and not firm(got[n]))]
        if again:
            got.update(run_jobs(again, relevant))
    results = [got[n] for n in sorted(got)]
    violations, undecided, missing = [], [], []
    for r in results:
        if r.get('missing'):
            missing.append('%s: public item %s not found' % (r['name'], r['missing']))
            continue
        und = [('%s: %s' % (r['name'], u), w) for u, w in r['undecided']]
        for p in r['problems']:
            if not relevant(r, p):
                continue
            if p.get('widened'):
                und.append(('%s: %s (only after widening)' % (r['name'], p['message']), p['where']))
                continue
            violations.append(dict(p, scenario=r['name']))
        undecided += und
    for m in missing:
        violations.append(dict(scenario='', message=m, where='', path=[], aspects=['missing']))
    seen, uniq = set(), []
    for v in violations:
        k = (v['scenario'], v['message'], v['where'])
        if k not in seen:
            seen.add(k)
            uniq.append(v)
    violations = uniq
    known = [k for k in known_findings() if k['property'] == pid]
    rest = []
    for v in violations:
        hit = [k for k in known if k['scenario'] == v['scenario'] and k['message'] == v['message'] and k['where'] in v['where']]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]['what']))
        else:
            rest.append(v)

    functions = sorted(set(f for r in results for f in r.get('functions', [])))
    counts = {}
    for r in results:
        for k, v in r.get('counts', {}).items():
            counts[k] = counts.get(k, 0) + v
    loops = counts.get('loop_joins', 0)
    samples = []
    for r in results[:6]:
        samples.append('%s: %s' % (r['name'], ', '.join('%s=%s' % kv for kv in sorted(r.get('counts', {}).items()))))
    cov = dict(explanation=spec['explain'], analyses=len(results), analyses_not_finished=len(jobs) - len(results), functions_analysed=len(functions), functions=functions,
               undecided_paths=len(undecided), undecided=['%s @ %s' % u for u in undecided[:20]],
               per_analysis=[dict(name=r['name'], wall_s=round(r['wall'], 2), undecided=len(r.get('undecided', [])),
                                  **(dict(obligations=r['obligations']) if r.get('obligations') else {}), **r.get('counts', {})) for r in results],
               samples=samples, **counts)
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov,
              assumptions=table.ASSUMPTIONS + spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(rest))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    if rest:
        rp = os.path.join(VERIF, 'evidence', pid + '.replay.json')
        with open(rp, 'w') as f:
            json.dump(rest[:50], f, indent=1)
        for v in rest[:5]:
            print('%s: %s\n    at %s' % (v['scenario'], v['message'], v['where']))
            for x in v['path'][-25:]:
                print('      ', ': '.join(x))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    for u in undecided[:5]:
        print('UNDECIDED %s @ %s' % u)
    print('property=%s held: %d analyses, %d functions, %d final states, %d undecided paths, %.1fs' % (
        pid, len(results), len(functions), counts.get('final_states', 0), len(undecided), time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except build.BuildError as e:
        print('cannot build: %s' % e)
        sys.exit(2)
    except Exception as e:
        if type(e).__name__ != 'SelfTest':
            raise
        print('the rules fail their self test: %s' % e)
        sys.exit(2)
