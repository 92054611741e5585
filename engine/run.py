import sys, time
sys.path.insert(0, __file__.rsplit('/', 1)[0])
from model import Program
from layer import Layer, Missing
from interp import Unknown, show
import scenarios


def run_scn(prog, scn):
    name, fam, phases, sp, opts = scn
    cls = opts.get('cls', Layer)
    l = cls(prog, name, phases, sp)
    for k, v in opts.items():
        if k != 'cls':
            setattr(l, k, v)
    t = time.time()
    l.eng = None
    try:
        l.run()
        unk = l.eng.unknowns
    except Unknown as u:
        unk = (l.eng.unknowns if l.eng else []) + [(str(u), '')]
    return l, unk, time.time() - t


if __name__ == '__main__':
    import os
    d = os.environ.get('D', '/tmp/dump')
    P = Program([d + '/parse_proof_of_concept.json', d + '/shims.json'])
    for scn in scenarios.SCEN:
        if len(sys.argv) > 1 and scn[0] not in sys.argv[1:] and scn[1] not in sys.argv[1:]:
            continue
        try:
            l, unk, dt = run_scn(P, scn)
        except Missing as m:
            print('%-22s MISSING %s' % (scn[0], m))
            continue
        st = l.eng.stats
        print('%-22s %5.1fs finals=%d steps=%d pruned=%d joins=%d panics=%d problems=%d unknown=%d' % (scn[0], dt, l.finals, st['steps'], st['pruned'], st['joins'], l.panics, len(l.problems), len(unk)))
        for u in list(dict.fromkeys(unk))[:4]:
            print('    ?', u[0][:300], u[1])
        seen = set()
        for a, m, loc, tr, w in l.problems:
            if (a, m, w) not in seen:
                seen.add((a, m, w))
                if len(seen) < 8:
                    print('    !', a, m[:300], '(widened)' if w else '', loc)
                    if '-v' in sys.argv:
                        for x in tr: print('         ', x)
