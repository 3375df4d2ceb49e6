"""Debugging aid: reduces the script of a replay file while the specification still rejects it.
usage: shrink.py BINARY REPLAY.json [max rounds]"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vrun
def main():
    binary, rp = sys.argv[1], json.load(open(sys.argv[2]))
    c = vrun.Check('SHRINK'); mod = rp['spec']; op = rp['rejected_event']['op']; why = rp['rejected_event'].get('why')
    def bad(cands):
        sc = [('s%d' % i, x) for i, x in enumerate(cands)]
        tr = c.run_driver(binary, sc, 'sh'); _, rej = c.validate(mod, tr)
        return sorted(int(r[0][1:]) for r in rej if r[2]['op'] == op and r[2].get('why') == why)
    cur = rp['script']
    for rnd in range(int(sys.argv[3]) if len(sys.argv) > 3 else 30):
        cands = []
        for n in (len(cur) // 2, len(cur) // 4, 3, 2, 1):
            if n < 1: continue
            for i in range(0, len(cur), n): cands.append(cur[:i] + cur[i + n:])
        for i, l in enumerate(cur):
            w = l.split()
            if w[0] == 'T':
                k = (len(w) - 1) // 3
                if k > 1:
                    for j in range(k): cands.append(cur[:i] + [' '.join(['T'] + [x for q in range(k) if q != j for x in w[1 + 3 * q:4 + 3 * q]])] + cur[i + 1:])
        b = bad(cands)
        if not b: break
        cur = min((cands[i] for i in b), key=lambda x: sum(len(l) for l in x))
    print('\n'.join(cur))
    tr = c.run_driver(binary, [('final', cur)], 'fin'); _, rej = c.validate(mod, tr)
    for r in rej: print('rejected event %d: %s' % (r[1], json.dumps(r[2])))
main()
