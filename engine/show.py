import sys
from engine.program import load
from engine.absint import *
P = load()
full = '-v' in sys.argv
for q in [a for a in sys.argv[1:] if a[0] != '-']:
    fs = P.byname.get(q) or [f for k, v in P.byname.items() if k.endswith(q) for f in v]
    for f in fs:
        print('#', f['q'], f['sig'], f['file'], f['l'])
        I = Interp(P)
        tr = I.run(f)
        dump(tr, full=full)
        print('imprecise', I.imprecise, 'analysed', len(I.analysed))
