import sys; sys.path.insert(0,'/verif')
from rules.lib import *
import engine.program as pr
# sh.py NAME [opaque,names] [-v] [-c core|-a all|tools]
def main():
    a=sys.argv[1:]
    only=TOOLS
    if '-a' in a: only=None
    if '-c' in a: only=(r'^src/core/', r'^drivers/core')
    P=pr.load(only=(lambda r: any(re.search(p,r) for p in only)) if only else None)
    pos=[x for x in a if x[0]!='-']
    op=pos[1].split(',') if len(pos)>1 else []
    for f in (P.byname.get(pos[0]) or [f for k,v in P.byname.items() if k.endswith(pos[0]) for f in v]):
        if not f.get('body'): continue
        print('#',f['q'],f['sig'],f['kind'])
        I=Interp(P,opaque=lambda q: any(q.endswith('::'+x) for x in op))
        try: dump(I.run(f),full='-v' in a)
        except Exception as e: print('EXC',type(e),e)
main()
