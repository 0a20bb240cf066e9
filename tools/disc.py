# per-function discovery: run sub `name` of prop for each registry function separately
import sys; sys.path.insert(0,'/verif')
from harness import boot; boot.install()
from harness import core; core.CONFIG=sys.argv[1]
import hypothesis as hy
from harness import registry as R
from harness.core import Violation, Rec
import importlib
prop, subname, n = sys.argv[2], sys.argv[3], int(sys.argv[4])
mod=importlib.import_module('props.cross')
s=next(s for s in core.REGISTRY[prop] if s.name==subname)
of=mod.of
names=sys.argv[5:] or sorted(R.ALL)
for nm in names:

    # rebuild strategy for a single function
    import inspect
    kw=s.ofkw if hasattr(s,'ofkw') else {}
    last={}
    def body(c):
        try: s.check(c, Rec())
        except Violation as e:
            last['x']=(c,str(e)); raise
    strat=mod.OFK[subname](nm)
    if strat is None: continue
    t=hy.settings(max_examples=n,database=None,deadline=None,suppress_health_check=list(hy.HealthCheck),report_multiple_bugs=False)(hy.given(strat)(body))
    t=hy.seed(5)(t)
    try: t()
    except Violation: print(nm, last['x'][0], '\n    ', last['x'][1][:700])
    except Exception as e: print(nm, 'ERR', repr(e)[:300])
