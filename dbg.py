"""developer helper: run single obligations   dbg.py C14 key-substring"""
import sys, os, importlib, warnings
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000); sys.dont_write_bytecode=True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa.loader import Program
from sa import report
pid, sub = sys.argv[1], sys.argv[2]
os.environ["SA_DEBUG"]="1"
import traceback
_pe=traceback.print_exc
report.traceback.print_exc=lambda *a,**k: print("\n".join(traceback.format_exc().splitlines()[-12:]))
if os.environ.get("OPQ"):
    import sa.lib as LL
    oo=LL.opaque; cnt=[0]
    def tr(p):
        cnt[0]+=1
        if cnt[0]<int(os.environ["OPQ"]): print("OPAQUE",cur[0].where(),repr(p)[:200])
        return oo(p)
    LL.opaque=tr
cur=[None]
ctx=report.Ctx(pid, Program(os.environ.get("SA_REPO")) if os.environ.get("SA_REPO") else Program())
ctx.inline=True
old=ctx.ob
def ob(key,*a):
    if sub in key:
        r=old(key,*a); o=ctx.obs[-1]; print(o["key"],o["status"],o["detail"][:900],o["t"])
        return r
    return report.ok()
ctx.ob=ob
oi=ctx.interp
def interp(*a,**k):
    I=oi(*a,**k); cur[0]=I; I.propagate = len(sys.argv)>3; return I
ctx.interp=interp
importlib.import_module("sa.checks."+pid).run(ctx)
