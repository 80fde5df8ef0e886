import sys,os,threading
sys.setrecursionlimit(20000); threading.stack_size(256*1024*1024)
sys.path.insert(0,os.environ.get('PV_REPO','/repo')); sys.path.insert(0,'/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); sys.path.append('/verif/stubs')
import importlib
from engine import api, kit as K, terms as T
def main():
    import engine.smt as S
    o=S._instantiate
    def inst(tr,z,idx,d):
        if os.environ.get("IDX"): print([t.args[0] for t in idx], len(tr.binders))
        return o(tr,z,idx,d)
    S._instantiate=inst
    importlib.import_module('contracts.'+sys.argv[1].lower())
    c=[c for c in api.CONTRACTS if c.name==sys.argv[2]][0]
    orig=K.SymKit._prove
    def pr(self,label,c_,hyps=(),why='',exc=None):
        n=len(self.obls)
        orig(self,label,c_,hyps,why,exc)
        for o in self.obls[n:]:
            if o[2].status!='proved':
                print('---',o[0],o[1],o[2].status,o[2].how, why)
                print('  goal',T.show(c_) if isinstance(c_,T.Term) else c_)
                for h in self.ctx.pc()+list(hyps): print('   pc',T.show(h) if isinstance(h,T.Term) else h)
                if exc is not None:
                    import traceback; traceback.print_exception(exc)
    K.SymKit._prove=pr
    r=K.run_symbolic(c.fn,float(sys.argv[3]) if len(sys.argv)>3 else 100,6.0)
    print('paths',r.paths,'obls',len(r.obls),'unsup',r.unsupported); print(r.trace)
    for o in r.obls:
        if o[2].status!='proved': print(o[0],o[1],o[2])
t=threading.Thread(target=main); t.start(); t.join()
