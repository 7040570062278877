"""debug aid: run the interpreter on one function and show its outcomes
usage: dbg.py NAME [-v] [-nomerge] [-u N] [-c crate] [-b budget] [-p (only panics)]"""
import sys, time, collections, threading
sys.path.insert(0, '/verif'); sys.setrecursionlimit(200000)
sys.dont_write_bytecode = True
from vt6sa.run import Ctx, ToolError
from vt6sa.checks.common import *
import vt6sa.terms
vt6sa.terms.SHORT=True
def main():
    a = sys.argv[1:]
    def opt(n, d=None):
        if n in a:
            i = a.index(n); v = a[i+1]; del a[i:i+2]; return v
        return d
    def flag(n):
        if n in a:
            a.remove(n); return True
        return False
    crate = opt('-c', 'vt6'); u = opt('-u'); b = float(opt('-b', '120'))
    enc = flag('-e'); v, nm, pp, nol = flag('-v'), flag('-nomerge'), flag('-p'), flag('-l')
    ctx = Ctx('X', 'quick', 1)
    F = ctx.facts(crate)
    for name in a:
        for f in F.fns:
            if f['def'] != name and not f['def'].endswith('::' + name): continue
            e = engine(F, b, anchors=encode_contract(F) if enc else None); e.merge = not nm
            if u: e.unroll = int(u)
            t = time.time()
            try: outs = e.run_root(f['inst'])
            except Budget: print(name, 'BUDGET'); continue
            print('%s %s %.1fs merged=%d unm=%s obl=%d failed=%d' % (f['def'], dict(collections.Counter(o.kind for o in outs)), time.time()-t, e.merged, dict(e.unmodelled), len(e.obl_total), len(e.obl_failed)))
            for o in outs:
                if o.kind == 'panic' or (v and not pp):
                    print('--', o.kind, o.why or '', o.span or '', where(o), 'TAINT %s' % (o.st.taint,) if o.st.taint else '', show(o.val)[:300] if o.val else '')
                    if v:
                        for x in show_facts(o.st.fact): print('      ', x[:260])
                        for ev in o.st.trace(): print('     *', str(ev)[:260])
            if nol:
                for k, x in e.loops_seen.items(): print('LOOP', k); [print('     ', y[:260]) for y in x]
threading.stack_size(512*1024*1024)
t = threading.Thread(target=main); t.start(); t.join()
