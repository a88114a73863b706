import sys
sys.setrecursionlimit(20000)
import fw, engine as E, importlib, solve
mod, flt, cand = sys.argv[1:4]
DEPTH = int(sys.argv[4]) if len(sys.argv) > 4 else 0
m = importlib.import_module('specs.'+mod)
t = [t for t in m.TASKS if flt in t.name][0]
oh = E.Exec.houdini
def h(self, st, ctx, cands, cond, inc, body):
    kept = oh(self, st, ctx, cands, cond, inc, body)
    if self.mode!='dry' and len(self.loopstack) == DEPTH and self.mode=='final':
        names=[n for n,_ in kept]
        for nm,f in cands:
            if cand in nm and nm not in names:
                g = f(st)
                print('cand', nm, 'initial:', None if g is None else self.prove(st,g).ok)
                if g is None: continue
                # test inductive
                self.mode='houdini'; self.loopstack.append(ctx)
                hd = self.head(st, ctx, kept+[(nm,f)])
                ex,nx,oth = self.iteration(hd,cond,inc,body)
                self.mode='final'; self.loopstack.pop()
                for s in nx:
                    g = f(s)
                    r = self.prove(s,g)
                    print('   step', r.ok, r.how)
                    if not r.ok:
                        print('GOAL', g)
                        for p in s.pc: print('  PC', str(p)[:300].replace('\n',' '))
                        import z3
                        sv=z3.Solver()
                        import os; OUT=os.environ.get("DBGQ","/tmp/w/q.smt2")
                        sv.add(*solve.prepare(s.pc,g))
                        open(OUT,'w').write(sv.to_smt2())
                        if os.environ.get("DBGX"): sys.exit(1)
    return kept
E.Exec.houdini = h
fw.show(fw.run_task(t))
