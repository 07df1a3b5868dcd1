"""ref.py refs.py [id..]: apply behaviour-preserving edits, compare all specs"""
import sys, os, warnings, runpy, ast, time
warnings.simplefilter("ignore"); sys.setrecursionlimit(20000)
sys.path.insert(0,'/verif')
from multiprocessing import Pool
def one(r):
    import sa.spec as S
    from sa.program import Program, AnchorLost
    from sa.norm import Norm
    from sa.spec import compare_spec, compare_shape, compare_consts
    from sa import report
    ov={}
    for f,old,new in r['edits']:
        s=ov.get(f) or open('/repo/'+f).read()
        if s.count(old)!=1: return r['id'],'OLD COUNT %d %r'%(s.count(old),old[:80])
        ov[f]=s.replace(old,new)
        try: ast.parse(ov[f])
        except SyntaxError as e: return r['id'],'SYNTAX %s'%e
    t0=time.time()
    try: P=Program(overrides=ov)
    except Exception as e: return r['id'],'PROG %r'%e
    N=Norm(); out=[]
    mods={f for f in ov}
    try:
        for g in sorted(os.listdir(S.SPECDIR)):
            if not g.endswith('.py'): continue
            sf=S.load_specs(P,g)
            for sp in sf:
                f=P.funcs.get(sp.target)
                rs=compare_spec(P,sp,N)
                out+=[x for x in rs if x.status!='ok']
            for sh in sf.shapes: out+=[x for x in compare_shape(P,sh,N,lambda: report.all_specs(P)) if x.status!='ok']
            for c in sf.consts: out+=[x for x in compare_consts(P,c,N) if x.status!='ok']
    except Exception as e:
        import traceback; return r['id'],'EXC '+traceback.format_exc()[-600:]
    return r['id'],'%s (%.0fs) %s'%('QUIET' if not out else ('ALARMS %d'%len(out) if any(x.status=='violation' for x in out) else 'undecided'),time.time()-t0,''.join('\n   [%s] %s: %s'%(x.status,x.key,x.msg[:int(os.environ.get('W','500'))]) for x in out))
refs=runpy.run_path(sys.argv[1])['REFS']
sel=sys.argv[2:]
refs=[r for r in refs if not sel or r['id'] in sel]
with Pool(7) as p:
    for r in p.imap(one,refs): print(*r,flush=True)
