"""Print the events and predicates of one entry: dbg.py ENTRY p1,p2 [grep] [assume-regex=0/1 ...]"""
import sys, re, time, glob
sys.path.insert(0, '/verif/nkcheck')
from ck import *
D = sorted(glob.glob('/verif/.cache/dump-*'))[-1]
p = Prog(D)
C = Ck(p, 'DBG')
N=300
def show(entry, params, grep='.', assume=(), kinds=('call','write','exit','panic','iter','iter_item'), opaque=(), skip=r'fmt|log::', w=260, atoms=True, **kw):
    seen={}
    def wt(e):
        if e.kind in kinds and not re.search(skip,e.name):
            seen.setdefault(repr(e),[]).append(e)
        return False
    t=time.time()
    path=C.fn(entry)
    r=Run(p,path,params,assume,watch=[('x',wt)],opaque=opaque,**kw).run()
    print('##',path,'steps',r.nsteps,'time %.2f'%(time.time()-t),'ctxs',len(r.ctxs),'exits',len(r.exits))
    out=[]
    for k,v in seen.items():
        if re.search(grep,k): out.append('   %s %s'%(v[0].line,k[:w]))
    if atoms:
        for a in sorted(set(map(str,r.branch_atoms))):
            if re.search(grep,a): out.append('   ? '+a[:w])
    print('\n'.join(out[:N])); print('...',len(out)) if len(out)>N else 0
    return r
def main():
    a=sys.argv[1:]
    asm=[(x.rsplit('=',1)[0],x.rsplit('=',1)[1]=='1') for x in a[3:]]
    show(a[0],a[1].split(','),a[2] if len(a)>2 else '.',asm)
if __name__=='__main__' and len(sys.argv)>1: main()
