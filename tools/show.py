import sys
sys.path.insert(0,'/verif')
from analysis.mir import *
p=Prog('/verif/build/facts.json')
def pl(x):
    s='_%d'%x[0]
    for e in x[1:]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%s'%(e[2] or e[1])
        elif e[0]=='v': s+='@%s'%e[2]
        elif e[0]=='i': s+='[_%d]'%e[1]
        else: s+=str(e)
    return s
def op(o):
    if o[0] in 'cm': return ('' if o[0]=='c' else 'mv ')+pl(o[1])
    c=o[1]
    if c.get('k')=='fn': return 'fn '+(c['callee'].get('res') or c['callee'].get('raw'))
    return str(c)
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&'+('mut ' if r[1] else '')+pl(r[2])
    if k=='cast': return 'cast(%s,%s,%s)'%(r[1],op(r[2]),p.tystr(r[3]))
    if k=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(r[2]))
    if k=='disc': return 'disc(%s)'%pl(r[1])
    if k=='agg': return 'agg%s(%s)'%(r[1],', '.join(op(o) for o in r[2]))
    return str(r)
def show(f):
    print('==',f.key,f.loc(),'argc',f.argc,'generic',f.generic)
    print('  names',f.names)
    for i in f.rpo():
        b=f.blocks[i]
        print(' bb%d'%i)
        for s in b['s']:
            if s[0]=='=': print('    %s = %s'%(pl(s[1]),rv(s[2])))
            else: print('   ',s)
        t=b['t']
        if t[0]=='call': print('    %s = %s(%s) -> %d'%(pl(t[3]),op(t[1]),', '.join(op(a) for a in t[2]),t[4]))
        elif t[0]=='switch': print('    switch',op(t[1]),t[3],t[4])
        elif t[0]=='drop': print('    drop',pl(t[1]),t[2])
        else: print('   ',t)
if __name__=='__main__':
    for f in p.fns.values():
        import re
        if re.search(sys.argv[1],f.key): show(f)
