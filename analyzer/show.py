"""Pretty-prints a dump: show.py DUMP [regex]"""
import json, re, sys
def load(p): 
    j=json.load(open(p)); j['F']={f['id']:f for f in j['fns']}; j['T']={t['id']:t for t in j['types']}; j['A']={a['id']:a for a in j['allocs']}; return j
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='v': s='(%s as v%d)'%(s,e[1])
        elif e[0]=='i': s+='[_%d]'%e[1]
        else: s+=str(e)
    return s
def op(j,o):
    if o[0] in 'pm': return ('move ' if o[0]=='m' else '')+pl(o[1])
    if o[0]=='k':
        t=j['T'][o[1]]
        if o[2]=='zst': return 'zst:'+t['name']
        return 'const(%s:%s)'%(o[2][0] if isinstance(o[2],list) else o[2],t['name'])+(str(o[2][1]) if isinstance(o[2],list) and o[2][1] else '')
    return str(o)
def rv(j,r):
    k=r[0]
    if k=='use': return op(j,r[1])
    if k=='ref': return '&%s%s'%('mut ' if r[1] else '',pl(r[2]))
    if k=='addr': return '&raw '+pl(r[1])
    if k in('bin','cbin'): return '%s%s(%s, %s)'%('C' if k=='cbin' else '',r[1],op(j,r[2]),op(j,r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(j,r[2]))
    if k=='cast': return '%s as %s [%s]'%(op(j,r[2]),j['T'][r[3]]['name'],r[1])
    if k in('disc','len'): return '%s(%s)'%(k,pl(r[1]))
    if k=='agg': return '%s %s v%d {%s}'%(r[1],j['T'][r[2]]['name'] if r[2] is not None else '',r[3],', '.join(op(j,x) for x in r[4]))
    return str(r)
def show(j,f,o=sys.stdout):
    print('fn#%d %s [%s] %s'%(f['id'],f['name'],f['kind'],f['span']),file=o); print('   path',f['path'],file=o)
    b=f['body']
    if not b: return
    for i,t in enumerate(b['locals']): print('    let _%d: %s %s'%(i,j['T'][t]['name'],b['names'].get(str(i),'')),file=o)
    for i,bb in enumerate(b['blocks']):
        print('  bb%d:'%i,file=o)
        for s in bb['s']:
            print('    ',('%s = %s'%(pl(s[1]),rv(j,s[2]))) if s[0]=='=' else s,file=o)
        t=bb['t']
        if t[0]=='call': print('     %s = %s(%s) -> %s uw %s  %s'%(pl(t[4]),(('#%d '%t[2])+j['F'][t[2]]['name']) if t[2] is not None else op(j,t[1]),', '.join(op(j,x) for x in t[3]),t[5],t[6],t[7]),file=o)
        elif t[0]=='switch': print('     switch %s %s else %s'%(op(j,t[1]),t[2],t[3]),file=o)
        elif t[0]=='assert': print('     assert %s==%s %s -> %s'%(op(j,t[1]),t[2],t[3],t[5]),file=o)
        elif t[0]=='drop': print('     drop %s -> %s'%(pl(t[1]),t[2]),file=o)
        else: print('    ',t,file=o)
if __name__=='__main__':
    j=load(sys.argv[1])
    if len(sys.argv)>2:
        for f in j['fns']:
            if re.search(sys.argv[2],f['name']) or re.search(sys.argv[2],f['path']): show(j,f)
    else:
        for f in sorted(j['fns'],key=lambda f:(f['body'] is None,f['path'])): print('B' if f['body'] else '-',f['kind'],f['path'],'|',f['name'][:150])
