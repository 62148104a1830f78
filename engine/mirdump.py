import json,sys
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        elif e[0]=='d': s+=' as %s'%e[2]; s='(%s)'%s
        else: s+=str(e)
    return s
def co(D,v):
    if v['c']=='fn': return 'fn:'+D['types'][v['ty']]['callee']['path']
    if v['c'] in('int','str','opaque'): return '%s:%s'%(v['v'],D['types'][v['ty']]['s'])
    return v['c']+':'+str(v.get('key',''))+':'+D['types'][v['ty']]['s']
def op(D,o):
    if o['o'] in('copy','move'): return pl(o['p'])
    if o['o']=='const': return 'const '+co(D,o['v'])
    return o['o']
def rv(D,r):
    k=r[0]
    if k=='use': return op(D,r[1])
    if k=='ref': return '&'+('mut ' if r[1] else '')+pl(r[2])
    if k=='bin': return '%s(%s,%s)'%(r[1],op(D,r[2]),op(D,r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(D,r[2]))
    if k=='discr': return 'discr(%s)'%pl(r[1])
    if k=='cast': return '%s as %s [%s]'%(op(D,r[2]),D['types'][r[4]]['s'],r[1])
    if k=='agg': return 'agg %s(%s)'%(r[1],', '.join(op(D,x) for x in r[2]))
    return str(r)
def show(D,b):
    print('==',b['key'],b['span'],'args',b['args'])
    for i,l in enumerate(b['locals']): print('   _%d: %s %s'%(i,D['types'][l[0]]['s'],l[1] or ''))
    for i,k in enumerate(b['blocks']):
        if k['cleanup']: continue
        print(' bb%d:'%i)
        for s in k['s']:
            print('    ',pl(s[1])+' = '+rv(D,s[2]) if s[0]=='=' else s)
        t=k['t']
        if t[0]=='call': print('    ',pl(t[3]),'= call',t[1]['path'],'['+t[1]['kind']+']','key' if t[1]['key'] else '', '(%s)'%', '.join(op(D,a) for a in t[2]),'->',t[4],t[6])
        elif t[0]=='switch': print('     switch',op(D,t[1]),t[2],t[3])
        elif t[0]=='assert': print('     assert',op(D,t[1]),t[2],t[3],'->',t[4])
        else: print('    ',t)
if __name__=='__main__':
    D=json.load(open(sys.argv[1])); pat=sys.argv[2:]
    for b in D['bodies']:
        if not pat: print(b['key'],len(b['blocks']))
        elif all(p in b['key'] for p in pat): show(D,b)
