import json,sys
import os
d=json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'build','dump.json')))
T=d['types'];I=d['insts'];S=d['spans']
B={b['id']:b for b in d['bodies']}
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%s'%(e[2] if e[2] is not None else e[1])
        elif e[0]=='dc': s='(%s as %s)'%(s,e[2])
        else: s+=str(e)
    return s
def op(o):
    if o[0]=='k':
        if o[1][0]=='fn': return 'fn:'+T[o[1][1]]['p'][:120]
        return json.dumps(o[1])[:120]+((' /*%s*/'%o[3]) if o[3] else '')
    return ('move ' if o[0]=='m' else '')+pl(o[1])
def rv(r):
    if r[0]=='use': return op(r[1])
    if r[0]=='ref': return ('&mut ' if r[2] else '&')+pl(r[1])
    if r[0]=='agg': return str(r[1])+'('+', '.join(map(op,r[2]))+')'
    if r[0]=='bin': return r[1]+'('+op(r[2])+', '+op(r[3])+')'
    if r[0]=='cast': return 'cast:'+r[1]+' '+op(r[2])+' as '+T[r[3]]['s'][:80]
    if r[0]=='discr': return 'discr '+pl(r[1])
    if r[0]=='un': return r[1]+' '+op(r[2])
    return json.dumps(r)[:200]
def show(b):
    print('==',I[b['id']]['path'],'argc',b['argc'])
    for n,p in b['names']: print('  debug',n,pl(p))
    for i,l in enumerate(b['locals']): print('  _%d: %s'%(i,T[l]['s'][:110]))
    for i,(st,t,c) in enumerate(b['blocks']):
        if c: continue
        print(' bb%d:'%i)
        for s in st:
            if s[0]=='=': print('   ',pl(s[1]),'=',rv(s[2]))
            elif s[0] in('live','dead'): pass
            else: print('   ',s)
        sp=S[t[5]] if t[0]=='call' else None
        if t[0]=='call': print('   ',pl(t[3]),'= CALL',op(t[1]),[op(a) for a in t[2]],'->',t[4],sp[1:])
        elif t[0]=='switch': print('   switch',op(t[1]),t[2],'else',t[3])
        elif t[0]=='drop': print('   drop',pl(t[1]),'->',t[2], T[t[3]]['s'][:80])
        else: print('   ',t[:3])
if __name__=='__main__':
    for b in d['bodies']:
        if I[b['id']]['path']==sys.argv[1]: show(b)
