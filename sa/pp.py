#!/usr/bin/env python3
"""Pretty-prints bodies of a MIR dump (debugging aid)."""
import json, sys
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        k=e[0]
        if k=='deref': s='(*%s)'%s
        elif k=='field': s+='.%s'%e[2]
        elif k=='index': s+='[_%d]'%e[1]
        elif k=='down': s='(%s as %s)'%(s,e[2])
        else: s+='.%s'%json.dumps(e)
    return s
def op(o):
    k=o[0]
    if k=='copy': return pl(o[1])
    if k=='move': return 'move '+pl(o[1])
    if k=='fn': return '%s%s'%(o[2] and (o[1]+' => '+o[2]) or o[1], '<%s>'%','.join(o[3]))
    return json.dumps(o[1:])[:160] if k=='const' else json.dumps(o)
def rv(r):
    k=r[0]
    if k=='use': return op(r[1])
    if k=='ref': return '&%s %s'%(r[1],pl(r[2]))
    if k=='agg': return '%s{%s}'%(json.dumps(r[1]),', '.join(map(op,r[2])))
    if k=='bin': return '%s(%s, %s)'%(r[1],op(r[2]),op(r[3]))
    if k=='un': return '%s(%s)'%(r[1],op(r[2]))
    if k=='discr': return 'discr(%s)'%pl(r[1])
    if k=='cast': return 'cast[%s] %s -> %s'%(r[1],op(r[2]),r[3])
    return json.dumps(r)
def body(b):
    print('=== %s [%s] parent=%s trait=%s self=%s argc=%d %s'%(b['path'],b['kind'],b['parent'],b['trait'],b['self'],b['argc'],b['span']))
    for i,(t,n) in enumerate(b['locals']): print('  let _%d: %s // %s'%(i,t[:150],n))
    print('  upvars',b['upvars'])
    for i,bb in enumerate(b['blocks']):
        if bb['cleanup']: continue
        print(' bb%d: // %s'%(i,bb['sp']))
        for s in bb['s']:
            if s[0]=='=': print('    %s = %s'%(pl(s[1]),rv(s[2])))
            elif s[0]!='dead': print('    ',s)
        t=bb['t']; k=t[0]
        if k=='call': print('    %s = call %s(%s) -> %s'%(pl(t[3]),op(t[1]),', '.join(map(op,t[2])),t[4]))
        elif k=='switch': print('    switch %s %s else %s'%(op(t[1]),t[2],t[3]))
        elif k=='assert': print('    assert(%s==%s) %s -> %s'%(op(t[1]),t[2],json.dumps(t[3]),t[4]))
        elif k=='drop': print('    drop %s -> %s'%(pl(t[1]),t[2]))
        else: print('    ',json.dumps(t))
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for b in d['bodies']:
        if any(b['path']==a or (a.startswith('~') and a[1:] in b['path']) for a in sys.argv[2:]): body(b)
