#!/usr/bin/env python3
"""One-off: writes spec/lib/SidhParams.tla.  The base points were taken from the pinned tree once,
converted out of Montgomery form, and are frozen in the specification (they are the SIKE round-2
values; SidhParamTest.tla checks their defining properties).  Not used by any check."""
import re
E={'p434':(216,137,448,55),'p503':(250,159,512,63),'p751':(372,239,768,94)}
out=['----------------------------- MODULE SidhParams -----------------------------',
'(* Frozen SIKE round-2 base points (canonical little-endian bytes of re, im).  Generated once. *)',
'EXTENDS Naturals, Sequences','']
def tl(n,b):
    return '<<'+','.join(str(x) for x in n.to_bytes(b,'little'))+'>>'
for f,(e2,e3,rb,bl) in E.items():
    p=2**e2*3**e3-1
    src=open(f'/repo/dh/sidh/internal/{f}/params.go').read()
    src=re.sub(r'//.*','',src)
    ri=pow(2**rb,-1,p)
    # params: A then B DomainParams in order
    vals=re.findall(r'Affine([PQR]):\s*common.Fp2\{(.*?)\n\t\t\t\}',src,re.S)
    assert [v[0] for v in vals]==list('PQRPQR'),(f,[v[0] for v in vals])
    for side,(nm,body) in zip('AAABBB',vals):
        comp=[]
        for c in 'AB':
            m=re.search(c+r':\s*common.Fp\{(.*?)\}',body,re.S)
            n=0
            if m:
                ws=[int(x,16) for x in re.findall(r'0x[0-9A-Fa-f]+',m.group(1))]
                for i,w in enumerate(ws): n|=w<<(64*i)
            comp.append(n*ri%p)
        out.append(f'{f.upper()}_{side}{nm} == << {tl(comp[0],bl)},\n   {tl(comp[1],bl)} >>')
out.append('='*77)
open('/verif/spec/lib/SidhParams.tla','w').write('\n'.join(out)+'\n')
