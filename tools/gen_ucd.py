#!/usr/bin/env python3
"""Pins the Unicode 17.0 property data used by the oracle (harness/ucd/data.go).

Run once, against the data files at the pinned commit; its output is committed, so that a later
change to /repo's data files or table is judged against the data as published."""
import sys
base=sys.argv[1]
CL=["Other","CR","LF","Control","Extend","ZWJ","RI","Prepend","SpacingMark","L","V","T","LV","LVT","ExtPict","Consonant","Linker","ExtendPlain"]
def rd(f):
    for l in open(base+'/'+f,encoding='utf8'):
        l=l.split('#')[0].strip()
        if not l: continue
        p=[x.strip() for x in l.split(';')]
        a=p[0].split('..')
        yield int(a[0],16),int(a[-1],16),p[1:]
g={};x=set();i={}
for s,e,p in rd('auxiliary/GraphemeBreakProperty.txt'):
    for c in range(s,e+1):
        assert c not in g; g[c]=p[0]
for s,e,p in rd('emoji/emoji-data.txt'):
    if p[0]=='Extended_Pictographic': x|=set(range(s,e+1))
for s,e,p in rd('DerivedCoreProperties.txt'):
    if p[0]=='InCB':
        for c in range(s,e+1):
            assert c not in i; i[c]=p[1]
M={('Other',False,'None'):"Other",('CR',False,'None'):"CR",('LF',False,'None'):"LF",('Control',False,'None'):"Control",
('Extend',False,'Extend'):"Extend",('ZWJ',False,'Extend'):"ZWJ",('Regional_Indicator',False,'None'):"RI",('Prepend',False,'None'):"Prepend",
('SpacingMark',False,'None'):"SpacingMark",('L',False,'None'):"L",('V',False,'None'):"V",('T',False,'None'):"T",('LV',False,'None'):"LV",('LVT',False,'None'):"LVT",
('Other',True,'None'):"ExtPict",('Other',False,'Consonant'):"Consonant",('Extend',False,'Linker'):"Linker",('Extend',False,'None'):"ExtendPlain"}
cls=[CL.index(M[(g.get(c,'Other'),c in x,i.get(c,'None'))]) for c in range(0x110000)]
out=["// Code generated by tools/gen_ucd.py from the Unicode 17.0 data files. DO NOT EDIT.","","package ucd","","// data lists the code point ranges whose class is not Other, as lo, hi, class triples.","var data = [...]uint32{"]
c=0;n=0
while c<0x110000:
    k=cls[c]; d=c
    while d+1<0x110000 and cls[d+1]==k: d+=1
    if k: out.append("\t0x%x, 0x%x, %d,"%(c,d,k)); n+=1
    c=d+1
out.append("}")
open('/verif/harness/ucd/data.go','w').write('\n'.join(out)+'\n')
print(n,"ranges")
