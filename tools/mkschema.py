#!/usr/bin/env python3
"""One-off: writes the first draft of contracts/messages.schema from the
Encode methods at the reviewed commit. The committed schema is the golden
protocol definition; it is never regenerated by a check."""
import re,sys
src=open('/repo/message/messages.gen.go').read()
kinds={'PutInt8':'i8','PutInt16':'i16','PutInt32':'i32','PutInt64':'i64','PutBool':'bool','PutString':'str','PutBytes':'bytes','PutInt32Array':'i32arr','PutInt64Array':'i64arr','PutStringArray':'strarr'}
structs={}
for m in re.finditer(r'^type (\w+) struct \{\n(.*?)^\}',src,re.S|re.M):
    fs={}
    for l in m.group(2).splitlines():
        p=l.split('//')[0].split()
        if len(p)>=2: fs[p[0]]=p[1]
    structs[m.group(1)]=fs
for m in re.finditer(r'^type (\w+) struct\s*\{\s*\}',src,re.M): structs[m.group(1)]={}
out=[]
for m in re.finditer(r'^func \(t (\w+)\) Encode\(e \*Encoder, version int16\) \{\n(.*?)^\}',src,re.S|re.M):
    T,body=m.groups(); lo,hi=None,None; fields=[]; depth=0; arrf=None
    for l in body.splitlines():
        l=l.split('//')[0].strip()
        if not l: continue
        g=re.match(r'if version >= (\d+)(?: && version <= (\d+))? \{',l) or re.match(r'if (?P<x>)version <= (\d+) \{',l)
        if g: lo,hi=(g.group(1) or None),g.group(2); depth=1; continue
        if l=='}':
            if arrf: arrf=None
            else: lo=hi=None
            continue
        g=re.match(r'e\.(Put\w+)\(t\.(\w+)\)',l)
        if g and g.group(1) in kinds:
            fields.append((g.group(2),kinds[g.group(1)],lo,hi)); continue
        g=re.match(r'len\d+ := len\(t\.(\w+)\)',l)
        if g: cur=g.group(1); continue
        if l.startswith('e.PutArrayLength'):
            et=structs[T][cur][2:]
            fields.append((cur,'[]'+et,lo,hi)); continue
        if l.startswith('for '): arrf=1; continue
        if re.match(r't\.\w+\[i\]\.Encode\(e, version\)',l): continue
        sys.exit('?? '+T+': '+l)
    out.append('message '+T)
    for n,k,a,b in fields:
        v='all' if a is None and b is None else (a or '')+'..'+(b or '')
        out.append('  %s %s %s'%(n,k,v))
    for n in structs[T]:
        if n not in [f[0] for f in fields]: out.append('  # not on the wire: '+n)
print('\n'.join(out))
