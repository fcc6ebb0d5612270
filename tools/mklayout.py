#!/usr/bin/env python3
"""Builds contracts/*.layout (wire definitions and dialect tables) once, from `gocv layout` raw
dumps and the generated sources, and cross-checks what it writes against rules that do not come from
those sources: base fields largest first, checksum extra byte = MAVLink CRC of the definition."""
import re,glob,os,sys
repo='/repo'; out='/verif/contracts'
def crc(b,c=0xffff):
    for x in b:
        t=(x^c)&0xff; t=(t^(t<<4))&0xff
        c=((c>>8)^(t<<8)^(t<<3)^(t>>4))&0xffff
    return c
SZ={'uint8':1,'int8':1,'uint16':2,'int16':2,'uint32':4,'int32':4,'float32':4,'uint64':8,'int64':8,'float64':8}
CT={'uint8':'uint8_t','int8':'int8_t','uint16':'uint16_t','int16':'int16_t','uint32':'uint32_t','int32':'int32_t','float32':'float','uint64':'uint64_t','int64':'int64_t','float64':'double'}
def snake(s):
    s=re.sub(r'([a-z])([A-Z0-9])',r'\1_\2',s) if False else re.sub(r'(?<=[a-z0-9])(?=[A-Z])','_',s)
    return s.lower()
stats=dict(msgs=0,derived=0,order=0)
tot={}
for raw in sorted(glob.glob(out+'/*.layout.raw')):
    pkg=os.path.basename(raw)[:-len('.layout.raw')]
    src={}
    for f in glob.glob(f'{repo}/{pkg}/*.go'):
        src[f]=open(f).read()
    alls='\n'.join(src.values())
    d=open(f'{repo}/{pkg}/dialect.go').read()
    name=re.search(r'GetName\(\) string \{\s*return "([^"]*)"',d).group(1)
    rows={}
    for m in re.finditer(r'^\t(\d+):\s*(?:mavlink2\.)?MessageMeta\{CRCExtra: (\d+), MinimumLength: (\d+), MaximumLength: (\d+)\}',d,re.M):
        rows[int(m[1])]=tuple(map(int,m.groups()[1:]))
    parsers={}
    for m in re.finditer(r'^\t(\d+):\s*mavlink2\.FrameParser\(func\(frame mavlink2\.Frame\) \(message mavlink2\.Message, err error\) \{\s*message = &(?:[\w]+\.)?(\w+)\{\}',d,re.M):
        parsers[int(m[1])]=m[2]
    assert set(rows)==set(parsers),(pkg,set(rows)^set(parsers),len(rows))
    msgs=[];cur=None
    for l in open(raw):
        w=l.split()
        if not w or w[0]=='#': continue
        if w[0]=='message':
            cur=dict(t=w[1].split('.')[1],max=int(w[2][4:]),f=[]); msgs.append(cur)
        else: cur['f'].append(w[1:])
    o=[f'# Wire definitions of the messages of {pkg}: offsets, widths and order of every field,',
       '# and the metadata of the dialect table. Produced by tools/mklayout.py; the checks only read it.','',f'dialect {pkg} name={name}']
    for i in sorted(rows):
        e,mi,ma=rows[i]
        o.append(f'  row id={i} extra={e} min={mi} max={ma} type={pkg}.{parsers[i]}')
    o.append('')
    for m in msgs:
        t=m['t']
        g=lambda fn,rx: re.search(r'func \(m \*'+t+r'\) '+fn+r'\(\) \w+ \{\s*return (\w+)',alls).group(1)
        i=int(g('GetID','')); v1=int(g('getV1Length','')); ext=g('HasExtensionFields','')
        ids=[k for k,v in parsers.items() if v==t]
        e=rows[ids[0]][0] if ids else -1
        sp=' special' if t=='V2Extension' else ''
        if sp: m['max']=254
        if ids:
            assert ids==[i],(t,ids,i)
            assert rows[i][1:]==(v1,m['max']),(pkg,t,rows[i],v1,m['max'])
        assert (ext=='true')==(m['max']>v1 and not sp),(t,ext)
        stats['msgs']+=1
        # rule 1: base fields largest first
        base=[f for f in m['f'] if int(f[2])<v1 or sp]
        sz=[SZ[re.sub(r'^\[\d+\]','',f[1])] for f in base]
        assert sz==sorted(sz,reverse=True),(t,sz)
        stats['order']+=1
        # rule 2: CRC extra
        s=(snake(t).upper()+' ').encode()
        for f in base:
            n=re.match(r'\[(\d+)\](\w+)',f[1]); ty=n[2] if n else f[1]
            txt='text' in f
            s+=(('char' if txt else CT[ty])+' '+snake(f[0])+' ').encode()
            if n: s+=bytes([int(n[1])])
        c=crc(s); x=(c&0xff)^(c>>8)
        dv = ids and x==e
        if dv: stats['derived']+=1
        o.append(f'message {pkg}.{t} id={i} extra={e} min={v1} max={m["max"]} ext={ext}{sp}'+('   # extra byte follows from names' if dv else ''))
        for f in m['f']:
            o.append('  field '+' '.join(f[:3])+(' ext' if int(f[2])>=v1 and not sp else '')+(' text' if 'text' in f else ''))
    open(f'{out}/{pkg}.layout','w').write('\n'.join(o)+'\n')
    os.remove(raw)
print(stats)
