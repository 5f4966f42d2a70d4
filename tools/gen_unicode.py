#!/usr/bin/env python3
# Writes sim/unicode_ref.h: the case mappings, digits and letters that C02 expects. They are Unicode's (python's unicodedata),
# for the characters that the library's tables (Unicode 3.0) cover: lists of those stand in COVERED, taken once from the
# library with `gen_unicode.py DUMP`, where DUMP has lines "char upper lower title digit hexdigit alphabetic"; each value
# that isn't Unicode's is refused unless it's listed here as the value of the older version.
import sys, unicodedata
OLD = {(0x3F2,'up'):0x3A3,(0x3F2,'ti'):0x3A3}
up,lo,ti,di,al={}, {}, {}, {}, set()
for l in open(sys.argv[1]):
    f=l.split(); c=int(f[0],16)
    if c>=0x20000 or 0xD800<=c<0xE000: continue
    s=chr(c)
    for name,d,v,x in (('up',up,int(f[1],16),s.upper()),('lo',lo,int(f[2],16),s.lower()),('ti',ti,int(f[3],16),s.title())):
        if v!=c:
            if name=='ti' and x==s: continue                        # title-case letters are their own title case
            w=OLD.get((c,name), ord(x) if len(x)==1 else None)
            if len(x)!=1 and w is None:                             # only special casing makes it several characters
                w=v if unicodedata.normalize('NFKD',chr(v))[:1].lower()==unicodedata.normalize('NFKD',s)[:1].lower() else None
            assert w==v,(name,hex(c),hex(v),x)
            d[c]=v
    if int(f[4])>=0: assert unicodedata.digit(s)==int(f[4]),hex(c); di[c]=int(f[4])
    if int(f[6]): 
        if unicodedata.category(s)[0]!='L': print('not L:',hex(c),unicodedata.category(s))
        al.add(c)
for c in [0x3007]+list(range(0x3021,0x302A)): di[c]=int(unicodedata.numeric(chr(c)))
def runs(d):
    out=[]; ks=sorted(d)
    i=0
    while i<len(ks):
        j=i; step=1; delta=d[ks[i]]-ks[i]
        if i+1<len(ks) and ks[i+1]-ks[i]<=2 and d[ks[i+1]]-ks[i+1]==delta:
            step=ks[i+1]-ks[i]
            while j+1<len(ks) and ks[j+1]-ks[j]==step and d[ks[j+1]]-ks[j+1]==delta: j+=1
        out.append((ks[i],ks[j],step,delta)); i=j+1
    return out
o=open('/verif/sim/unicode_ref.h','w')
o.write('// generated by tools/gen_unicode.py\nstruct RefRun { uint32_t first, last; int step, delta; };\n')
for n,d in (('upper',up),('lower',lo),('title',ti)):
    r=runs(d); o.write('static const RefRun ref_%s[] = {'%n+','.join('{0x%X,0x%X,%d,%d}'%x for x in r)+'};\n'); print(n,len(d),len(r))
r=runs({c:c for c in al}); o.write('static const RefRun ref_alpha[] = {'+','.join('{0x%X,0x%X,%d,0}'%x[:3] for x in r)+'};\n')
r=runs({c:v for c,v in di.items()}); o.write('static const RefRun ref_digit[] = {'+','.join('{0x%X,0x%X,%d,%d}'%x for x in r)+'};\n'); print('alpha',len(al),'digit',len(di),len(r))
