# developer aid: print the public (non-detail) function signatures of headers
import sys,re
for f in sys.argv[1:]:
    t=open(f).read(); t=re.sub(r'/\*.*?\*/','',t,flags=re.S); t=re.sub(r'//[^\n]*','',t); t=re.sub(r'^[ \t]*#.*$','',t,flags=re.M)
    depth=0; stack=[]; out=[]; buf=''
    for ch in t:
        if ch=='{':
            h=buf.strip().split(';')[-1].strip(); stack.append(h)
            inns=[s for s in stack if s.startswith('namespace')]
            det=any('detail' in s for s in inns)
            if not h.startswith('namespace') and not det and all(s.startswith('namespace') for s in stack[:-1]):
                out.append(' '.join(re.sub(r'^#.*$','',h,flags=re.M).split()))
            buf=''
        elif ch=='}':
            if stack: stack.pop()
            buf=''
        else: buf+=ch
    print('##',f); 
    for o in out: print('  ',o.replace('SPROUT_CONSTEXPR','CE').replace('SPROUT_CXX14_CONSTEXPR','CE14').replace('typename ',''))
