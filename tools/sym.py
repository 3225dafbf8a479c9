#!/usr/bin/env python3
"""filter: symbolise +0xOFF frames of a trace"""
import re,subprocess,sys
exe=sys.argv[1]
for l in sys.stdin:
    m=re.search(r'\((/verif/build/\S+)\+0x([0-9a-f]+)\)',l)
    if m:
        r=subprocess.run(['addr2line','-Cfie',exe,'0x'+m.group(2)],capture_output=True,text=True).stdout.split('\n')
        out=[]
        for a,b in zip(r[::2],r[1::2]):
            out.append(re.sub(r'\(.*','',a)[:90]+' '+b.replace('/repo/app/',''))
        print('   ',' <- '.join(out[-2:]))
    elif 'Shadow' in l: break
    elif not l.startswith('    #'): print(l.rstrip()[:300])
