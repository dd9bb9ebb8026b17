#!/bin/bash
# viol.sh ID [n]: the violations of a quick run, grouped by the part of the key before the third ':'
VERIF_SHOW=100000 python3 run.py "$1" > /tmp/viol.txt 2>&1
head -1 /tmp/viol.txt | cut -c1-300
python3 - "${2:-25}" <<'P'
import re,sys,collections
g=collections.OrderedDict()
for l in open('/tmp/viol.txt',errors='replace'):
    if l.startswith('  ') and not l.startswith('   '):
        k=':'.join(re.sub(r'\d+','#',l.strip()).split(':')[:3])
        g.setdefault(k,[]).append(l.strip())
for k,v in list(g.items())[:int(sys.argv[1])]: print(len(v),'|',v[0][:420])
print(len(g),'groups')
P
