#!/usr/bin/env python3
"""stage_hunks.py FILE REGEX: stage the hunks of FILE's diff that match REGEX."""
import re,subprocess,sys
f,rx=sys.argv[1:3]
d=subprocess.run(["git","diff","-U1",f],capture_output=True,text=True).stdout
parts=re.split(r'(?m)^(?=@@)',d)
sel=[p for p in parts[1:] if re.search(rx,p)]
print(len(sel),"of",len(parts)-1)
subprocess.run(["git","apply","--cached","--unidiff-zero","--recount","-"],input=parts[0]+"".join(sel),text=True,check=True)
