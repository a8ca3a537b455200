#!/usr/bin/env python3
"""addfix.py COMMIT PROPERTY WHAT...  -- record a repaired defect in known_findings.json (used by hand, never by a check)"""
import json,sys
d=json.load(open('/verif/known_findings.json')); c,p,w=sys.argv[1],sys.argv[2],' '.join(sys.argv[3:])
n=max([int(f['id'][1:]) for f in d['findings'] if f['id'][0]=='F']+[0])+1
d['findings'].append(dict(id=f"F{n:02d}",status='fixed',property=p,commit=c,what=f"fixed: property={p} {c} {w}")); json.dump(d,open('/verif/known_findings.json','w'),indent=1)
