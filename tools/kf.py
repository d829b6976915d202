#!/usr/bin/env python3
# usage: kf.py PID COMMIT text  -- append a "fixed" entry
import sys
p='/verif/known_findings.json';s=open(p).read()
import json
pid,c,w=sys.argv[1:4]; w=json.dumps(w)[1:-1]
s=s.rstrip().rstrip(']').rstrip()+',\n {"status": "fixed", "property": "%s", "commit": "%s", "what": "fixed: property=%s %s %s"}\n]\n'%(pid,c,pid,c,w)
open(p,'w').write(s)
