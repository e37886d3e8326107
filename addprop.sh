#!/bin/sh
# development aid: register a property in checks.json before it is in proptable.py
python3 - "$@" <<'P'
import json,sys
p='/verif/checks.json'
j=json.load(open(p))
for k in sys.argv[1:]: j.setdefault(k,{})
json.dump(j,open(p,'w'),indent=1)
P
