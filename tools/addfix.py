#!/usr/bin/env python3
"""addfix.py PROP COMMIT WHAT... : append a fixed entry to known_findings.json (developer tool)."""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
d['fixed'].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {' '.join(sys.argv[3:])}")
json.dump(d, open(p, 'w'), indent=1, ensure_ascii=False)
open(p, 'a').write('\n')
