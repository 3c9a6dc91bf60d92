#!/bin/bash
# prints what each harness of a property's last run took
python3 - "$1" <<'P'
import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for r in d['coverage'].get('harnesses',[]): print(r.get('harness'),r.get('map_order'),r.get('wall_s'),'q',r.get('queries'),'solver',r.get('solver_s'),r.get('status'),r.get('returned_paths'),r.get('undecided_paths'))
P
