#!/usr/bin/env python3
"""addcheck.py ID TECHNIQUE NOTE: register a check and rebuild the manifest"""
import json, sys, subprocess
p = __file__.rsplit('/', 1)[0]
d = json.load(open(p + '/checks.json'))
d[sys.argv[1]] = dict(technique=sys.argv[2], note=sys.argv[3])
json.dump(d, open(p + '/checks.json', 'w'), indent=1)
subprocess.check_call(['python3', p + '/mkmanifest.py'])
