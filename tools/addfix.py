"""addfix.py "C05 (also C04)" TEXT: records /repo's last commit as a fix."""
import json, subprocess, sys
h = subprocess.check_output('git -C /repo log --format=%h -1', shell=True, text=True).strip()
p = '/verif/known_findings.json'
s = open(p).read()
i = s.rindex('"\n ]')
s = s[:i + 1] + ',\n  ' + json.dumps(f'fixed: property={sys.argv[1]} {h} {sys.argv[2]}') + s[i + 1:]
json.loads(s)
open(p, 'w').write(s)
