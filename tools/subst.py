"""subst.py FILE <<< python literal list of (old, new): exact single replacement."""
import sys, ast
p = sys.argv[1]
s = open(p).read()
for old, new in ast.literal_eval(sys.stdin.read()):
    assert s.count(old) == 1, (s.count(old), old)
    s = s.replace(old, new)
open(p, 'w').write(s)
