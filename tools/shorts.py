import sys, json; sys.path.insert(0, '/verif/analysis')
from check import *
p = load_dump(sys.argv[1]); ck = Ck('X', p)
import re
for n in sorted(ck.names):
    if re.search(sys.argv[2], n): print(n, [('L' if p.local(f) else 'd') for f in ck.names[n]])
