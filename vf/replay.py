"""python3-vt -m vf.replay FILE : rebuild from /repo and rerun the case recorded in FILE."""
import re, sys
from . import stage as st
from .check import Harness
t = open(sys.argv[1]).read()
case, fl = re.search(r'^case: (.*)$', t, re.M).group(1), re.search(r'^build: (.*)$', t, re.M).group(1)
pid = re.search(r'^property: (.*)$', t, re.M)
s = st.Stage()
try:
    f = Harness(s, pid.group(1) if pid else '').case(fl, case)
    print('FAILS: %s\n%s' % (f['what'], f['output']) if f else 'passes')
finally:
    s.close()
sys.exit(1 if f else 0)
