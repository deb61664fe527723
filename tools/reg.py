#!/usr/bin/env python3
"""reg.py ID TECHNIQUE NOTE: adds a check to tools/manifest_data.py and regenerates MANIFEST.json"""
import re, subprocess, sys, os
here = os.path.dirname(os.path.abspath(__file__))
i, t, n = sys.argv[1:4]
s = open(here + '/manifest_data.py').read()
line = "    %r: (%r, %r),\n" % (i, t, n)
ids = [(m.group(1), m.start()) for m in re.finditer(r"^    '(C\d\d)': \('", s, re.M) if m.start() < s.index('NA')]
if any(x == i for x, _ in ids):
    s = re.sub(r"^    '%s': \(.*\n" % i, lambda m: line, s, count=1, flags=re.M)
else:
    after = [p for x, p in ids if x > i]
    pos = after[0] if after else s.index('}')
    s = s[:pos] + line + s[pos:]
open(here + '/manifest_data.py', 'w').write(s)
subprocess.check_call(['python3-vt', here + '/gen_manifest.py'])
