#!/usr/bin/env python3
"""st.py ID: replace the statement of a property in gen.py by stdin."""
import json, re, sys
k = sys.argv[1]; v = " ".join(sys.stdin.read().split())
p = __file__.rsplit("/", 1)[0] + "/gen.py"; t = open(p).read()
t, n = re.subn(r'(prop\("%s", "[^"]*",\n     )"(?:[^"\\]|\\.)*"' % k, lambda m: m.group(1) + json.dumps(v), t)
assert n == 1
open(p, "w").write(t)
print(v.count(". ") + 1, "sentences")
