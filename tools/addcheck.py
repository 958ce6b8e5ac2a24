#!/usr/bin/env python3
"""usage: addcheck.py C16 '_n(1, 2)'  - sets an entry of engine/config.py"""
import re, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine/config.py")
s = open(p).read()
i, v = sys.argv[1:3]
s = re.sub(r'    "%s": .*\n' % i, "", s)
s = s.rstrip()
assert s.endswith("}")
open(p, "w").write(s[:-1] + f'    "{i}": {v},\n}}\n')
