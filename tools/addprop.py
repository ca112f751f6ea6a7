#!/usr/bin/env python3
"""appends the property tuple read from stdin to tools/props.py"""
import sys
p = __file__.rsplit("/", 1)[0] + "/props.py"; s = open(p).read(); t = sys.stdin.read().strip()
assert t.startswith("("), "tuple"; t = t.rstrip(",")
s = s.replace("\n]\nNA = ", "\n" + t + ",\n]\nNA = ", 1); open(p, "w").write(s)
