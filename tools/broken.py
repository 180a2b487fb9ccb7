#!/usr/bin/env python3
"""Names the groups of generated types that compiler errors point into. Usage: broken.py ZOODIR LOG"""
import re
import sys

groups = set()
for name, line in re.findall(r"--> \S*?/(zoo\d+\.rs):(\d+):\d+", open(sys.argv[2], encoding="utf-8", errors="replace").read()):
    last = None
    for i, text in enumerate(open(f"{sys.argv[1]}/{name}", encoding="utf-8"), 1):
        if i > int(line):
            break
        m = re.match(r"pub mod (\w+) \{$", text)
        if m:
            last = m.group(1)
    if last:
        groups.add(last)
for g in sorted(groups):
    print(g)
