#!/usr/bin/env python3
"""show.py REPLAY : a reported violation with code point lists as text"""
import json, re, sys
def tx(m):
    n = [int(x) for x in m.group(1).split(',')]
    if not n or any(x < 9 or x > 0x10ffff for x in n):
        return m.group(0)
    return repr(''.join(map(chr, n)))
d = json.load(open(sys.argv[1]))
print(d['clause'], 'event', d['event'])
print(json.dumps(d['scenario'])[:3000])
print(re.sub(r'<<(\d+(?:, ?\d+)*)>>', tx, d['detail'])[:6000])
