#!/usr/bin/env python3
"""edit.py FILE : reads old/new from /tmp/b/old /tmp/b/new ; or edit.py FILE OLD NEW"""
import sys
p,o,n=sys.argv[1:4]; b=open(p,'rb').read()
o=o.encode().decode('unicode_escape').encode(); n=n.encode().decode('unicode_escape').encode()
if b'\r\n' in b: o=o.replace(b'\n',b'\r\n'); n=n.replace(b'\n',b'\r\n')
assert b.count(o)==1,('count',b.count(o))
open(p,'wb').write(b.replace(o,n))
