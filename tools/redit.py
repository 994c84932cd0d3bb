#!/usr/bin/env python3
"""redit.py FILE < edits : replace text keeping the file's line endings.  Edits: blocks '<<<<\\nold\\n====\\nnew\\n>>>>'."""
import sys, re
p = sys.argv[1]
raw = open(p, newline='').read()
crlf = '\r\n' in raw
s = raw.replace('\r\n', '\n')
for old, new in re.findall(r'<<<<\n(.*?)\n====\n(.*?)\n?>>>>', sys.stdin.read(), re.S):
    if s.count(old) != 1:
        print('match count', s.count(old), 'for:\n' + old); sys.exit(1)
    s = s.replace(old, new)
if crlf: s = s.replace('\n', '\r\n')
open(p, 'w', newline='').write(s)
