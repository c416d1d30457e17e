#!/usr/bin/env python3
"""Re-embeds changed files of traceapp/tmpl/data in data_vfsdata.go the way
vfsgendev (not available offline) does. Usage: regen_templates.py REPO NAME..."""
import gzip, os, re, sys, time
repo, names = sys.argv[1], sys.argv[2:]
p = os.path.join(repo, "traceapp/tmpl/data_vfsdata.go")
src = open(p).read()
for n in names:
    b = open(os.path.join(repo, "traceapp/tmpl/data", n), "rb").read()
    z = gzip.compress(b, 9, mtime=0)
    lit = "".join("\\x%02x" % c for c in z)
    src, k = re.subn(r'(name:\s+"%s",\s+modTime:[^\n]*\n\s+compressedContent: \[\]byte\(")[^"]*("\),\s+uncompressedSize:\s+)\d+' % re.escape(n),
                     lambda m: m.group(1) + lit + m.group(2) + str(len(b)), src)
    assert k == 1, n
open(p, "w").write(src)
