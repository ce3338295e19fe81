#!/usr/bin/env python3
# edit.py FILE OLD NEW [COUNT-INDEX]: replace one occurrence
import sys
import os
f,o,n=sys.argv[1:4]; k=int(sys.argv[4]) if len(sys.argv)>4 else 0
p=os.environ.get('REPO','/repo')+'/'+f; s=open(p).read(); parts=s.split(o)
assert len(parts)>k+1, 'not found'
assert len(sys.argv)>4 or len(parts)==2, 'ambiguous %d'%(len(parts)-1)
open(p,'w').write(o.join(parts[:k+1])+n+o.join(parts[k+1:]))
