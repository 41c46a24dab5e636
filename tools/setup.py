#!/usr/bin/env python3
"""nothing to build ahead of time: every check builds from /repo's current tree.  Verifies that the tools are present."""
import shutil, sys
miss = [t for t in ('clang++', 'g++', 'verus', 'ar') if not shutil.which(t)]
print('missing: %s' % miss if miss else 'tools present')
sys.exit(1 if miss else 0)
