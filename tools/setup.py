#!/usr/bin/env python3-vt
"""Nothing is prebuilt: every check rebuilds its encoding from the sources. This only checks the tools."""
import shutil, sys
import z3, numpy
missing = [t for t in ('g++', 'z3-new') if not shutil.which(t)]
print('tools:', 'missing ' + ', '.join(missing) if missing else 'ok')
sys.exit(1 if missing else 0)
