#!/usr/bin/env python3
"""Checks that the tools the analysis needs are present and byte-compiles the analyser."""
import compileall, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cxx = os.environ.get('GATLCHECK_CXX', 'g++-11')
if not shutil.which(cxx):
    sys.exit('missing compiler ' + cxx)
print(subprocess.run([cxx, '--version'], capture_output=True, text=True).stdout.splitlines()[0])
ok = compileall.compile_dir(os.path.join(V, 'gatlcheck'), quiet=1)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
sys.exit(0 if ok else 1)
