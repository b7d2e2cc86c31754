#!/usr/bin/env python3
"""Checks that the tools are there and that the framework compiles."""
import glob, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
with tempfile.TemporaryDirectory() as d:
    for f in glob.glob(os.path.join(V, 'mc', '*.c')):
        r = subprocess.run(['gcc', '-std=gnu11', '-D_FILE_OFFSET_BITS=64',
                            '-w', '-c', f, '-o', os.path.join(d, 'x.o')])
        if r.returncode:
            sys.exit(1)
subprocess.run(['objcopy', '--version'], stdout=subprocess.DEVNULL, check=True)
