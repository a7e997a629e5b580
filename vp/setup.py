#!/usr/bin/env python3
"""Nothing to build: checks that the tools the checks need are there."""
import shutil
import sys
miss = [t for t in ('gcc', 'clang', 'cbmc', 'goto-cc', 'goto-instrument')
        if not shutil.which(t)]
if miss:
    print('missing:', miss)
    sys.exit(1)
