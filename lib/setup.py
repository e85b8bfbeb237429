#!/usr/bin/env python3
"""offline sanity of the tool chain the checks need"""
import shutil, sys
miss = [t for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc', 'cvc5') if not shutil.which(t)]
if miss:
    print('missing tools:', miss); sys.exit(1)
print('tools present')
