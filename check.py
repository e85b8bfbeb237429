#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import runner
a = sys.argv[1:]
if a and a[0] == '--replay':
    sys.exit(runner.replay_file(a[1]))
if a and a[0] == '--unit':
    runner.one(*a[1:]); sys.exit(0)
tier = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in a:
    tier = 'thorough'; a.remove('--thorough')
if '--quick' in a:
    tier = 'quick'; a.remove('--quick')
sys.exit(runner.check(a[0], tier))
