#!/usr/bin/env python3
"""Builds what the checks share. Every check can also build it on its own."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import kanirun, symrun
for prof in ('dev', 'rel', 'dev-nouw'):
    b, msg = symrun.build('c19', prof, 900)
    print('symx', prof, 'ok' if b else msg[-400:])
print('replay', kanirun.build_replay('c02', False), kanirun.build_replay('c02', True))
