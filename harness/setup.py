#!/usr/bin/env python3
"""Prepare the framework from the committed files: compile the Java implementations of the
arithmetic modules (if any) into /verif/build/classes and check that every module parses."""
import glob, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
srcs = sorted(glob.glob(os.path.join(ROOT, 'spec', 'java', '**', '*.java'), recursive=True))
if srcs:
    out = os.path.join(ROOT, 'build', 'classes')
    os.makedirs(out, exist_ok=True)
    subprocess.check_call(['javac', '-nowarn', '-cp', TLA, '-d', out] + srcs)
    open(os.path.join(out, '.done'), 'w').close()
print('ready')
