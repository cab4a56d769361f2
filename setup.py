#!/usr/bin/env python3
"""Builds the IR exporter; everything else is built by the checks from /repo's tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import build
build.tool('irdump'); build.tool('astfacts')
print('ready')
