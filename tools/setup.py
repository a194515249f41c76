#!/usr/bin/env python3
"""Nothing to build ahead of time: every check regenerates its encoding. Confirms the tools are there."""
import shutil, sys
need = ['cbmc', 'g++', 'c++filt']
bad = [t for t in need if not shutil.which(t)]
if not (shutil.which('clang++-18') or shutil.which('clang++')): bad.append('clang++')
if not (shutil.which('opt-18') or shutil.which('opt')): bad.append('opt')
if bad: sys.exit('missing tools: ' + ' '.join(bad))
