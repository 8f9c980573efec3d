#!/usr/bin/env python3
"""Checks that the toolchain is there. Checks build what they need themselves."""
import shutil, sys
miss = [t for t in ('g++', 'ninja', 'protoc', 'java', 'ar', 'nm') if not shutil.which(t)]
if miss: print('missing tools', miss); sys.exit(1)
print('toolchain present')
