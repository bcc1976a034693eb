#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import shutil, sys, os
ok = all(shutil.which(t) for t in ('gcc', 'java', 'ar')) and os.path.exists('/opt/veriftools/tla/tla2tools.jar')
sys.exit(0 if ok else 1)
