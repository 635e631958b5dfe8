#!/usr/bin/env python3
"""Checks that the tools the machinery needs are present (nothing is fetched or installed)."""
import shutil, sys
missing = [t for t in ("gcc", "make", "ld", "objcopy", "objdump", "nm") if not shutil.which(t)]
if missing: sys.exit("missing tools: " + " ".join(missing))
