#!/usr/bin/env python3
"""cpuid.py BINARY: addresses of the cpuid (c) and xgetbv (x) instructions in the executable's text"""
import re, subprocess, sys
for l in subprocess.run(["objdump", "-d", "-j", ".text", sys.argv[1]], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
  m = re.match(r"^\s*([0-9a-f]+):\t((?:[0-9a-f]{2} )+)\s*\t(cpuid|xgetbv)\b", l)
  if m: print(m.group(1), "c" if m.group(3) == "cpuid" else "x", m.group(2).replace(" ", ""))
