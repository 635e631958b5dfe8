#!/usr/bin/env python3
"""Writes src/stubs.inc and src/cli.map from src/codecs.inc: one stand-in per codec entry point and the symbol redirections of the tool's objects."""
import os, re
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "src")
rows = re.findall(r'\{ "([a-z0-9_]+)", ([a-z0-9_]+), ([a-z0-9_]+),', open(os.path.join(S, "codecs.inc")).read())
with open(os.path.join(S, "stubs.inc"), "w") as f:
  for i, (n, e, d) in enumerate(rows): f.write("uint32_t stub__%s(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_enc(%d, i, n, o, m); }\n" % (e, i))
  for d in sorted({r[2] for r in rows}): f.write("uint32_t stub__%s(const uint8_t *i, const uint32_t n, uint8_t *o, const uint32_t m) { return stub_dec(i, n, o, m); }\n" % d)
with open(os.path.join(S, "cli.map"), "w") as f:
  for s in sorted({r[1] for r in rows} | {r[2] for r in rows}): f.write("%s stub__%s\n" % (s, s))
  for s in "malloc aligned_alloc calloc realloc free fopen fclose fread fseek ftell usleep clock_gettime exit abort".split(): f.write("%s cli_%s\n" % (s, s))
