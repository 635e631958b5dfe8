#!/usr/bin/env python3
"""mutate.py COUNT SEED [file-regex] [jobs]   development tool, no check uses it: small random changes of /repo/src in a scratch copy; lists those no exploration notices."""
import os, random, re, shutil, subprocess, sys, time, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cnt, seed = int(sys.argv[1]), int(sys.argv[2]); rx = re.compile(sys.argv[3] if len(sys.argv) > 3 else "."); jobs = sys.argv[4] if len(sys.argv) > 4 else "8"
rnd = random.Random(seed); W = f"/tmp/mut/{seed}"; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
subprocess.run(f"git -C /repo archive HEAD src | tar x -C {W}", shell=True, check=True)
skip = {"main.c", "rle_fuzz.c", "rle8_ocl.c", "rle8_ocl_kernel.h", "rle.h", "codec_funcs.h", "simd_platform.c", "simd_platform.h"}
files = sorted(f for f in os.listdir(W + "/src") if f not in skip and rx.search(f))
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<>\-=!])<(?![<=])", "<="), (r"(?<![<>\-=])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(int(m.group(1)) + 1)), (r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(max(0, int(m.group(1)) - 1))), (r"0x([0-9A-Fa-f]{1,4})\b", lambda m: hex(int(m.group(1), 16) >> 1)),
       (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "-="), (r"sizeof\(uint32_t\)", "sizeof(uint16_t)"), (r"sizeof\(uint16_t\)", "sizeof(uint32_t)"), (r"\bavx2Supported", "avxSupported"), (r"<<", ">>"), (r">>", "<<"), ("STMT", None)]
CODECS = {"rle8_low_entropy_cpu.c": "low_entropy", "rle8_low_entropy_short_cpu.c": "low_entropy_short", "rle_sh.c": "rle8_sh", "rle8_mmtf.c": "rle8_mmtf", "mmtf.c": "mmtf", "bit_mmtf.c": "bit_mmtf", "rle24": "rle24", "rle48": "rle48", "rle128": "rle128", "rleX_Xsl.h": "symlut", "rleX_Xsl_multi": "symlut", "rleX_Xsl_short": "short", "rle8_extreme": "rle8_", "rleX_extreme": "", "bitpack": "mmtf"}
lines = []
for f in files:
  incomment = False
  for n, l in enumerate(open(f"{W}/src/{f}", newline="").read().split("\n")):
    s = l.strip()
    if not s or s.startswith(("//", "#include", "*", "/*", "#ifdef", "#ifndef", "#endif", "#else", "#undef", "#fail", "#if", "#elif")) or "_MSC_VER" in s or "PREFETCH" in s.upper() or "printf" in s: continue
    lines.append((f, n))
def h(o): return hashlib.md5(subprocess.run(f"cat {o}/lib/*.o | md5sum; for i in {o}/lib/*.o; do objdump -d --no-show-raw-insn $i | grep -v 'file format'; done | md5sum", shell=True, stdout=subprocess.PIPE).stdout.split(b"\n")[1]).hexdigest()
def mk(o, *t): return subprocess.run(["make", "-s", "-j" + jobs, "-f", V + "/src/Makefile", "OUT=" + o, "REPO=" + W, "CFLAGS=-m64 -O2 -ffast-math -mxsave -DSSE2 -DNDEBUG -w -I" + W + "/src", *t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
O = W + "/o"; assert mk(O, "explore", "api", "explore_ref") == 0; base = h(O); shutil.copytree(O, W + "/o0")
A = ["--depth", "1", "--maxn", "524288"]
def steps(codec):
  ex = lambda p, *x: [O + "/explore", "--prop", p, *A, "--fam", "0x1bfff", "--jobs", jobs, "--out", W, "--stats", W + "/st", "--codec", codec, "--deadline", "150", *x]
  yield ex("C02"); yield ex("C04"); yield ex("C03"); yield [O + "/api", "--prop", "C17", "--depth", "1", "--jobs", jobs, "--out", W, "--stats", W + "/st", "--codec", codec]
  yield ex("C05", "--depth", "0"); yield [O + "/explore", "--prop", "C15", "--depth", "1", "--fam", "0x1020", "--maxn", str(40 << 20), "--jobs", jobs, "--out", W, "--stats", W + "/st", "--codec", codec]
  yield [O + "/explore_ref", "--prop", "C16", *A, "--fam", "0x1bfff", "--jobs", jobs, "--out", W, "--stats", W + "/st", "--codec", codec]
  yield ex("C10", "--depth", "0")
  for p, d in (("C06", "2"), ("C08", "2"), ("C09", "1")): yield [O + "/api", "--prop", p, "--depth", d, "--jobs", jobs, "--out", W, "--stats", W + "/st"]
done = killed = same = bad = 0
while done < cnt:
  f, n = rnd.choice(lines); p = f"{W}/src/{f}"; orig = open(p, newline="").read(); ls = orig.split("\n"); l = ls[n]; op, rep = rnd.choice(OPS)
  if op == "STMT":
    if not re.match(r"^\s*[\w\*\(\)\[\]>\-\. &]+(=|\+=|-=|\+\+|\().*;\s*\\?\r?$", l) or re.match(r"^\s*(const|uint|int|size_t|bool|__m|typedef|return|goto)", l): continue
    new = re.sub(r"\S.*;", ";", l, count=1)
  else:
    ms = list(re.finditer(op, l.split("//")[0]))
    if not ms: continue
    m = rnd.choice(ms); new = l[:m.start()] + (rep(m) if callable(rep) else rep) + l[m.end():]
  if new == l: continue
  done += 1; ls[n] = new; open(p, "w", newline="").write("\n".join(ls)); t = time.time()
  shutil.rmtree(O); os.makedirs(O)
  for x in os.listdir(W + "/o0"):
    if x.startswith(("h_", "libref", "refglue", "ref")): (shutil.copytree if os.path.isdir(W + "/o0/" + x) else shutil.copy2)(W + "/o0/" + x, O + "/" + x)
  res = None
  if mk(O, "explore", "api", "explore_ref"): bad += 1; res = "nocompile"
  elif h(O) == base: same += 1; res = "same"
  else:
    codec = next((c for k, c in CODECS.items() if f.startswith(k)), "")
    for c in steps(codec):
      try: r = subprocess.run(["timeout", "400", *c], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).returncode
      except Exception: r = -1
      if r: res = "killed by " + c[2] + ("" if r == 1 else " rc=%d" % r); killed += 1; break
  if res is None: print("SURVIVED %s:%d\n  - %s\n  + %s\n  (%.0f s)" % (f, n + 1, l.strip(), new.strip(), time.time() - t), flush=True)
  else: print("%s %s:%d %.0fs" % (res, f, n + 1, time.time() - t), flush=True)
  open(p, "w", newline="").write(orig)
  subprocess.run(f"rm -f {W}/*.replay", shell=True)
print("mutants", done, "killed", killed, "same", same, "nocompile", bad)
shutil.rmtree(W, ignore_errors=True)
