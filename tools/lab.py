#!/usr/bin/env python3
"""lab.py [--no-tests] [--no-checks] [--props C01,C02] ID|PATCH...   development tool, no check uses it:
applies a planted change (/verif/seeded/<ID>/patch.diff or a patch file) to a scratch copy of /repo under /tmp/lab,
builds it, runs the repository's tests there, its demo and the checks (HX_REPO) on it."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch(name):
  d = "/tmp/lab/" + name; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
  sh(f"git -C /repo archive HEAD | tar x -C {d} && mkdir {d}/.vp && cp /opt/vp/Makefile /opt/vp/*.sh /opt/vp/*.py {d}/.vp && sed -i 's#/repo#{d}#g; s#/opt/vp#{d}/.vp#g' {d}/.vp/* && cd {d} && git init -q && git add -A . && git -c user.name=x -c user.email=x@x commit -qm x")
  if os.path.isdir("/tmp/lab-base/_build"): sh(f"cp -a /tmp/lab-base/_build {d}/_build")
  return d
def main():
  a = sys.argv[1:]; tests = "--no-tests" not in a; checks = "--no-checks" not in a; props = None
  if "--props" in a: i = a.index("--props"); props = a[i + 1].split(","); del a[i:i + 2]
  for x in [x for x in a if not x.startswith("--")]:
    sd = os.path.join(V, "seeded", x); patch = os.path.join(sd, "patch.diff") if os.path.isdir(sd) else os.path.abspath(x)
    name = os.path.basename(x).replace(".diff", ""); d = scratch(name); out = [name]
    demo = os.path.join(sd, "demo.sh") if os.path.isdir(sd) else None
    if demo: out.append("demo-clean=%d" % sh("bash " + demo, cwd=d).returncode)
    r = sh(f"git apply {patch}", cwd=d)
    if r.returncode: print(name, "PATCH DOES NOT APPLY", r.stdout); continue
    if tests:
      r = sh(f"bash {d}/.vp/build.sh"); out.append("build=%d" % r.returncode)
      if r.returncode: print(r.stdout[-2000:])
      sh(f"bash {d}/.vp/test.sh {d}/t.json"); res = set(json.load(open(d + "/t.json"))["passed"])
      miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in res]
      out.append("tests-lost=%d %s" % (len(miss), miss[:2] if miss else ""))
    if demo:
      r = sh("timeout 300 bash " + demo, cwd=d); out.append("demo-patched=%d [%s]" % (r.returncode, r.stdout.strip()[-150:]))
    print(" ".join(out), flush=True)
    if checks:
      pp = props or ([json.load(open(sd + "/meta.json"))["property"]] if demo else [])
      for p in pp:
        t = time.time(); r = sh(f"HX_REPO={d} python3 {V}/tools/check.py {p} quick")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print("   %s -> exit %d, %d violations, %.0f s  %s" % (p, r.returncode, len(v), time.time() - t, v[0] if v else r.stdout[-200:] if r.returncode else ""), flush=True)
    shutil.rmtree(d, ignore_errors=True)
main()
