#!/usr/bin/env python3
"""check.py <property> <quick|thorough>   decide one property against /repo's working tree
   check.py --replay FILE                re-run one recorded counterexample
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself could not run."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HX_REPO", "/repo")
EV = os.path.join(V, "evidence")
RP = os.path.join(EV, "replays")
T0 = time.time()
FAMS = ["units", "grid", "gridp", "two", "lut", "thresh", "lits", "periodic", "le", "sh", "blocks", "bytes", "big", "pairs", "grow", "waste", "seq", "many"]
def mask(*names): return sum(1 << FAMS.index(n) for n in names)
def allbut(*names): return sum(1 << i for i, n in enumerate(FAMS) if n not in names and n not in ("grow", "many"))
ALL = allbut()

# property -> (binary, make target, {tier: [passes]}); a pass is a list of explorer arguments
def P(depth, fam=ALL, maxn=1 << 19, extra=()): return ["--depth", str(depth), "--fam", hex(fam), "--maxn", str(maxn), *extra]
EXPLORE = {
  "C01": ("explore", {"quick": [P(1)], "thorough": [P(2), P(3, allbut("two", "units", "grid", "big", "lut"))]}),
  "C02": ("explore", {"quick": [P(1)], "thorough": [P(2)]}),
  "C03": ("explore", {"quick": [P(1), P(1, mask("grow"), 40 << 20)], "thorough": [P(2), P(2, mask("grow"), 256 << 20)]}),
  "C04": ("explore", {"quick": [P(1)], "thorough": [P(2)]}),
  "C05": ("explore", {"quick": [P(0, allbut("big"))], "thorough": [P(1), P(2, mask("lut", "periodic", "blocks", "le", "pairs"))]}),
  "C10": ("explore", {"quick": [P(0)], "thorough": [P(1), P(2, allbut("two", "grid", "units", "big"))]}),
  "C15": ("explore", {"quick": [P(1, mask("big", "thresh", "many"), 40 << 20)], "thorough": [P(2, mask("big", "thresh", "many"), 80 << 20)]}),
  "C16": ("explore_ref", {"quick": [P(1)], "thorough": [P(2)]}),
}
DEADLINE = {"quick": 600, "thorough": 6 * 3600}

RULES = {
  "C01": "every (codec, input) of the enumerated families, at every SIMD level: compress, then decompress and compare; non-trivial: the stream is shorter than the data",
  "C02": "every (codec, input): compress at every level, decompress every distinct stream at every level; non-trivial: levels disagree on the stream or the stream is shorter than the data",
  "C03": "every (codec, input, level), buffers flush against the upper and the lower guard page; non-trivial: the data grew (the bound is approached)",
  "C04": "every (codec, input, encoder level, decoder level), buffers flush against the upper and the lower guard page; non-trivial: a stream was decoded",
  "C05": "every (codec, input, level) under 8 placements/contexts for the encoder and all residues of the output alignment for the decoder; non-trivial: the stream is shorter than the data",
  "C10": "every (codec, input, encoder level, decoder level) with 5 combinations of declared sizes and trailing bytes; non-trivial: the stream is shorter than the data",
  "C15": "every (codec, shape, length at a format boundary, level pair); non-trivial: levels disagree or the stream is shorter than the data",
  "C16": "every (codec, input, level): reference stream through the current decoder and current stream through the reference decoder; non-trivial: the stream is shorter than the data",
}
ASSUME = ["the codecs run on this CPU: SIMD levels it lacks are not executed",
          "the code is compiled with gcc -O2 as in the project's release configuration",
          "inputs outside the enumerated families are not covered"]

def log(*a): print(*a, file=sys.stderr, flush=True)

class Build:
  def __init__(self):
    os.makedirs(os.path.join(V, ".build"), exist_ok=True)
    self.dir = tempfile.mkdtemp(prefix="b", dir=os.path.join(V, ".build"))
  def make(self, *targets):
    r = subprocess.run(["make", "-s", "-j8", "-f", os.path.join(V, "src/Makefile"), "OUT=" + self.dir, "REPO=" + REPO, *targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
      log(r.stdout[-4000:]); log("build failed"); sys.exit(2)
  def close(self): shutil.rmtree(self.dir, ignore_errors=True)

def evidence(prop, tier, level, coverage, violations, assumptions):
  os.makedirs(EV, exist_ok=True)
  d = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": coverage, "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": violations}
  tmp = os.path.join(EV, prop + ".json.tmp")
  with open(tmp, "w") as f: json.dump(d, f, indent=1)
  os.replace(tmp, os.path.join(EV, prop + ".json"))

def samples(b, binary, prop, passes):
  """a few actual cases of the run, written out"""
  r = subprocess.run([os.path.join(b.dir, binary), "--prop", prop, *passes[0], "--samples", "6"], stdout=subprocess.PIPE, text=True)
  return [l for l in r.stdout.splitlines() if l.startswith("sample")]

def explore(prop, tier, b):
  binary, passes = EXPLORE[prop][0], EXPLORE[prop][1][tier]
  b.make(binary)
  os.makedirs(RP, exist_ok=True)
  agg, fams, complete, viol = {}, {}, True, 0
  for p in passes:
    st = os.path.join(b.dir, "stats.json")
    if os.path.exists(st): os.unlink(st)
    left = max(20, int(DEADLINE[tier] - (time.time() - T0)))
    r = subprocess.run([os.path.join(b.dir, binary), "--prop", prop, *p, "--jobs", str(os.cpu_count() or 8), "--out", RP, "--stats", st, "--deadline", str(left)])
    if r.returncode not in (0, 1) or not os.path.exists(st): log("explorer failed:", r.returncode); sys.exit(2)
    s = json.load(open(st))
    for k in ("evaluations", "cases", "transitions", "nontrivial"): agg[k] = agg.get(k, 0) + s[k]
    for k, v in s["families"].items(): fams[k] = fams.get(k, 0) + v
    complete = complete and s["complete"]; viol += s["violations"]
    if viol: break
  if prop == "C15" and not viol: # the largest accepted size
    b.make("huge"); s = run_pass(prop, tier, b, [os.path.join(b.dir, "huge"), "--prop", prop, "--depth", "1" if tier == "quick" else "2"])
    for k in ("evaluations", "cases", "transitions", "nontrivial"): agg[k] = agg.get(k, 0) + s[k]
    fams.update(s["families"]); complete = complete and s["complete"]; viol += s["violations"]
  cov = {"states": agg["cases"], "transitions": agg["transitions"], "traces_validated_against_impl": agg["evaluations"], "distinct_nontrivial": agg["nontrivial"],
         "rule": RULES[prop] + ". states: distinct (codec, input) pairs (deduplicated per shard); transitions: library calls executed; traces: complete call sequences of the real library judged by the oracle.",
         "samples": samples(b, binary, prop, passes), "exhaustive": complete and not viol, "families": fams, "passes": [" ".join(p) for p in passes], "levels": s["levels"], "codecs": s["codecs"]}
  evidence(prop, tier, "model_checking", cov, viol, ASSUME)
  return 1 if viol else 0

def run_pass(prop, tier, b, cmd):
  """one exploration pass of a harness binary; returns its statistics (None: not available on this machine)"""
  os.makedirs(RP, exist_ok=True)
  st = os.path.join(b.dir, "stats.json")
  if os.path.exists(st): os.unlink(st)
  left = max(20, int(DEADLINE[tier] - (time.time() - T0)))
  r = subprocess.run([*cmd, "--jobs", str(os.cpu_count() or 8), "--out", RP, "--stats", st, "--deadline", str(left)], cwd=b.dir)
  if r.returncode not in (0, 1) or not os.path.exists(st): log("explorer failed:", r.returncode); sys.exit(2)
  s = json.load(open(st))
  return None if s.get("unavailable") else s

def total(stats):
  agg = {k: sum(s[k] for s in stats) for k in ("evaluations", "cases", "transitions", "nontrivial", "violations")}
  agg["complete"] = all(s["complete"] for s in stats); agg["samples"] = [x for s in stats for x in s.get("samples", [])][:8]
  return agg

def finish(prop, tier, agg, rule, assumptions, **more):
  evidence(prop, tier, "model_checking", {"states": agg["cases"], "transitions": agg["transitions"], "traces_validated_against_impl": agg["evaluations"], "distinct_nontrivial": agg["nontrivial"], "rule": rule,
           "samples": agg["samples"], "exhaustive": agg["complete"] and not agg["violations"], **more}, agg["violations"], assumptions)
  return 1 if agg["violations"] else 0

API = {
  "C06": ({"quick": 2, "thorough": 3}, "every (codec, level, kind of invalid call, size): all output sizes below the bound, all truncations, all output sizes below the original length, all missing-buffer combinations, oversized inputs, each with guard pages directly behind the declared sizes; states: distinct calls; non-trivial: calls near the acceptance limit"),
  "C08": ({"quick": 2, "thorough": 3}, "every (transform, level, alignment pair, content, length) against an executable per-lane model; states: distinct (transform, content, length); traces: model results compared with the real functions"),
  "C09": ({"quick": 1, "thorough": 2}, "every (input, section count, level) of the sub-section interface and every (statistics input, data input) of the two-step interface"),
  "C17": ({"quick": 1, "thorough": 2}, "every (codec, level, run length, gap length, number of runs, same/changing symbol, prefix); oracle: size bound linear in the number of runs"),
}
def api(prop, tier, b):
  depths, rule = API[prop]; b.make("api")
  s = run_pass(prop, tier, b, [os.path.join(b.dir, "api"), "--prop", prop, "--depth", str(depths[tier])])
  return finish(prop, tier, total([s]), rule, ASSUME, depth=depths[tier])

LEVELS = ["none", "sse2", "ssse3", "sse4.1", "avx", "avx2", "avx512f"]
def c11(prop, tier, b):
  b.make("explore"); exe = os.path.join(b.dir, "explore"); traps = os.path.join(b.dir, "traps.txt")
  with open(traps, "w") as f: subprocess.run([sys.executable, os.path.join(V, "tools/isa.py"), exe], stdout=f, check=True)
  passes = {"quick": [P(1, allbut("big"))], "thorough": [P(2, allbut("big")), P(1)]}[tier]
  stats, done = [], []
  for p in passes:
    for l in range(len(LEVELS)):
      s = run_pass(prop, tier, b, [exe, "--prop", prop, *p, "--traps", traps, "--level", str(l)])
      if s: stats.append(s); done.append(LEVELS[l])
      if s and s["violations"]: break
  a = total(stats); a["samples"] = samples(b, "explore", prop, passes)
  n = sum(1 for l in open(traps) if l[0] != "#")
  return finish(prop, tier, a, "every (codec, input, level): the instructions above the level are replaced by breakpoints, so that executing one is observed with certainty; states: distinct (codec, input) per level; non-trivial: the stream is shorter than the data", ASSUME, levels=done, breakpoint_candidates=n, passes=[" ".join(p) for p in passes])

def c12(prop, tier, b):
  b.make("detect"); exe = os.path.join(b.dir, "detect"); traps = os.path.join(b.dir, "cpuid.txt")
  with open(traps, "w") as f: subprocess.run([sys.executable, os.path.join(V, "tools/cpuid.py"), exe], stdout=f, check=True)
  s = run_pass(prop, tier, b, [exe, "--prop", prop, "--traps", traps, "--depth", "2" if tier == "quick" else "3"])
  return finish(prop, tier, total([s]), "every virtual processor: full product of the feature bits the codecs depend on x OSXSAVE x XCR0 state bits x maximum leaf, every single feature bit against every XCR0 byte, every irrelevant bit; states: virtual processors; transitions: detections and calls after detection; non-trivial: (processor, feature) pairs where the feature has to be reported",
                ["the behaviour of cpuid and xgetbv is emulated from the processor manuals"])

CLI = {
  "C13": ("every (driver, codec, kind of failure, input size, byte position, bit, options) injected into the tool's real test mode and fuzzers (the fuzzer is forked at the injection point), every failing environment call, and every size/option set with correct codecs; states: distinct fault scenarios; non-trivial: a fault was injected and reached",
          ["the codecs are replaced by stand-ins that obey their documented buffer contract", "a failure of a codec is deterministic within one run of the tool"]),
  "C14": ("every combination of the selection options (7 attributes x 32 mode sets), every SIMD limit (and pairs of them) on every platform level, every repetition/contradiction, unknown and incomplete options at every position; states: distinct command lines; non-trivial: command lines which select codecs",
          ["codec attributes are derived from the codec function names"]),
  "C18": ("every input of the one-section space through fuzz() itself and of the two-section space through the functions below it (after these were seen to give the same inputs as fuzz()), each compared with the enumeration of the specification; the first inputs of 2, 3 and 6 sections in two environments; every (codec, kind of content failure, position) with the file left behind; states and traces: generated inputs; non-trivial: all",
          ["the codecs are replaced by stand-ins", "if the functions below fuzz() have another interface, two sections are covered by their first 20000 inputs only"]),
  "C19": ("every sequence of call durations over four values for up to 4 (thorough: 5) runs x sizes x compressed sizes and contents x options, every (minimum time, runs, duration), every failing codec; states: benchmarks; traces: rows whose figures were compared",
          ["the clock only advances in the codecs and pauses"]),
  "C20": ("every file of the enumerated spaces; states: files; traces: complete reports compared with the model",
          ["the two tables of length differences are not judged"]),
}
CLIDEPTH = {"C13": (1, 2), "C14": (2, 2), "C18": (1, 2), "C19": (2, 3), "C20": (1, 2)}
def cli(prop, tier, b):
  b.make("cli"); s = run_pass(prop, tier, b, [os.path.join(b.dir, "cli_bin"), "--prop", prop, "--depth", str(CLIDEPTH[prop][tier == "thorough"])])
  return finish(prop, tier, total([s]), CLI[prop][0], CLI[prop][1])

def c07(prop, tier, b):
  b.make("sched"); s = run_pass(prop, tier, b, [os.path.join(b.dir, "sched"), "--prop", prop, "--depth", "1" if tier == "quick" else "2"])
  return finish(prop, tier, total([s]), "every schedule up to the preemption bound (quick: 1, 2 for selected groups; thorough: 2, 3 for selected groups) of every group of 2 or 3 concurrent operations, from the undetected and the detected state, scheduling point = every access of an instruction to the library's writable data or memory it allocated; states: groups of operations; transitions: complete schedules executed; traces: schedules whose results were compared with the results of the operations alone; non-trivial: schedules with at least one preemption point",
                ["sequentially consistent interleavings at instruction granularity of the code gcc -O2 produces", "a group with more than 30000 (thorough: 400000) schedules is truncated; the number of truncated groups is printed (0 on the unchanged tree)"])

def c21(prop, tier, b):
  b.make("ocl"); s = run_pass(prop, tier, b, [os.path.join(b.dir, "ocl"), "--prop", prop, "--depth", "2" if tier == "quick" else "3"])
  return finish(prop, tier, total([s]), "every (input, section count) of the families with transfers at once and as late as allowed and all work group interleavings (by independence of the groups, checked for every kernel run); every history of up to 4 (thorough: 5) calls of initialise/decompress/release with every OpenCL or allocation call failing, every pair of failing calls for short histories; states: (stream) cases and (history, failing calls); non-trivial: data that shrinks or a failing call",
                ["the OpenCL runtime is a stand-in written from the OpenCL specification; kernels run as C code compiled from the source the library passes", "a failing call has no effect"])
def c22(prop, tier, b):
  b.make("bits"); s = run_pass(prop, tier, b, [os.path.join(b.dir, "bits"), "--prop", prop, "--depth", "2" if tier == "quick" else "3"])
  return finish(prop, tier, total([s]), "every (function pair, length, position, value, background) and every pair of positions for shorter lengths, buffers at both guard pages; states: distinct buffers packed and unpacked", ["values have no bits above the packed width"])

# other checks register themselves here: property -> function(prop, tier, build) returning the exit status
OTHER = {p: api for p in API}
OTHER.update({"C11": c11, "C12": c12, "C13": cli, "C14": cli, "C18": cli, "C19": cli, "C20": cli, "C07": c07, "C21": c21, "C22": c22})

def main():
  if len(sys.argv) == 3 and sys.argv[1] == "--replay":
    path = os.path.abspath(sys.argv[2]); prop = open(path, "rb").readline().decode().strip().split("=", 1)[1]
    b = Build()
    try:
      if "-huge-" in os.path.basename(path): b.make("huge"); return subprocess.run([os.path.join(b.dir, "huge"), "--replay", path]).returncode
      if prop in EXPLORE: b.make(EXPLORE[prop][0]); return subprocess.run([os.path.join(b.dir, EXPLORE[prop][0]), "--replay", path]).returncode
      log("replay of this property: see the file itself"); return 2
    finally: b.close()
  prop, tier = sys.argv[1], sys.argv[2]
  b = Build()
  try:
    if prop in EXPLORE: return explore(prop, tier, b)
    if prop in OTHER: return OTHER[prop](prop, tier, b)
    log("unknown property"); return 2
  finally: b.close()

if __name__ == "__main__": sys.exit(main())
