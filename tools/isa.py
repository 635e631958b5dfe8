#!/usr/bin/env python3
"""isa.py BINARY > table: every instruction of the executable's text that needs more than the x86-64 baseline, with the SIMD level it belongs to.
Levels as in hx.h: 2 SSSE3 (and SSE3), 3 SSE4.1, 4 AVX (and SSE4.2, POPCNT), 5 AVX2 (and BMI, LZCNT, FMA, F16C, MOVBE), 6 AVX-512F, 7 other AVX-512 subsets, 8 anything else newer."""
import re, subprocess, sys
SSE3 = {"movddup", "lddqu", "haddps", "haddpd", "hsubps", "hsubpd", "addsubps", "addsubpd", "movshdup", "movsldup", "fisttp", "monitor", "mwait"}
SSSE3 = {"pshufb", "palignr", "pabsb", "pabsw", "pabsd", "phaddw", "phaddd", "phaddsw", "phsubw", "phsubd", "phsubsw", "psignb", "psignw", "psignd", "pmaddubsw", "pmulhrsw"}
SSE41 = {"pblendvb", "blendvps", "blendvpd", "blendps", "blendpd", "pblendw", "pextrb", "pextrd", "pextrq", "pinsrb", "pinsrd", "pinsrq", "pminsb", "pminuw", "pminsd", "pminud", "pmaxsb", "pmaxuw", "pmaxsd", "pmaxud", "pcmpeqq", "ptest", "packusdw", "pmulld", "pmuldq", "roundps", "roundpd", "roundss", "roundsd", "dpps", "dppd", "insertps", "extractps", "movntdqa", "mpsadbw", "phminposuw"}
SSE42 = {"pcmpgtq", "pcmpestri", "pcmpestrm", "pcmpistri", "pcmpistrm", "crc32", "crc32b", "crc32w", "crc32l", "crc32q", "popcnt", "popcntl", "popcntq", "popcntw"}
HSW = {"lzcnt", "lzcntl", "lzcntq", "lzcntw", "andn", "bextr", "blsi", "blsr", "blsmsk", "bzhi", "pdep", "pext", "rorx", "sarx", "shlx", "shrx", "mulx", "movbe", "movbew", "movbel", "movbeq"}
NEWER = re.compile(r"^(adcx|adox|sha1|sha256|gf2p8|aes|pclmul|tile|ldtile|rdrand|rdseed|clwb|clflushopt)")
AVX2_ANY = re.compile(r"^v(pbroadcast|broadcasti|extracti128|inserti128|perm2i128|permq|permd|permps|permpd|pblendd|psllv|psrlv|psrav|pmaskmov|pgather|gather)")
AVX_YMM_P = re.compile(r"^v(ptest|permilp|perm2f128)")          # p-mnemonics which are plain AVX on ymm
HSW_V = re.compile(r"^v(fmadd|fmsub|fnmadd|fnmsub|cvtph2ps|cvtps2ph)")
NOTF = re.compile(r"^(vmovdqu8|vmovdqu16|vpadd[bw]|vpsub[bw]|vpcmp(eq|gt)?u?[bw]$|vpcmpeq[bw]|vpcmpgt[bw]|vpblendm[bw]|vpbroadcast[bw]|vpshufb|vpalignr|vpack|vpunpck[lh](bw|wd)|vpsll(w|dq)|vpsr[al](w|dq)|vpminu[bw]|vpmaxu[bw]|vpmins[bw]|vpmaxs[bw]|vpabs[bw]|vpmovb2m|vpmovw2m|vpmovm2[bw]|vpmov[dq]2m|vpmovm2[dq]|vptestn?m[bw]|vperm[wb]|vpermi2[wb]|vpermt2[wb]|vpmadd|vpmul[hl]w|vpmulhuw|vpmulhrsw|vpsadbw|vdbpsadbw|vpshuf[hl]w|vpmovwb|vpmovswb|vpmovuswb|vpmov[sz]xbw|vpextr|vpinsr|vandp|vandnp|vorp|vxorp|vinserti64x2|vinserti32x8|vextracti64x2|vextracti32x8|vinsertf64x2|vinsertf32x8|vextractf64x2|vextractf32x8|vbroadcast[if]32x2|vbroadcast[if]64x2|vbroadcast[if]32x8|vpmullq|vfpclass|vrange|vreduce|vpconflict|vplzcnt|vpopcnt|vpcompress[bw]|vpexpand[bw]|vpsh[lr]d|vpdp|vpmultishift|vcvt.*qq)")
def level(raw, mn, ops):
  if mn.startswith(("rep", "lock", "notrack", "bnd", "data16", "cs", "ds")): return 0
  b0 = raw[0]
  i = 0
  evex = b0 == 0x62
  if evex:
    if "zmm" not in ops and not mn.endswith(("ss", "sd")): return 7 if ("ymm" in ops or "xmm" in ops) else 7
    if NOTF.match(mn): return 7
    return 6
  if mn.startswith("k") and re.search(r"%k[0-7]", ops): return 6 if mn.endswith("w") and not mn.startswith(("kadd", "ktest")) or mn in ("kunpckbw",) else 7
  if b0 in (0xC4, 0xC5):
    if mn in HSW: return 5
    if HSW_V.match(mn) or AVX2_ANY.match(mn): return 5
    if mn in ("vbroadcastss", "vbroadcastsd") and "(" not in ops: return 5
    if "ymm" in ops and mn.startswith("vp") and not AVX_YMM_P.match(mn): return 5
    if "ymm" in ops and mn in ("vmpsadbw", "vmovntdqa"): return 5
    if mn.startswith(("vaes", "vpclmul", "vgf2p8")): return 8
    return 4
  if mn in SSE3: return 2
  if mn in SSSE3: return 2
  if mn in SSE41 or re.match(r"pmov[sz]x", mn) or (mn == "pextrw" and "(" in ops): return 3
  if mn in SSE42: return 4
  if mn in HSW: return 5
  if NEWER.match(mn): return 8
  return 0
def main():
  out = subprocess.run(["objdump", "-d", "-j", ".text", sys.argv[1]], stdout=subprocess.PIPE, text=True, check=True).stdout
  fn = "?"; rows = []; total = 0; prev = None
  for l in out.splitlines():
    m = re.match(r"^([0-9a-f]+) <(.+)>:$", l)
    if m: fn = m.group(2); continue
    m = re.match(r"^\s*([0-9a-f]+):\t((?:[0-9a-f]{2} )+)\s*(?:\t(\S+)\s*(.*))?$", l)
    if not m: continue
    if m.group(3) is None: continue  # continuation of a long instruction
    total += 1
    raw = bytes.fromhex(m.group(2).replace(" ", "")); mn = m.group(3); ops = m.group(4).split("#")[0]
    lv = level(raw, mn, ops)
    if lv: rows.append("%s %d %s %s" % (m.group(1), lv, fn.replace(" ", ""), (mn + " " + ops).strip().replace("\t", " ")))
  print("# instructions %d" % total)
  print("\n".join(rows))
main()
