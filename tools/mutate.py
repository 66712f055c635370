#!/usr/bin/env python3
"""Mutation analysis of the checks (not a check itself).

mutate.py OUT.jsonl [--n N] [--seed S] [--scale X] [--files RE] [--only FILE:LINE:...]
Makes single-token changes in copies of /repo's sources, drops those that do not change the object code,
--ops 2: identifier and index swaps, dropped operands, forced branches; --ops 3: rare-state gates ("when L is 41, bend
one value") inserted between statements.  Runs the dl checks with few cases, and records which check fails first.  Survivors are for reading."""
import sys, os, re, random, subprocess, json, shutil, hashlib, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
out = sys.argv[1]; opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
N = int(opt.get("--n", 200)); SEED = int(opt.get("--seed", 1)); OPS = int(opt.get("--ops", 1)); SCALE = opt.get("--scale", "0.02"); FILES = opt.get("--files", "."); VB = opt.get("--build", "/tmp/vb2"); TIMEOUT = int(opt.get("--timeout", 240))
SRC = ["src/ambe/ambe3600x2400.c", "src/ambe/ambe3600x2450.c", "src/ambe/ambe_common.c", "src/core/mbe_adaptive.c", "src/core/mbe_unvoiced_fft.c", "src/core/mbelib.c", "src/ecc/ecc.c", "src/ecc/ecc_const.c", "src/imbe/imbe7100x4400.c", "src/imbe/imbe7200x4400.c",
       "src/internal/ambe3600x2400_const.h", "src/internal/ambe3600x2450_const.h", "src/internal/ecc_const.h", "src/internal/imbe7200x4400_const.h", "src/internal/mbe_adaptive.h", "src/internal/mbe_math.h", "src/internal/mbe_unvoiced_fft.h", "src/internal/mbelib_const.h", "src/internal/ambe_common.h"]
CS = [f for f in SRC if f.endswith(".c")] + ["src/external/pffft/pffft.c"]
ORDER = {"ecc": "P03 P04 P07 P06 P05 P34", "ambe": "P09 P10 P12 P13 P30 P15 P07 P05 P06 P22 P31 P02 P27 P24 P25 P28 P34 P36 P37 P32 P08", "imbe": "P11 P14 P07 P08 P05 P06 P35 P30 P15 P31 P02 P27 P28 P24 P25 P36 P34 P37 P32",
         "core": "P18 P19 P20 P16 P17 P21 P22 P23 P29 P12 P13 P14 P30 P15 P02 P27 P33 P28 P24 P25 P36 P37 P32 P31 P34"}
def checks_for(f):
    b = os.path.basename(f)
    k = "ecc" if b.startswith("ecc") else "ambe" if b.startswith("ambe") else "imbe" if b.startswith("imbe") else "core"
    first = ORDER[k].split(); return first + [c for c in sorted(CHECKS) if c not in first and c not in ("P01", "P26")]
def mutants():
    res = []
    for f in SRC:
        if not re.search(FILES, f): continue
        text = open("/repo/" + f).read(); lines = text.split("\n"); incom = False; table = f.endswith("const.h") or f.endswith("const.c"); ntab = 0; dbg = 0
        for i, ln in enumerate(lines):
            s = ln.strip()
            if re.match(r"#\s*ifdef (IMBE|AMBE|MBE)_DEBUG", s): dbg = 1
            elif dbg and re.match(r"#\s*(endif|else)", s): dbg = 0
            if incom:
                if "*/" in s: incom = False
                continue
            if s.startswith("/*"):
                if "*/" not in s: incom = True
                continue
            if dbg or not s or s.startswith("//") or s.startswith("#") or s.startswith("*"): continue
            code = ln.split("//")[0]; code = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group()), code)
            def add(a, b, new, kind):
                res.append((f, i, a, b, new, kind))
            if OPS == 2:
                for x, y in (("cur_mp", "prev_mp"), ("prev_mp", "cur_mp"), ("prev_mp_enhanced", "prev_mp"), ("prev_mp", "prev_mp_enhanced"), ("cw0", "pw0"), ("pw0", "cw0"), ("cw0l", "pw0l"), ("PHIl", "PSIl"), ("PSIl", "PHIl"), ("Ml", "log2Ml"), ("log2Ml", "Ml"), ("errs", "errs2"), ("errs2", "errs"), ("errorCountTotal", "errorCount4"), ("repeatCount", "repeat"), ("repeat", "repeatCount"), ("swn", "un"), ("un", "swn"), ("prev_voiced", "cur_voiced"), ("cur_voiced", "prev_voiced"), ("a_min", "b_max"), ("sinf", "cosf"), ("Uw", "Uw_fft"), ("0", "1"), ("L", "K")):
                    for m in re.finditer(r"(?<![\w.])%s(?!\w)" % x, code): add(m.start(), m.end(), y, "id:" + y)
                for m in re.finditer(r"\[([a-z]\w*)\]", code): add(m.start(1), m.end(1), m.group(1) + " + 1", "idx+"); add(m.start(1), m.end(1), m.group(1) + " - 1", "idx-")
                for m in re.finditer(r"\bif \((.*)\) \{\s*$", code): add(m.start(1), m.end(1), "0 && (" + m.group(1) + ")", "if0"); add(m.start(1), m.end(1), "1 || (" + m.group(1) + ")", "if1")
                for m in re.finditer(r"\b(for|while) \((.*)\) \{\s*$", code): add(m.start(), m.start(), "if (0) ", "noloop")
                for m in re.finditer(r"\b(float|double)\)", code): add(m.start(1), m.end(1), "int", "cast")
                if s == "} else {": add(code.index("else"), code.index("else") + 4, "", "noelse")
                continue
            if OPS == 3:
                if re.match(r"^[\w\[\]\->.*(),+ ]+(=|\(|\+\+).*;\s*$", s) and not re.match(r"^(return|static|const|int|float|double|char|short|unsigned|uint\w+|size_t|long|struct|extern|typedef|break|continue|void)\b", s) and not lines[i - 1].rstrip().endswith((",", "(", "&&", "||", "=", "+", "else", ")")):
                    body = "\n".join(lines[max(0, i - 400):i]); k = max(body.rfind("\n}"), 0); head = body[k:]; names = [n for n in ("cur_mp", "prev_mp", "prev_mp_enhanced") if re.search(r"mbe_parms\s*\*\s*(restrict )?%s\b" % n, head) and not re.search(r"const mbe_parms\s*\*\s*(restrict )?%s\b" % n, head)]
                    if "cur_mp" not in names: continue
                    R = random.Random(hash((f, i, SEED)) & 0xffffffff) if False else random.Random("%s:%d:%d" % (f, i, SEED))
                    g = R.choice(["cur_mp->L == %d" % R.randint(9, 56), "cur_mp->w0 < 0.06f", "cur_mp->w0 > 0.3f", "cur_mp->repeatCount == 2", "cur_mp->repeatCount == 3", "cur_mp->errorRate > 0.06f", "cur_mp->errorRate > 0.0125f && cur_mp->errorRate < 0.0135f", "cur_mp->errorCountTotal == 5", "cur_mp->errorCount4 == 1 && cur_mp->errorCountTotal > 6", "cur_mp->noiseSeed > 53000.0f", "cur_mp->noiseSeed < 0.0f", "cur_mp->gamma > 12.0f", "cur_mp->gamma < 0.5f", "cur_mp->localEnergy > 1e8f", "cur_mp->localEnergy < 2000.0f", "cur_mp->amplitudeThreshold > 60000", "cur_mp->amplitudeThreshold < 15000", "cur_mp->Ml[1] == 0.0f", "cur_mp->Ml[2] > 3000.0f", "cur_mp->swn < 0", "cur_mp->un != 0", "cur_mp->Vl[1] == 0 && cur_mp->Vl[%d] == 1" % R.randint(4, 9), "cur_mp->mutingThreshold < 0.09f", "cur_mp->PSIl[1] > 6.0f", "cur_mp->previousUw[128] == 0.0f", "cur_mp->K == 12 && cur_mp->L < 40"] + (["prev_mp->L + 30 < cur_mp->L", "prev_mp->L == 56 && cur_mp->L < 20", "prev_mp->repeatCount == 1 && cur_mp->repeatCount == 0", "prev_mp->Vl[7] != cur_mp->Vl[7]", "prev_mp->w0 == cur_mp->w0", "prev_mp->errorRate > cur_mp->errorRate + 0.004f", "prev_mp->errorCountTotal > 9", "prev_mp->localEnergy > 1000.0f * cur_mp->localEnergy"] if "prev_mp" in names else []))
                    n = R.choice(names); e = R.choice(["Ml[%d] *= 1.5f" % R.randint(1, 9), "Vl[%d] ^= 1" % R.randint(1, 9), "PHIl[%d] += 0.5f" % R.randint(1, 20), "PSIl[%d] += 0.5f" % R.randint(1, 9), "log2Ml[%d] += 0.2f" % R.randint(1, 9), "gamma += 0.1f", "errorRate *= 1.1f", "errorCountTotal++", "errorCount4 = 0", "repeatCount++", "repeatCount = 0", "noiseSeed = 7.0f", "previousUw[%d] += 100.0f" % R.randint(100, 230), "noiseOverlap[%d] += 9.0f" % R.randint(0, 95), "swn += 100000", "un = 0", "localEnergy *= 2.0f", "amplitudeThreshold -= 500", "w0 *= 1.001f", "mutingThreshold = 0.0875f", "L -= 1"])
                    add(0, 0, "if (%s) { %s->%s; } " % (g, n, e), "gate")
                continue
            for m in re.finditer(r"(?<![<>=!-])(<=|>=|==|!=|<|>)(?![<>=])", code):
                if re.search(r"#include|->", code[max(0, m.start()-1):m.end()+1]): continue
                o = m.group(); new = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}[o]; add(m.start(), m.end(), new, "rel")
            for m in re.finditer(r"(?<=[\w\)\]] )([-+*/&|])(?= [\w\(\-])", code):
                o = m.group(); add(m.start(), m.end(), {"+": "-", "-": "+", "*": "/", "/": "*", "&": "|", "|": "&"}[o], "arith")
            for m in re.finditer(r"&&|\|\|", code): add(m.start(), m.end(), "||" if m.group() == "&&" else "&&", "logic")
            for m in re.finditer(r"(<<|>>)(?!=)", code): add(m.start(), m.end(), ">>" if m.group() == "<<" else "<<", "shift")
            if not table or ntab % 7 == 0:
                for m in re.finditer(r"(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+|\d+)(?![\w.]*\w)(f?)", code):
                    t = m.group(1)
                    if "." in t or "e" in t.lower(): add(m.start(1), m.end(1), "(%s * 1.02f + 0.0005f)" % t if m.group(2) or True else t, "float")
                    else:
                        add(m.start(1), m.end(1), str(int(t) + 1), "int+")
                        if int(t) > 0: add(m.start(1), m.end(1), str(int(t) - 1), "int-")
            ntab += 1
            if re.match(r"^\s*[\w\[\]\->.*()+, ]+(\s[-+*/|&^]?=\s.*|\(.*\)|\+\+|--);\s*$", code) and not re.match(r"^\s*(return|static|const|int|float|double|char|short|unsigned|uint\w+|size_t|long|mbe_\w+ \w|struct|goto|break|continue|case|typedef|extern)\b", code):
                add(len(code) - len(code.lstrip()), len(code.rstrip()), ";", "delete")
            for m in re.finditer(r"\b(return)\s+(-?\d+)\s*;", code): add(m.start(2), m.end(2), str(int(m.group(2)) ^ 1), "ret")
            for m in re.finditer(r"if \((?!\()", code): add(m.end(), m.end(), "!", "neg") if False else None
    return res
VAR = {"scalar": [], "simd": ["-DMBELIB_ENABLE_SIMD=1"], "notones": ["-DDISABLE_AMBE_TONES"]}
INC = lambda d: ["-I" + d + "/include", "-I" + VB + "/lib-simd/include", "-I" + d, "-I" + d + "/src/internal", "-I" + d + "/src/external/pffft"]
def cc(d, f, v, o, dbg=False):
    return subprocess.run(["gcc", "-O2", "-DNDEBUG", "-w", "-std=gnu99", "-fPIC", "-fvisibility=hidden", "-DMBE_BUILDING=1", "-Dmbe_shared_EXPORTS"] + VAR[v] + INC(d) + ["-c", d + "/" + f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def files_of(f):   # C files affected by a header
    if f.endswith(".c"): return [f]
    b = os.path.basename(f); todo = [b]; seen = set(); cs = set()
    while todo:
        h = todo.pop()
        if h in seen: continue
        seen.add(h)
        for root, _, fs in os.walk("/repo/src"):
            for x in fs:
                if x.endswith((".c", ".h")) and re.search(r'#\s*include\s+"[^"]*%s"' % re.escape(h), open(root + "/" + x).read()):
                    if x.endswith(".c"): cs.add(os.path.relpath(root + "/" + x, "/repo"))
                    else: todo.append(x)
    return sorted(c for c in cs if c in CS)
muts = mutants(); random.Random(SEED).shuffle(muts)
if "--only" in opt: muts = [m for m in muts if "%s:%d:%d:%s" % (m[0], m[1] + 1, m[2], m[5]) in opt["--only"].split(",")]
done = set()
if os.path.exists(out):
    for l in open(out): done.add(json.loads(l)["id"])
print("%d possible mutants" % len(muts)); muts = muts[:N]
q = queue.Queue(); lock = threading.Lock(); fo = open(out, "a")
for m in muts:
    i = "%s:%d:%d:%s" % (m[0], m[1] + 1, m[2], m[5])
    if i not in done: q.put((i, m))
base = {}; BW = "/tmp/mt"
def setup(w):
    d = "%s/w%d" % (BW, w); shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/work")
    shutil.copytree("/repo/src", d + "/repo/src"); shutil.copytree("/repo/include", d + "/repo/include")
    for v in VAR:
        os.makedirs(d + "/o-" + v)
        for f in CS:
            r = cc(d + "/repo", f, v, d + "/o-" + v + "/" + os.path.basename(f) + ".o"); assert r.returncode == 0, r.stdout
    return d
def h(p): return hashlib.sha1(open(p, "rb").read()).hexdigest()
def work(w):
    d = setup(w)
    while True:
        try: i, (f, ln, a, b, new, kind) = q.get_nowait()
        except queue.Empty: return
        src = d + "/repo/" + f; orig = open("/repo/" + f).read(); L = orig.split("\n"); old = L[ln]; L[ln] = old[:a] + new + old[b:]; open(src, "w").write("\n".join(L))
        rec = {"id": i, "old": old.strip()[:200], "new": L[ln].strip()[:200]}; changed = False; bad = None; aff = files_of(f)
        for v in VAR:
            objs = {g: d + "/o-" + v + "/" + os.path.basename(g) + ".o" for g in CS}
            for g in aff:
                o = d + "/m-%s.o" % os.path.basename(g); r = cc(d + "/repo", g, v, o)
                if r.returncode: bad = "compile"; break
                if h(o) != h(objs[g]): changed = True
                os.replace(o, d + "/x-%s-%s.o" % (v, os.path.basename(g))); objs[g] = d + "/x-%s-%s.o" % (v, os.path.basename(g))
            if bad: break
            subprocess.run(["gcc", "-shared", "-o", d + "/lib-%s.so" % v] + list(objs.values()) + ["-lm"], check=False)
        if bad: rec["result"] = bad
        elif not changed: rec["result"] = "equivalent"
        else:
            e = dict(os.environ, VERIF_NOSHRINK="1", VERIF_KNOWN=V + "/KNOWN_FINDINGS", HARNESS_KIND="dl")
            for v, l in (("scalar", "scalar"), ("simd", "simd"), ("notones", "notones"), ("release", "simd"), ("fastscalar", "scalar"), ("debuglog", "scalar"), ("strict", "simd"), ("debug", "scalar"), ("clang", "simd")): e["LIB_" + v] = d + "/lib-%s.so" % l
            rec["result"] = "SURVIVED"
            for c in checks_for(f):
                sc = SCALE
                hb = VB + "/h-%s-dl" % CHECKS[c]["src"][:-4]
                try: r = subprocess.run([hb, c, "--tier", "quick", "--seed", "1", "--jobs", "1", "--scale", sc, "--work", d + "/work", "--replay-dir", d + "/work"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=TIMEOUT)
                except subprocess.TimeoutExpired: rec["result"] = c + " timeout"; break
                if r.returncode: rec["result"] = c; rec["msg"] = next((x for x in r.stdout.split("\n") if "phase=" in x), r.stdout[-200:])[:300]; break
        open(src, "w").write(orig)
        with lock: fo.write(json.dumps(rec) + "\n"); fo.flush()
os.makedirs(BW, exist_ok=True)
ts = [threading.Thread(target=work, args=(w,)) for w in range(int(opt.get("--jobs", 8)))]
for t in ts: t.start()
for t in ts: t.join()
