"""Compiles the real translation units of /repo, for the verifier (LLVM IR)
and for the replay harnesses (native code).  Everything is rebuilt from the
current working tree in a scratch directory; nothing is written to /repo."""
import os, re, subprocess, tempfile, hashlib, shutil, sys, atexit
from concurrent.futures import ThreadPoolExecutor
from . import ir, sym

REPO = os.environ.get("MLIO_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="mlio-verif-", dir=base)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def natsort_inc():
    """natsort as the build installs it (copied and patched, out of tree)"""
    d = os.path.join(scratch(), "natsort")
    if not os.path.isdir(d):
        os.makedirs(d)
        src = os.path.join(REPO, "third-party/natsort")
        for f in os.listdir(src): 
            if os.path.isfile(os.path.join(src, f)): shutil.copy(os.path.join(src, f), d)
        if os.path.exists(os.path.join(d, "strnatcmp.h.patch")):
            subprocess.run("patch -s < strnatcmp.h.patch", shell=True, cwd=d, stdout=subprocess.DEVNULL)
        inc = os.path.join(d, "inc/natsort"); os.makedirs(inc)
        for f in os.listdir(d):
            if f.endswith(".h"): 
                shutil.copy(os.path.join(d, f), inc); shutil.copy(os.path.join(d, f), os.path.join(d, "inc"))
    return d

def proto_inc():
    d = os.path.join(scratch(), "proto")
    if not os.path.isdir(d):
        os.makedirs(d)
        p = None
        for root, _, fs in os.walk(os.path.join(REPO, "src")):
            for f in fs:
                if f.endswith(".proto"): p = os.path.join(root, f)
        if p:
            rel = os.path.relpath(p, os.path.join(REPO, "src"))
            subprocess.run(["protoc", "-I" + os.path.join(REPO, "src"), "--cpp_out=" + d, rel], check=True, cwd=os.path.join(REPO, "src"))
    return d

def incs():
    return ["-I" + REPO + "/include", "-I" + REPO + "/src", "-isystem", proto_inc(), "-isystem", natsort_inc() + "/inc",
            "-isystem", "/usr/include/opencv4", "-isystem", "/opt/vp/compat/include"]
DEFS = ["-DFMT_DEPRECATED_OSTREAM", "-DFMT_SHARED", "-DMLIO_BUILD_IMAGE_READER", "-DMLIO_COMPILE_LIB",
        "-D_GLIBCXX_ASSERTIONS", "-Dmlio_EXPORTS", "-DNDEBUG"]
def defs():
    d = list(DEFS)
    if sys.platform.startswith("linux"): d.append("-DMLIO_PLATFORM_LINUX") if _needs_platform() else None
    return d
def _needs_platform():
    return False

class BuildError(Exception): pass

def compile_ir(srcs, extra=()):
    """srcs: paths relative to /repo (or absolute) -> Unit"""
    incs()
    if callable(srcs): srcs = srcs()
    def one(src):
        p = src if os.path.isabs(src) else os.path.join(REPO, src)
        h = hashlib.sha1((p + repr(extra)).encode()).hexdigest()[:12]
        o = os.path.join(scratch(), h)
        cxx = ["clang-18"] if p.endswith(".c") else ["clang++-18", "-std=c++17"]
        cmd = cxx + incs() + defs() + list(extra) + ["-fPIC", "-O0", "-Xclang", "-disable-O0-optnone",
               "-fno-discard-value-names", "-g", "-w", "-fno-threadsafe-statics", "-fstandalone-debug", "-S", "-emit-llvm", p, "-o", o + ".0.ll"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise BuildError(f"{src}: {r.stderr[-2000:]}")
        r = subprocess.run(["opt-18", "-strip-debug", "-passes=sroa", "-S", o + ".0.ll", "-o", o + ".ll"], capture_output=True, text=True)
        if r.returncode: 
            r = subprocess.run(f"opt-18 -passes=strip -S {o}.0.ll | opt-18 -passes=sroa -S -o {o}.ll", shell=True, capture_output=True, text=True)
            if r.returncode: raise BuildError(r.stderr[-2000:])
        lay = layouts(o + ".0.ll")
        os.unlink(o + ".0.ll")
        m = ir.parse_module(o + ".ll")
        return m, lay
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, srcs))
    u = sym.Unit([m for m, _ in rs])
    u.lay = {}
    for _, l in rs:
        for k, v in l.items():
            if k not in u.lay or len(v) > len(u.lay[k]): u.lay[k] = v
    return u

def layouts(path):
    """class name -> {field: (byte offset, size)} from the debug info"""
    comp, mem, names = {}, {}, {}
    inh = {}
    txt = open(path, encoding="utf-8", errors="replace")
    for l in txt:
        if l[0] != "!": continue
        if "!DICompositeType(tag: DW_TAG_class_type" in l or "!DICompositeType(tag: DW_TAG_structure_type" in l:
            i = l.index(" ")
            nm = re.search(r'name: "([^"]*)"', l); idn = re.search(r'identifier: "([^"]*)"', l)
            sz = re.search(r'size: (\d+)', l)
            comp[l[1:i]] = (nm.group(1) if nm else "", idn.group(1) if idn else None, int(sz.group(1)) // 8 if sz else 0)
        elif "DW_TAG_member" in l and "DIFlagStaticMember" not in l:
            nm = re.search(r'name: "([^"]*)"', l); sc = re.search(r'scope: !(\d+)', l); of = re.search(r'offset: (\d+)', l); sz = re.search(r'size: (\d+)', l)
            if nm and sc: mem.setdefault(sc.group(1), {})[nm.group(1)] = ((int(of.group(1)) // 8) if of else 0, int(sz.group(1)) // 8 if sz else 0)
        elif "DW_TAG_inheritance" in l:
            sc = re.search(r'scope: !(\d+)', l); bt = re.search(r'baseType: !(\d+)', l); of = re.search(r'offset: (\d+)', l)
            inh.setdefault(sc.group(1), []).append((bt.group(1), int(of.group(1)) // 8 if of else 0))
    def full(i, d=0):
        r = {}
        for b, off in inh.get(i, []):
            if d < 6 and b in comp:
                for k, (o, s) in full(b, d + 1).items(): r[k] = (o + off, s)
        r.update(mem.get(i, {}))
        return r
    out = {}
    for i, (nm, idn, sz) in comp.items():
        f = full(i)
        if not f and not sz: continue
        f["__size__"] = (sz, sz)
        for key in {nm, sym.dem(idn.replace("_ZTS", "_Z", 1)) if idn and False else nm, idn}:
            if key and (key not in out or len(out[key]) < len(f)): out[key] = f
    return out

def field(u, cls, name):
    l = u.lay.get(cls)
    if l is None or name not in l: raise ir.Unsupported(f"layout: {cls}::{name} not found")
    return l[name][0]

# ------------------------------------------------------------------ native code
LIBS = ["-labsl_strings", "-lfmt", "-ltbb", "-lz", "-lprotobuf", "-lopencv_core", "-lopencv_imgproc", "-lopencv_imgcodecs", "-lpthread", "-lstdc++fs"]

def all_srcs():
    out = []
    for root, _, fs in os.walk(os.path.join(REPO, "src/mlio")):
        for f in fs:
            if f.endswith(".cc"): out.append(os.path.relpath(os.path.join(root, f), REPO))
    return sorted(out)

BIG = ("parallel_data_reader.cc", "csv_reader.cc", "recordio_protobuf_reader.cc", "image_reader.cc", "s3_client.cc", "init_aws.cc", "text_line_reader.cc",
       "data_reader_base.cc", "s3_object.cc", "s3_input_stream.cc", "init.cc", "src/mlio/data_reader.cc", "dlpack.cc")
def core():
    """the library without the top-level readers and S3"""
    return [s for s in all_srcs() if not s.endswith(BIG)]

def readers():
    """... with the CSV and text line readers"""
    return core() + [s for s in all_srcs() if s.endswith(("parallel_data_reader.cc", "csv_reader.cc", "text_line_reader.cc", "data_reader_base.cc", "src/mlio/data_reader.cc"))]

def protos():
    """... with the protobuf reader"""
    return core() + [s for s in all_srcs() if s.endswith(("parallel_data_reader.cc", "recordio_protobuf_reader.cc", "data_reader_base.cc", "src/mlio/data_reader.cc"))]

def images():
    """... with the image reader"""
    return core() + [s for s in all_srcs() if s.endswith(("parallel_data_reader.cc", "image_reader.cc", "data_reader_base.cc", "src/mlio/data_reader.cc"))]

def native(harness, srcs=None, san=True):
    """with a list of sources: only those (all of them if that does not link)"""
    if srcs is not None:
        try: return _native(harness, srcs, san)
        except BuildError as e:
            if os.environ.get("DV_DEBUG"): print(e)
    return _native(harness, None, san, [] if srcs is None else srcs() if callable(srcs) else srcs)

def _native(harness, srcs, san, also=()):
    """links the harness with the real library compiled from the current tree -> executable"""
    incs()
    d = os.path.join(scratch(), "native"); os.makedirs(d, exist_ok=True)
    full = srcs is None
    srcs = all_srcs() if full else srcs() if callable(srcs) else srcs
    srcs = list(srcs) + [s for s in also if s not in srcs]
    flags = ["-O1", "-g1", "-w", "-fPIC", "-pthread"] + (["-fsanitize=address", "-fno-omit-frame-pointer"] if san else [])
    jobs = []
    for s in srcs: jobs.append((os.path.join(REPO, s), True))
    jobs.append((os.path.join(VERIF, "harness", harness), True))
    if (full or len(srcs) > 20 or any(s.endswith("number.cc") for s in srcs)) and os.path.exists("/opt/vp/compat/absl_string_view.cc"): jobs.append(("/opt/vp/compat/absl_string_view.cc", True))
    for f in os.listdir(natsort_inc()):
        if f.endswith(".c") and f.startswith("strnat"): jobs.append((os.path.join(natsort_inc(), f), False))
    for root, _, fs in os.walk(proto_inc()):
        for f in fs:
            if (full or any(s.endswith("recordio_protobuf_reader.cc") for s in srcs)) and f.endswith(".pb.cc"): jobs.append((os.path.join(root, f), True))
    # big files first
    jobs.sort(key=lambda j: -(os.path.getsize(j[0]) + (1 << 20 if j[0].endswith(("recordio_protobuf_reader.cc", "csv_reader.cc", "parallel_data_reader.cc")) else 0)))
    def one(j):
        p, cxx = j
        o = os.path.join(d, hashlib.sha1(p.encode()).hexdigest()[:16] + ".o")
        if p.startswith("/opt/vp/compat"): c = ["g++", "-std=c++17", "-O1", "-fPIC", "-c", p, "-o", o]
        else: c = (["clang++-18", "-std=c++17", "-I" + os.path.join(VERIF, "harness"), "-isystem", os.path.join(VERIF, "harness/compat")] if cxx else ["clang-18"]) + incs() + defs() + flags + ["-c", p, "-o", o]
        if os.path.exists(o): return o
        r = subprocess.run(c, capture_output=True, text=True)
        if r.returncode: raise BuildError(f"{p}: {r.stderr[-1500:]}")
        return o
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, jobs))
    exe = os.path.join(d, harness.replace(".cc", ""))
    r = subprocess.run(["clang++-18"] + (["-fsanitize=address"] if san else []) + objs + ["-o", exe] + LIBS, capture_output=True, text=True)
    if r.returncode: raise BuildError("link: " + r.stderr[-3000:])
    return exe
