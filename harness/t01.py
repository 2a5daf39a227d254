"""T01: the Python package shows what the C library does.

Every history is run three times over real pipes: with two C peers (raw calls), with a Python server
and a C client and with a Python client and a C server.  What the Python side returns has to be what
the C side of the first run saw, and what its C peer receives has to be what it received in the first
run.  The library is built from the repository with AddressSanitizer and an allocation count, the
Python files are the repository's."""
import sys, os, ctypes, glob, shutil
from ctypes import c_int, c_char_p, c_void_p, c_float, byref, POINTER, c_char, string_at
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import pymc
from pymc import Prune

# ------------------------------------------------------------------ building
def stage(run, spec):
    """the package of the repository next to a library built from the repository, in a directory named by their content"""
    inc = ["-I" + run.REPO + "/include", "-I" + run.REPO + "/src"]
    objs = []
    import concurrent.futures
    srcs = sorted(glob.glob(run.REPO + "/src/*.c")) + sorted(glob.glob(run.REPO + "/src/*.cpp"))
    red = ["%s=mc_%s" % (s, s) for s in "malloc calloc realloc free strdup strndup".split()]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        j = [ex.submit(run.obj, s, run.CFLAGS + inc + (["-std=gnu++14"] if s.endswith(".cpp") else []), run.headers(), red) for s in srcs]
        j.append(ex.submit(run.obj, HERE + "/lib/pyshim.c", ["-O1", "-g", "-fPIC"], b""))
        objs = [x.result() for x in j]
    py = sorted(glob.glob(run.REPO + "/support/python/trax/*.py"))
    d = os.path.join(run.BUILD, "py", run.sha(*(objs + [run.readall(py)])))
    if not os.path.exists(d + "/trax/libtrax.so"):
        tmp = d + ".%d" % os.getpid(); os.makedirs(tmp + "/trax")
        for p in py: shutil.copy(p, tmp + "/trax")
        run.run(["g++", "-shared", "-fsanitize=address", "-o", tmp + "/trax/libtrax.so"] + objs + ["-lpthread", "-lm"])
        try: os.rename(tmp, d)
        except OSError: shutil.rmtree(tmp)
    return d

def environment(run, d):
    asan = run.run(["gcc", "-print-file-name=libasan.so"]).decode().strip()
    e = {k: v for k, v in os.environ.items() if not k.startswith(("TRAX", "PYTHON"))}
    e.update(LD_PRELOAD=os.path.realpath(asan), ASAN_OPTIONS="detect_leaks=0:handle_segv=1:abort_on_error=0:allocator_may_return_null=1", PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0")
    return e

BOUNDS = ["regions: every kind over a pool of values, polygons of 3..4 points; masks of every content up to 3x2 (3x3 thorough) at offsets -2..2 in five array layouts",
          "images: every kind; arrays of 16 element types, seven shapes, five layouts",
          "properties: every sequence of 3 (4) operations over three keys and five values",
          "metadata: every set of region and image formats and channels, names, custom values and flags",
          "sessions: every history of 3 (4) requests over a small alphabet of requests and replies (including those that must be refused, ends of the session by either side and a peer that disappears) and every single request over pools of all image kinds, region kinds, object counts and properties",
          "logging and connection set-up: every form of each"]
ASSUME = ["CPython %d.%d with numpy; nothing is said about other interpreters" % sys.version_info[:2]]
NAMES = ["region", "mask", "mask-layout", "image", "array", "properties", "lists", "metadata", "requests", "session", "log", "interrupt", "setup"]

def main(prop, tier, run, spec):
    d = stage(run, spec); names = NAMES
    if "--only" in sys.argv: names = [n for n in names if sys.argv[sys.argv.index("--only") + 1] in n]
    return pymc.explore(prop, tier, names, [sys.executable, os.path.abspath(__file__)], environment(run, d), HERE, BOUNDS, ASSUME, 600 if tier == "quick" else 780)

def replay(path, run, spec):
    import subprocess
    l = dict(x.split(" ", 1) for x in open(path).read().split("\nreport")[0].split("\n") if " " in x)
    return subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", l["scenario"], l.get("tier", "quick"), l.get("trail", "")], env=environment(run, stage(run, spec))).returncode

# ------------------------------------------------------------------ the C side, raw calls
class Logging(ctypes.Structure): _fields_ = [("flags", c_int), ("callback", c_void_p), ("data", c_void_p)]
class Lib:
    def __init__(self, path):
        L = ctypes.CDLL(path); V = c_void_p; PV = POINTER(c_void_p); I = c_int; S = c_char_p; F = c_float; PI = POINTER(c_int); PF = POINTER(c_float)
        def f(name, res, *args):
            fn = getattr(L, name); fn.restype = res; fn.argtypes = args; setattr(self, name[5:] if name.startswith("trax_") else name, fn)
        f("mc_live", ctypes.c_long)
        f("trax_metadata_create", V, I, I, I, S, S, S, I); f("trax_metadata_release", None, PV)
        f("trax_client_setup_file", V, I, I, Logging); f("trax_server_setup_file_v", V, V, I, I, Logging, I)
        f("trax_client_wait", I, V, PV, V); f("trax_client_initialize", I, V, V, V, V); f("trax_client_frame", I, V, V, V, V)
        f("trax_server_wait_mot", I, V, PV, PV, V); f("trax_server_reply_mot", I, V, V)
        f("trax_terminate", I, V, S); f("trax_cleanup", I, PV); f("trax_get_parameter", I, V, I, PI)
        f("trax_image_release", None, PV); f("trax_image_create_path", V, S); f("trax_image_create_url", V, S); f("trax_image_create_memory", V, I, I, I); f("trax_image_create_buffer", V, I, V)
        f("trax_image_get_type", I, V); f("trax_image_get_path", S, V); f("trax_image_get_url", S, V); f("trax_image_get_memory_header", None, V, PI, PI, PI); f("trax_image_write_memory_row", V, V, I)
        f("trax_image_get_memory_row", V, V, I); f("trax_image_get_buffer", V, V, PI, PI)
        f("trax_image_list_create", V); f("trax_image_list_release", None, PV); f("trax_image_list_get", V, V, I); f("trax_image_list_set", None, V, V, I)
        f("trax_region_release", None, PV); f("trax_region_get_type", I, V); f("trax_region_create_special", V, I); f("trax_region_get_special", I, V); f("trax_region_create_rectangle", V, F, F, F, F)
        f("trax_region_get_rectangle", None, V, PF, PF, PF, PF); f("trax_region_create_polygon", V, I); f("trax_region_set_polygon_point", None, V, I, F, F); f("trax_region_get_polygon_point", None, V, I, PF, PF)
        f("trax_region_get_polygon_count", I, V); f("trax_region_create_mask", V, I, I, I, I); f("trax_region_get_mask_header", None, V, PI, PI, PI, PI); f("trax_region_write_mask_row", V, V, I); f("trax_region_get_mask_row", V, V, I)
        f("trax_object_list_create", V, I); f("trax_object_list_release", None, PV); f("trax_object_list_set", None, V, I, V); f("trax_object_list_get", V, V, I); f("trax_object_list_properties", V, V, I); f("trax_object_list_count", I, V)
        f("trax_properties_create", V); f("trax_properties_release", None, PV); f("trax_properties_set", None, V, S, S); f("trax_properties_count", I, V)
        self.ENUM = ctypes.CFUNCTYPE(None, c_char_p, c_char_p, c_void_p); f("trax_properties_enumerate", None, V, self.ENUM, V)
C = None
NOLOG = Logging(-1, None, None)
REG = {"special": 1, "rectangle": 2, "polygon": 4, "mask": 8}; IMG = {"path": 1, "url": 2, "memory": 4, "buffer": 8}; CHN = {"color": 1, "depth": 2, "ir": 4}
MEM = {"gray8": 1, "gray16": 2, "rgb": 3}; BPP = {"gray8": 1, "gray16": 2, "rgb": 3}
def release(fn, p): q = c_void_p(p); fn(byref(q))
# values: ("rectangle", x, y, w, h) ("polygon", points) ("mask", x, y, w, h, bytes) ("special", code); ("path", s) ("url", s) ("memory", format, w, h, bytes) ("buffer", bytes)
def c_region(s):
    if s[0] == "special": return C.region_create_special(s[1])
    if s[0] == "rectangle": return C.region_create_rectangle(*s[1:])
    if s[0] == "polygon":
        r = C.region_create_polygon(len(s[1]))
        for i, (x, y) in enumerate(s[1]): C.region_set_polygon_point(r, i, x, y)
        return r
    r = C.region_create_mask(*s[1:5])
    for y in range(s[4]): ctypes.memmove(C.region_write_mask_row(r, y), s[5][y * s[3]:(y + 1) * s[3]], s[3])
    return r
def c_read(r):
    if not r: return None
    t = C.region_get_type(r)
    if t == 1: return ("special", C.region_get_special(r))
    if t == 2:
        v = [c_float() for _ in range(4)]; C.region_get_rectangle(r, *[byref(x) for x in v]); return ("rectangle",) + tuple(x.value for x in v)
    if t == 4:
        p = []
        for i in range(C.region_get_polygon_count(r)):
            x, y = c_float(), c_float(); C.region_get_polygon_point(r, i, byref(x), byref(y)); p.append((x.value, y.value))
        return ("polygon", tuple(p))
    v = [c_int() for _ in range(4)]; C.region_get_mask_header(r, *[byref(x) for x in v]); x, y, w, h = [q.value for q in v]
    return ("mask", x, y, w, h, b"".join(string_at(C.region_get_mask_row(r, i), w) for i in range(h)))
def c_image(s):
    if s[0] == "path": return C.image_create_path(s[1].encode())
    if s[0] == "url": return C.image_create_url(s[1].encode())
    if s[0] == "buffer": return C.image_create_buffer(len(s[1]), ctypes.cast(c_char_p(s[1]), c_void_p))
    m = C.image_create_memory(s[2], s[3], MEM[s[1]]); n = s[2] * BPP[s[1]]
    for y in range(s[3]): ctypes.memmove(C.image_write_memory_row(m, y), s[4][y * n:(y + 1) * n], n)
    return m
def c_imread(m):
    t = C.image_get_type(m)
    if t == 1: return ("path", C.image_get_path(m).decode())
    if t == 2: return ("url", C.image_get_url(m).decode())
    if t == 4:
        w, h, f = c_int(), c_int(), c_int(); C.image_get_memory_header(m, byref(w), byref(h), byref(f)); n = {v: k for k, v in MEM.items()}[f.value]
        return ("memory", n, w.value, h.value, b"".join(string_at(C.image_get_memory_row(m, y), w.value * BPP[n]) for y in range(h.value)))
    l, f = c_int(), c_int(); p = C.image_get_buffer(m, byref(l), byref(f)); return ("buffer", string_at(p, l.value))
def c_props(d):
    p = C.properties_create()
    for k, v in (d or {}).items(): C.properties_set(p, k.encode(), str(v).encode())
    return p
def c_dict(p):
    d = {}
    if p: C.properties_enumerate(p, C.ENUM(lambda k, v, o: d.__setitem__(k.decode(), v.decode())), None)
    return d
def c_objects(objs):
    if objs is None: return None
    l = C.object_list_create(len(objs))
    for i, (r, d) in enumerate(objs):
        q = c_region(r); C.object_list_set(l, i, q); release(C.region_release, q)
        for k, v in (d or {}).items(): C.properties_set(C.object_list_properties(l, i), k.encode(), str(v).encode())
    return l
def c_readobjects(l): return None if not l else [(c_read(C.object_list_get(l, i)), c_dict(C.object_list_properties(l, i))) for i in range(C.object_list_count(l))]
class CImages:
    def __init__(self, d):
        self.im = [c_image(s) for s in d.values()]; self.l = C.image_list_create()
        for k, m in zip(d, self.im): C.image_list_set(self.l, m, CHN[k])
    def free(self):
        release(C.image_list_release, self.l)
        for m in self.im: release(C.image_release, m)

class Gone(Exception): pass   # the peer has disappeared

class CClient:
    def __init__(self, rd, wr): self.h = C.client_setup_file(rd, wr, NOLOG)
    def send(self, kind, images, objects, props):
        im, ob, pr = CImages(images), c_objects(objects), c_props(props)
        s = (C.client_initialize if kind == "initialize" else C.client_frame)(self.h, im.l, ob, pr)
        im.free(); release(C.object_list_release, ob); release(C.properties_release, pr)
        return s == 0
    def wait(self):
        ob, pr = c_void_p(), C.properties_create(); s = C.client_wait(self.h, byref(ob), pr); d = c_dict(pr); release(C.properties_release, pr)
        r = ("ok", c_readobjects(ob.value)) if s == 5 else ("quit", d.get("trax.reason")) if s == 4 else ("error",)
        C.object_list_release(byref(ob)); return r
    def quit(self, reason): return C.terminate(self.h, reason.encode() if reason is not None else None) == 0
    def close(self):
        h = c_void_p(self.h); C.cleanup(byref(h))

class CServer:
    def __init__(self, rd, wr, cfg):
        m = C.metadata_create(cfg["regions"], cfg["images"], cfg["channels"], cfg["name"].encode(), cfg["desc"].encode(), cfg["family"].encode(), 1 if cfg["multi"] else 0)
        if cfg["custom"]:
            class M(ctypes.Structure): _fields_ = [(n, c_int) for n in "abcd"] + [("x", c_char_p), ("y", c_char_p), ("z", c_char_p), ("custom", c_void_p)]
            p = ctypes.cast(m, POINTER(M)).contents.custom
            for k, v in cfg["custom"].items(): C.properties_set(p, k.encode(), v.encode())
        self.h = C.server_setup_file_v(m, rd, wr, NOLOG, 0); release(C.metadata_release, m)
    def wait(self):
        im, ob, pr = c_void_p(), c_void_p(), C.properties_create(); s = C.server_wait_mot(self.h, byref(im), byref(ob), pr); d = c_dict(pr); release(C.properties_release, pr)
        if s == 4: return ("quit", d)
        if s not in (2, 3): return ("error",)
        images = {}
        for k, v in CHN.items():
            m = C.image_list_get(im, v)
            if m: images[k] = c_imread(m); release(C.image_release, m)
        C.image_list_release(byref(im)); r = ({2: "initialize", 3: "frame"}[s], images, c_readobjects(ob.value), d); C.object_list_release(byref(ob)); return r
    def reply(self, objects, props):
        o = [(r, dict(list((props or {}).items()) + list((d or {}).items()))) for r, d in objects]; ob = c_objects(o)
        s = C.server_reply_mot(self.h, ob); release(C.object_list_release, ob); return s == 0
    def quit(self, reason): return C.terminate(self.h, reason.encode() if reason is not None else None) == 0
    def close(self):
        h = c_void_p(self.h); C.cleanup(byref(h))

# ------------------------------------------------------------------ the Python side, the package under test
def worker_main():
    global C, NOLOG
    import threading, queue, gc, io, contextlib, warnings
    import numpy as np
    import trax
    from trax import TraxException, Properties
    from trax.client import Client
    from trax.server import Server
    C = Lib(os.path.join(os.path.dirname(trax.__file__), "libtrax.so"))
    gc.disable(); warnings.simplefilter("ignore")
    T = sys.argv[-1] == "thorough" or (sys.argv[1] == "--replay" and sys.argv[3] == "thorough")
    devnull = os.open("/dev/null", os.O_RDWR)

    def p_region(s):
        if s[0] == "special": return trax.Special.create(s[1])
        if s[0] == "rectangle": return trax.Rectangle.create(*s[1:])
        if s[0] == "polygon": return trax.Polygon.create(list(s[1]))
        return trax.Mask.create(np.frombuffer(s[5], dtype=np.uint8).reshape(s[4], s[3]), s[1], s[2])
    def p_read(r):
        if r is None: return None
        t = r.type
        if t == "special": return ("special", r.code)
        if t == "rectangle": return ("rectangle",) + tuple(r.bounds())
        if t == "polygon": return ("polygon", tuple(r))
        a = r.array(); x, y = r.offset(); w, h = r.size()
        if a.shape != (h, w) or a.dtype != np.uint8: raise pymc.Violation("mask", "array of shape %s for size %dx%d" % (a.shape, w, h))
        return ("mask", x, y, w, h, a.tobytes())
    def p_image(s):
        if s[0] == "path": return trax.FileImage.create(s[1])
        if s[0] == "url": return trax.URLImage.create(s[1])
        if s[0] == "buffer": return trax.BufferImage.create(s[1])
        dt = np.uint16 if s[1] == "gray16" else np.uint8
        return trax.MemoryImage.create(np.frombuffer(s[4], dtype=dt).reshape((s[3], s[2], 3) if s[1] == "rgb" else (s[3], s[2])))
    def p_imread(m):
        t = m.type()
        if t == "path": return ("path", m.path())
        if t == "url": return ("url", m.url())
        if t == "buffer": return ("buffer", m.buffer())
        a = m.array(); f = "rgb" if a.shape[2] == 3 else "gray16" if a.dtype == np.uint16 else "gray8"
        return ("memory", f, a.shape[1], a.shape[0], a.tobytes())
    def p_objects(o): return None if o is None else [(p_region(r), d) for r, d in o]
    def p_dict(p): return p.dict() if isinstance(p, Properties) else p
    def raw(o): return ctypes.cast(o.reference, c_void_p).value

    def balanced(c, what):
        if C.mc_live() != base[0]:
            gc.collect()
            if C.mc_live() != base[0]: n = C.mc_live() - base[0]; base[0] = C.mc_live(); c.fail("leak", "%s: %d allocations are left" % (what, n))
    base = [0]

    class PClient:
        def __init__(self, rd, wr, **kw): self.o = Client((wr, rd), **kw)
        def call(self, kind, images, objects, props, form=0):
            im = {k: p_image(s) for k, s in images.items()}; ob = p_objects(objects)
            try:
                if kind == "initialize": r, t = self.o.initialize(im, ob, props)
                elif ob is None and form == 0: r, t = self.o.frame(im, props) if props else self.o.frame(im)
                else: r, t = self.o.frame(im, props or {}, ob)
            except TraxException as e:
                m = str(e)
                if m.startswith("Server terminated the session"): return ("quit", m[len("Server terminated the session: "):] if ": " in m else None)
                return ("error",)
            if not (isinstance(t, float) and t >= 0): raise pymc.Violation("elapsed", repr(t))
            self.kept = getattr(self, "kept", []); self.kept.append((r, [(p_read(a), dict(d)) for a, d in r])); del self.kept[:-3]
            return ("ok", self.kept[-1][1])
        def quit(self, reason):
            try: self.o.quit(reason) if reason is not None else self.o.quit()
            except TraxException: return False
            return True

    class PServer:
        def __init__(self, rd, wr, cfg, **kw):
            os.environ["TRAX_IN"], os.environ["TRAX_OUT"] = str(rd), str(wr)
            names = lambda m, t: [k for k, v in t.items() if m & v]
            self.o = Server(names(cfg["regions"], REG), names(cfg["images"], IMG), names(cfg["channels"], CHN), cfg["name"], cfg["desc"], cfg["family"], cfg["custom"], multiobject=cfg["multi"], **kw)
            self.kept = []
        def wait(self):
            try: r = self.o.wait()
            except TraxException: return ("error",)
            if r.type == "quit":
                if r.image is not None or r.objects is not None: raise pymc.Violation("request", "quit with content")
                return ("quit", p_dict(r.properties))
            self.kept.append((r, self.view(r))); del self.kept[:-3]; return self.kept[-1][1]
        def view(self, r): return (r.type, {k: p_imread(m) for k, m in r.image.items()}, None if r.objects is None else [(p_read(a), dict(d)) for a, d in r.objects], p_dict(r.properties))
        def reply(self, objects, props):
            try: return self.o.status(p_objects(objects), props) is True
            except TraxException: return False
        def quit(self, reason):
            try: self.o.quit(reason) if reason is not None else self.o.quit()
            except TraxException: return False
            return True

    class Pair:   # two pipes
        def __init__(self): self.a, self.b = os.pipe(), os.pipe(); self.open = set(self.a + self.b)
        def shut(self, *fds):
            for f in fds:
                if f in self.open: self.open.discard(f); os.close(f)
        def close(self): self.shut(*list(self.open))
        client = property(lambda s: (s.b[0], s.a[1])); server = property(lambda s: (s.a[0], s.b[1]))

    # a thread that plays the server for a Python client, which sends and waits in one call
    todo, done = queue.SimpleQueue(), queue.SimpleQueue()
    def helper():
        while True:
            f = todo.get()
            try: done.put((True, f()))
            except BaseException as e: done.put((False, e))
    threading.Thread(target=helper, daemon=True).start()
    def result():
        ok, v = done.get(timeout=50)
        if not ok: raise v
        return v

    def mask_pixels(s):   # what a region is for comparison: a mask is its pixels
        if s and s[0] == "mask":
            return ("mask", tuple(sorted((s[2] + i // s[3], s[1] + i % s[3]) for i, b in enumerate(s[5]) if b)))
        return s
    def norm(o):
        if isinstance(o, (list, tuple)):
            if o and o[0] == "mask" and isinstance(o, tuple): return mask_pixels(o)
            return type(o)(norm(x) for x in o)
        if isinstance(o, dict): return {k: norm(v) for k, v in o.items()}
        return o

    def serve(c, pair, server, what):
        """the server's part of one request: returns what it saw and what became of its reply"""
        saw = server.wait(); reply, acts = what, []
        if saw[0] in ("quit", "error"): return saw, ["none"]
        if reply[0] == "wrong":   # a reply that has to be refused comes before
            acts.append(server.reply(reply[1] + reply[1][:1] if reply[1] else [(("rectangle", 0, 0, 1, 1), {})], {})); reply = ("ok",) + reply[1:]
        if reply[0] == "ok": acts.append(server.reply(reply[1], reply[2]))
        elif reply[0] == "quit": acts.append(server.quit(reply[1]))
        elif reply[0] == "die": pair.shut(*pair.server)
        return saw, acts

    def session(c, mode, cfg, history, ends, expect=None):
        """runs a history with the given peers; returns all that was seen.  expect: the same for two C peers."""
        pair = Pair(); log = []
        try:
            server = (PServer if mode[1] == "P" else CServer)(*pair.server, cfg)
            client = (PClient if mode[0] == "P" else CClient)(*pair.client)
            dead = False
            for n, (op, what) in enumerate(history):
                c.step()
                if op[0] == "quit":
                    client.quit(op[1]); log.append(("quit", server.wait() if not dead else None)); dead = True; continue
                kind, images, objects, props = op
                if mode[0] == "C":
                    if not client.send(kind, images, objects, props): log.append(("refused",)); continue
                    if dead: log.append(("lost", client.wait())); continue
                    saw, acts = serve(c, pair, server, what); log.append((saw, acts, client.wait()))
                else:
                    e = expect[n]
                    if e[0] in ("refused", "lost"): log.append((e[0],) if client.call(kind, images, objects, props)[0] == "error" and e[0] == "refused" else ("lost", client.call(kind, images, objects, props))); continue
                    todo.put(lambda: serve(c, pair, server, what))
                    got = client.call(kind, images, objects, props, n % 2)
                    saw, acts = result(); log.append((saw, acts, got))
                if what[0] == "die" or log[-1][2][0] == "quit": dead = True
            # what is left: both sides refuse to go on without harm, an end can be repeated
            kept = [(o, v) for p in (client, server) for o, v in getattr(p, "kept", [])]
            if ends == "with" and mode[1] == "P":
                with contextlib.redirect_stderr(io.StringIO()):
                    try:
                        with server.o: pass
                    except TraxException:
                        if "die" not in [w[0] for _, w in history]: raise
            else:
                if ends == "quit": log.append(("end", server.quit("over") if "die" not in [w[0] for _, w in history] else None))
            if ends == "quit" and mode[1] == "P" and "die" not in [w[0] for _, w in history]:
                if server.reply([(("rectangle", 0, 0, 1, 1), {})], None) or server.wait()[0] != "error" or server.quit(None) is not True: c.fail("after-end", "the server goes on after its end")
            if mode[1] == "P":
                o = server.o; server.o = None; del o
            else: server.close()
            if mode[0] == "P":
                client.quit(None); client.quit("again"); o = client.o; client.o = None; del o
            else: client.close()
            del client, server
            # objects that were handed out outlive everything
            for o, v in kept:
                w = [(p_read(a), dict(d)) for a, d in o] if isinstance(o, list) else PServer.view(None, o)
                if w != v: c.fail("lifetime", "%r became %r" % (v, w))
            kept.clear(); o = v = w = None
        finally:
            pair.close(); os.environ.pop("TRAX_IN", None); os.environ.pop("TRAX_OUT", None)
        return log

    def compare(c, cfg, history, ends):
        ref = session(c, "CC", cfg, history, ends); c.say("history %r ends %s: %r" % (history, ends, ref)); rn = norm(ref)
        balanced(c, "C peers")
        for mode in ("CP", "PC"):
            got = session(c, mode, cfg, history, ends, ref)
            if norm(got) != rn: c.fail("session:" + {"CP": "server", "PC": "client"}[mode], "%s\nhistory %r\nC peers saw   %r\nwith Python:   %r" % ({"CP": "Python server", "PC": "Python client"}[mode], history, rn, norm(got)))
            balanced(c, mode)
        for e in ref: c.outcome(e[0] if isinstance(e[0], str) else e[0][0] + "/" + e[2][0])
        c.state(repr(ref))

    # -------------------------------------------------------------- pools
    PNG = b"\x89PNG\r\n\x1a\n\0\0\xff\x80rest"; JPG = b"\xff\xd8\xff\xe0\0\x10JFIF\0"
    IMAGES = [("path", "/data/a b/00001.jpg"), ("path", "relative.png"), ("url", "http://host/a?b=c"), ("memory", "rgb", 2, 3, bytes(range(240, 256)) + b"\0\1"), ("memory", "gray8", 3, 2, b"\0\1\2\xfd\xfe\xff"),
              ("memory", "gray16", 2, 2, b"\0\1\2\3\xff\xfe\0\0"), ("memory", "rgb", 1, 1, b"\n\0\xff"), ("buffer", PNG), ("buffer", JPG)]
    REGIONS = [("rectangle", 1.0, 2.0, 30.0, 4.0), ("rectangle", -1.5, 0.25, 10.75, 2.0), ("polygon", ((0.0, 0.0), (4.5, -1.0), (3.0, 8.25))), ("polygon", ((1.0, 1.0), (9.0, 1.0), (9.0, 7.0), (1.0, 7.0))),
               ("mask", 2, 1, 3, 2, b"\1\0\1\1\1\0"), ("mask", 0, 0, 2, 2, b"\1\1\1\1"), ("rectangle", 0.0, 0.0, 0.0, 0.0)]
    PROPS = [{}, {"a": "1"}, {"k.x": "v w\" \\=", "B": "\u017e \u2192"}, {"n": 5, "f": 0.5}]
    CFG = dict(regions=15, images=15, channels=1, name="", desc="", family="", custom=None, multi=False)
    BOX, BOX2 = REGIONS[0], REGIONS[2]

    # -------------------------------------------------------------- scenarios
    S = {}
    def sc(name, split):
        def d(f): S[name] = (split, f); return f
        return d

    @sc("region", 2)
    def region(c):
        FV = [0, 1, -2.5, 10.25, 100000]
        kind = c.choose(4)
        if kind == 0: s = ("special", [0, 1, 2, 77, -3][c.choose(5)])
        elif kind == 1: s = ("rectangle",) + tuple(float(FV[c.choose(5)]) for _ in range(4))
        elif kind == 2: n = 3 + c.choose(2); s = ("polygon", tuple((float(FV[i % 5]), float(FV[i // 5])) for i in [c.choose(7) * 4 for _ in range(n)]))
        else: s = REGIONS[4 + c.choose(2)]
        how = c.choose(3); c.say("%r" % (s,))
        r = p_region(s)
        if how == 1: r = type(r).wrap(c_void_p(c_region(s)))   # one that the library made
        if how == 2: q = C.object_list_create(1); C.object_list_set(q, 0, raw(r)); r = trax.wrap_object_list(ctypes.cast(q, trax.trax_object_list_p))[0][0]; release(C.object_list_release, q)
        c.step()
        if p_read(r) != s: c.fail("region", "%r is seen as %r" % (s, p_read(r)))
        if c_read(raw(r)) != s: c.fail("region", "%r is %r for the library" % (s, c_read(raw(r))))
        if not isinstance(r, getattr(trax, s[0].capitalize())) or r.type != s[0]: c.fail("region", "type of %r" % (s,))
        if not isinstance(str(r), str): c.fail("region", "no textual form")
        if s[0] == "polygon":
            p = s[1]
            if r.size() != len(p) or [r.get(i) for i in range(len(p))] != list(p) or [r[i] for i in range(len(p))] != list(p) or list(iter(r)) != list(p) or list(zip(r, iter(r))) != list(zip(p, p)) or list(iter(iter(r))) != list(p): c.fail("polygon", "access to %r" % (s,))
            for i in (-1, len(p), len(p) + 5):
                try: r.get(i); c.fail("polygon", "point %d of %r" % (i, s))
                except IndexError: pass
        c.outcome(s[0]); c.state(s); del r; balanced(c, repr(s))

    LAY = ["plain", "fortran", "columns", "reversed", "inner"]
    def layout(a, k):   # the same values, stored differently
        if k == 0: return a
        if k == 1: return np.asfortranarray(a)
        if k == 2: b = np.zeros((a.shape[0], a.shape[1] * 2) + a.shape[2:], a.dtype); b[:, 1::2] = 99; v = b[:, ::2]; v[...] = a; return v
        if k == 3: return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
        b = np.full((a.shape[0] + 2, a.shape[1] + 2) + a.shape[2:], 7, a.dtype); v = b[1:-1, 1:-1]; v[...] = a; return v
    def check_mask(c, a, x, y, k, what):
        src = layout(a.copy(), k); m = trax.Mask.create(src, x, y); c.step(); h, w = a.shape
        if m.size() != (w, h) or m.offset() != (x, y): c.fail("mask", "%s: size %r offset %r" % (what, m.size(), m.offset()))
        g = m.array()
        if g.shape != a.shape or g.dtype != np.uint8 or (g != a).any(): c.fail("mask", "%s is seen as %r" % (what, g.tolist()))
        if c_read(raw(m)) != ("mask", x, y, w, h, a.tobytes()): c.fail("mask", "%s is %r for the library" % (what, c_read(raw(m))))
        n = m.array(True); want = np.zeros((max(0, h + y), max(0, w + x)), np.uint8)
        for i in range(h):
            for j in range(w):
                if i + y >= 0 and j + x >= 0: want[i + y, j + x] = a[i, j]
        if (n.shape != want.shape and want.size) or (want.size == 0 and n.size) or (n != want).any(): c.fail("mask:normalize", "%s becomes %r" % (what, n.tolist()))
        src[...] = 5; g[...] = 6
        if (m.array() != a).any(): c.fail("mask", "%s follows the array it was made from" % what)
    @sc("mask", 3)
    def mask(c):
        w, h = 1 + c.choose(3), 1 + c.choose(3 if T else 2); v = [0, 1, 255][1 + c.choose(2)]; bits = c.choose(1 << (w * h)); x, y = c.choose(5) - 2, c.choose(5) - 2
        a = np.array([v if bits >> i & 1 else 0 for i in range(w * h)], np.uint8).reshape(h, w); what = "mask %r at %d,%d" % (a.tolist(), x, y); c.say(what)
        check_mask(c, a, x, y, 0, what); c.state(what); balanced(c, what)
    @sc("mask-layout", 2)
    def mask_layout(c):
        w, h, k = 1 + c.choose(5), 1 + c.choose(4), c.choose(5); x, y = c.choose(3) - 1, c.choose(3) - 1
        a = (np.arange(w * h).reshape(h, w) * 37 % 251 + 1).astype(np.uint8); what = "%s mask %dx%d at %d,%d" % (LAY[k], w, h, x, y); c.say(what)
        check_mask(c, a, x, y, k, what); c.outcome(LAY[k]); c.state(what); balanced(c, what)

    @sc("image", 1)
    def image(c):
        s = IMAGES[c.choose(len(IMAGES))] if c.choose(2) else [("path", "\u017e/\u2192.jpg"), ("url", "file:///a%20b"), ("path", "a"), ("buffer", JPG + bytes(range(256)))][c.choose(4)]
        how = c.choose(2); m = p_image(s) if how == 0 else trax.Image.wrap(ctypes.cast(c_image(s), trax.trax_image_p)); c.say("%r" % (s,)); c.step()
        if p_imread(m) != s: c.fail("image", "%r is seen as %r" % (s, p_imread(m)))
        if c_imread(raw(m)) != s: c.fail("image", "%r is %r for the library" % (s, c_imread(raw(m))))
        t = str(m)
        if s[0] == "buffer" and ("png" if s[1] == PNG else "jpeg") not in t: c.fail("image:text", "%r is described as %r" % (s, t))
        if s[0] == "memory" and (s[1] not in t or "%dx%d" % s[2:4] not in t): c.fail("image:text", "%r is described as %r" % (s, t))
        if s[0] == "memory": a = m.array(); a[...] = 3
        if p_imread(m) != s: c.fail("image", "%r changed with the array" % (s,))
        c.outcome(s[0]); c.state(s); del m; balanced(c, repr(s))
    DT = ["u1", "<u2", ">u2", "?", "i1", "<i2", "<f2", "<u4", "<i4", "<f4", "<u8", "<f8", "<c8", "S1", "S2", "M8[s]"]
    SHAPES = [(2, 3), (2, 3, 1), (2, 3, 3), (1, 1), (3, 1, 3), (2, 3, 4), (2, 3, 2)]
    @sc("array", 1)
    def array(c):
        dt = DT[c.choose(len(DT))]; sh = SHAPES[c.choose(len(SHAPES))]; k = c.choose(5); what = "%s array of %s %r" % (LAY[k], dt, sh); c.say(what)
        n = int(np.prod(sh)); a = np.zeros(n, dt) if dt[0] in "SM" else ((np.arange(n) * 7919 % (60000 if "2" in dt else 250)) - (100 if "i" in dt or "f" in dt else 0)).astype(dt); a = a.reshape(sh)
        src = layout(a.copy(), k) if dt[0] not in "SM" else a.copy(); m = None
        try: m = trax.MemoryImage.create(src)
        except TraxException: pass
        ch = sh[2] if len(sh) == 3 else 1; can = (ch == 1 and dt in ("u1", "<u2", ">u2")) or (ch == 3 and dt == "u1"); c.step()
        if can and m is None: c.fail("array:refused", what)
        if m is not None:   # what is accepted has to arrive with its values
            g = m.array(); w = a.reshape(sh[0], sh[1], ch)
            if dt[0] in "SM" or g.shape != w.shape or (g.astype(object) != w.astype(object)).any(): c.fail("array", "%s %r is seen as %r" % (what, w.tolist(), g.tolist()))
            f = c_imread(raw(m))
            if f != ("memory", "rgb" if ch == 3 else "gray8" if g.itemsize == 1 else "gray16", sh[1], sh[0], w.astype(np.uint16 if g.itemsize == 2 else np.uint8).tobytes()): c.fail("array", "%s is %r for the library" % (what, f))
            src[...] = 5
            if (m.array().astype(object) != w.astype(object)).any(): c.fail("array", what + " follows the array it was made from")
        c.outcome("taken" if m is not None else "refused"); c.state(what); del m; balanced(c, what)

    KEYS = ["a", "k.x", "B"]; VALS = ["", "v", "\u017e \u2192\n\"", 7, 0.25]
    @sc("properties", 3)
    def properties(c):
        start = c.choose(4); ref = [{}, {}, {"a": "0", "z": "\u017e"}, {"q": 3}][start]; p = [lambda: Properties(), lambda: Properties({}), lambda: Properties({"a": "0", "z": "\u017e"}), lambda: Properties(Properties({"q": 3}))][start]()
        ref = {k: str(v) for k, v in ref.items()}
        for i in range(4 if T else 3):
            op = c.choose(4)
            if op == 0: k, v = c.pick(KEYS), c.pick(VALS); p.set(k, v); ref[k] = str(v); c.say("set %s %r" % (k, v))
            elif op == 1: k, v = c.pick(KEYS), VALS[1 + c.choose(2)]; p[k] = v; ref[k] = str(v); c.say("[%s] = %r" % (k, v))
            elif op == 2: d = {c.pick(KEYS): "copied", "other": "1"}; p.copy(Properties(d)); ref.update(d); c.say("copy")
            else: break
            c.step()
            if p.dict() != ref: c.fail("properties", "%r instead of %r" % (p.dict(), ref))
            for k in KEYS + ["z", "q", "other", "none"]:
                if p.get(k) != ref.get(k) or p.get(k, "dflt") != ref.get(k, "dflt"): c.fail("properties", "get %s is %r, not %r" % (k, p.get(k), ref.get(k)))
                try: v = p[k]
                except KeyError: v = None
                if v != ref.get(k): c.fail("properties", "[%s] is %r, not %r" % (k, v, ref.get(k)))
            if c_dict(raw(p)) != ref: c.fail("properties", "the library has %r" % c_dict(raw(p)))
        d = p.dict(); d["a"] = "changed"
        if p.dict() != ref: c.fail("properties", "the dictionary is not a copy")
        c.state(repr(sorted(ref.items()))); del p; balanced(c, "properties")

    @sc("lists", 2)
    def lists(c):
        n = c.choose(4 if T else 3); o = [(c.pick(REGIONS), c.pick([None] + PROPS)) for _ in range(n)]; c.say("%r" % (o,))
        ob = p_objects(o); l = trax.wrap_objects(ob); c.step(); want = [(r, {k: str(v) for k, v in (d or {}).items()}) for r, d in o]
        if c_readobjects(raw(l)) != want and n: c.fail("lists", "%r is %r for the library" % (o, c_readobjects(raw(l))))
        back = trax.wrap_object_list(l.reference); late = c.choose(2)
        if late: del l
        if [(p_read(r), d) for r, d in back] != want: c.fail("lists", "%r comes back as %r" % (o, [(p_read(r), d) for r, d in back]))
        if [(p_read(r), d) for r, d in ob] != [(r, d) for r, d in o]: c.fail("lists", "the objects that were given changed")
        im = {k: c.pick(IMAGES[2:5]) for k in CHN if n < 3 and c.choose(2)}; pim = {k: p_image(v) for k, v in im.items()}; il = trax.wrap_images(pim)
        for k, v in CHN.items():
            m = C.image_list_get(raw(il), v)
            if (c_imread(m) if m else None) != im.get(k): c.fail("lists", "channel %s" % k)
        del il
        if {k: p_imread(m) for k, m in pim.items()} != im: c.fail("lists", "the images that were given changed")
        c.state(repr((o, im))); l = ob = back = pim = m = None; balanced(c, "lists")

    NM = ["", "Tracker", "t \u017e \"x\" \\ ="]
    @sc("metadata", 2)
    def metadata(c):
        part = c.choose(3); cfg = dict(CFG)
        if part == 0: cfg.update(regions=2 + c.choose(14), images=1 + c.choose(15))
        elif part == 1: cfg.update(channels=1 + c.choose(7), multi=c.flip(), images=[1, 15][c.choose(2)])
        else: cfg.update(name=NM[c.choose(3)], desc=NM[c.choose(3)], family=NM[c.choose(3)], custom=[None, {}, {"vot": "1"}, {"a.b": "\u017e", "x": "y z"}][c.choose(4)], multi=c.flip())
        side = c.choose(2); c.say("%r %d" % (cfg, side)); pair = Pair(); c.step()
        try:
            if side == 0:   # Python client and C server
                s = CServer(*pair.server, cfg); p = Client((pair.client[1], pair.client[0]))
                names = lambda m, t: [k for k, v in t.items() if m & v]
                f = lambda l: sorted(l)
                if f(x for x in p.region_formats if x != "special") != f(x for x in names(cfg["regions"], REG) if x != "special") or f(p.image_formats) != f(names(cfg["images"], IMG)) or f(p.channels) != f(names(cfg["channels"], CHN)): c.fail("metadata", "%r: %r %r %r" % (cfg, p.region_formats, p.image_formats, p.channels))
                if (p.tracker_name, p.tracker_description, p.tracker_family) != (cfg["name"], cfg["desc"], cfg["family"]): c.fail("metadata", "%r: %r" % (cfg, (p.tracker_name, p.tracker_description, p.tracker_family)))
                if p.get("multiobject") is not cfg["multi"] or p.get("nothing") is not None: c.fail("metadata", "multiobject of %r" % cfg)
                for k, v in (cfg["custom"] or {}).items():
                    if p.get(k) != v: c.fail("metadata", "%s of %r is %r" % (k, cfg, p.get(k)))
                del p; s.close()
            else:           # the same words go to the client whichever server says them
                s = CServer(*pair.server, cfg); want = os.read(pair.client[0], 65536)
                q = PServer(*pair.server, cfg); got = os.read(pair.client[0], 65536)
                if want != got: c.fail("metadata", "%r is announced as %r, not %r" % (cfg, got, want))
                del q; s.close()
        finally:
            pair.close(); os.environ.pop("TRAX_IN", None); os.environ.pop("TRAX_OUT", None)
        c.state(repr(sorted(cfg.items(), key=str)) + str(side)); s = p = None; balanced(c, "metadata")

    @sc("requests", 3)
    def requests(c):   # every kind of value in one request, then one frame
        part = c.choose(3); ALL = REGIONS + [("special", 0)]; RP = [None, {}, PROPS[2], PROPS[3], {"s": "own"}]; ST = [None, {"s": "1", "a": "2"}]; cfg = dict(CFG)
        few = lambda l, n: c.pick(l if T else l[:n])
        im = {"color": IMAGES[0]}; ob = [(BOX, PROPS[1])]; pr = {}; rep = [(BOX2, {})]; st = None
        if part == 0:     # images and what accompanies them
            cfg["channels"] = [1, 7, 5][c.choose(3)]; im = {k: IMAGES[c.choose(len(IMAGES))] if k == "color" else IMAGES[(c.choose(3) * 3 + 1) % len(IMAGES)] for k in CHN if cfg["channels"] & CHN[k]}
            ob = [(few(REGIONS, 2), c.pick([None] + PROPS))]; pr = few(PROPS, 3)
        elif part == 1:   # every reply
            cfg["multi"] = c.flip(); ob = [(c.pick(REGIONS), {})]; rep = [(c.pick(ALL), c.pick(RP))]; st = c.pick(ST)
        else:             # several objects
            cfg["multi"] = True; n = 2 + (c.choose(2) if T else 0); ob = [(c.pick(REGIONS) if j < 2 else BOX, PROPS[(j + 1) % 4]) for j in range(n)]
            rep = [(c.pick(ALL) if j < 2 else BOX2, RP[c.choose(5)] if j == 1 else {"s": "2"} if j else None) for j in range(n)]; st = few(ST[::-1], 1)
        h = [(("initialize", im, ob, pr), ("ok", rep, st))]
        compare(c, cfg, h, "quit")

    IM1 = {"color": IMAGES[0]}; IM2 = {"color": IMAGES[5]}
    @sc("session", 4)
    def sessions(c):
        multi = c.flip(); cfg = dict(CFG, multi=multi); h = []; live = 0; dead = False
        for i in range(4 if T else 3):
            k = c.choose(8)
            if k == 0: break
            if k == 1: op = ("initialize", IM1, [(BOX, {"i": "1"})], {"p": "q"} if i == 0 else {}); new = 1
            elif k == 2: op = ("initialize", IM2, [(BOX, {}), (BOX2, {"second": "yes"})], {}); new = 2 if multi else None
            elif k == 3: op = ("frame", IM2, None, {}); new = live if live else None
            elif k == 4: op = ("frame", IM1, [(BOX2, {"late": "1"})], {"p": str(i)}); new = live + 1 if (multi or not live) else None
            elif k == 5: op = ("frame", {}, None, {}); new = None
            elif k == 6: op = ("quit", None)
            else: op = ("quit", "tired \"\u017e\"")
            if op[0] == "quit": h.append((op, ("none",))); dead = True; continue
            what = ("ok", [(BOX, {})], None)
            if new is not None and not dead:
                live = new; reg = [([BOX, BOX2, REGIONS[4]][j % 3], {"o": str(j)} if i else {}) for j in range(live)]
                w = c.choose(6); what = [("ok", reg, None), ("ok", reg, {"s": "t"}), ("wrong", reg, None), ("quit", None), ("quit", "no \"more\""), ("die",)][w]
                if w > 2: dead = True
            h.append((op, what))
        ends = ["quit", "with", "drop"][c.choose(3)]
        if not h: raise Prune()
        compare(c, cfg, h, ends)

    @sc("log", 1)
    def log(c):
        import tempfile
        side, form = c.choose(2), c.choose(5); txt = ["plain", "\u017e \u2192 \U0001f600"][c.choose(2)]; pair = Pair(); d = tempfile.mkdtemp(dir="/dev/shm"); cwd = os.getcwd(); said = []; out = io.StringIO(); c.step()
        arg = [False, True, "log.txt", os.path.join(d, "sub", "log.txt"), lambda s: said.append(s)][form]; c.say("log side %d form %d" % (side, form))
        if side == 1 and form == 4: arg = False   # a server has no such form
        try:
            os.chdir(d); cfg = dict(CFG)
            with contextlib.redirect_stdout(out):
                if side == 0: s = CServer(*pair.server, cfg); p = PClient(*pair.client, log=arg)
                else: s = PServer(*pair.server, cfg, log=arg); p = CClient(*pair.client)
                op = ("initialize", IM1, [(BOX, {"x": txt})], {}); rep = ("ok", [(BOX, {"y": txt})], None)
                if side == 0: todo.put(lambda: serve(c, pair, s, rep)); got = p.call(*op); result()
                else: p.send(*op); serve(c, pair, s, rep); got = p.wait()
                if got != ("ok", [(BOX, {"y": txt})]): c.fail("log", "with a log the reply is %r" % (got,))
                drop = c.choose(2)   # an end without a word: the quit of the library is logged too
                if not drop: p.quit("bye") if side == 0 else s.quit("bye")
                if side == 0: s.close(); del p
                else: p.close(); del s
            s = p = None
            text = {0: lambda: "", 1: out.getvalue, 2: lambda: open("log.txt", encoding="utf8").read(), 3: lambda: open(arg, encoding="utf8").read(), 4: lambda: "".join(said)}[form]()
            if form == 0 or (side == 1 and form == 4):
                if text: c.fail("log", "unexpected " + text)
            else:
                lines = [l for l in text.split("\n") if l.startswith("@@TRAX:")]; kinds = [l.split()[0][7:] for l in lines]
                if kinds != ["hello", "initialize", "frame", "state", "quit"]: c.fail("log", "kinds of messages in the log: %r" % (kinds,))
                if ("x=" + txt) not in lines[1].replace('"', "") or ("y=" + txt) not in lines[3].replace('"', ""): c.fail("log", "the text in the log: %r" % lines)
        finally:
            os.chdir(cwd); pair.close(); shutil.rmtree(d); os.environ.pop("TRAX_IN", None); os.environ.pop("TRAX_OUT", None)
        c.state((side, form, txt)); balanced(c, "log")

    @sc("interrupt", 1)
    def interrupt(c):   # a log callback that is interrupted: the call under way says so, everything is released
        k, kind = c.choose(250), c.choose(2); pair = Pair(); count = [0]; c.say("interrupted at %d" % k); c.step()
        def cb(s):
            count[0] += 1
            if count[0] - 1 == k: raise (KeyboardInterrupt if kind == 0 else ValueError)("stop")
        s = CServer(*pair.server, CFG); p = None; hook = sys.unraisablehook
        def attempt(f):
            before = count[0]
            try: r = f(); hit = False
            except KeyboardInterrupt: r = None; hit = True
            if hit != (kind == 0 and before <= k < count[0]): c.fail("interrupt", "callback %d of %d..%d interrupted, call %s" % (k, before, count[0], "interrupted" if hit else "went on"))
            return None if hit else r
        try:
            sys.unraisablehook = lambda a: None
            p = attempt(lambda: Client((pair.client[1], pair.client[0]), log=cb))
            if p is not None:
                todo.put(lambda: serve(c, pair, s, ("ok", [(BOX, {})], None))); r = attempt(lambda: p.initialize({"color": trax.FileImage.create("x")}, [(p_region(BOX), None)], {}))
                if r is not None: attempt(lambda: p.quit("bye"))
                else:   # what was not read is left to the end of the client
                    p = None; pair.shut(*pair.client)
                result()
            c.outcome("reached" if count[0] > k else "not reached")
        finally:
            p = r = None; sys.unraisablehook = hook; s.close(); pair.close()
        s = cb = attempt = None; c.state((k, kind)); balanced(c, "interrupt %d" % k)

    @sc("setup", 1)
    def setup(c):
        import socket
        k = c.choose(8); pair = Pair(); c.step(); c.say("setup %d" % k)
        HELLO = b"@@TRAX:hello \"trax.version=%d\" \"trax.image=path;\" \"trax.region=rectangle;\" \"trax.channels=color;\"\n"
        try:
            if k == 6:   # sockets: the client waits for the server
                l = socket.socket(); l.bind(("127.0.0.1", 0)); port = l.getsockname()[1]; l.listen(1)
                fd = l.fileno()
                def connect(): os.environ["TRAX_SOCKET"] = str(port); s = Server(["rectangle"], ["path"], tracker_name="sock"); return s
                todo.put(connect); p = Client(fd, timeout=20); s = result(); del os.environ["TRAX_SOCKET"]
                if p.tracker_name != "sock": c.fail("setup", p.tracker_name)
                def serve1():
                    r = s.wait(); s.status([(trax.Rectangle.create(1, 2, 3, 4), {"a": "b"})]); return r
                todo.put(serve1); got, _ = p.initialize({"color": trax.FileImage.create("x")}, [(trax.Rectangle.create(5, 6, 7, 8), None)], {"m": "n"}); r = result()
                if [(p_read(a), d) for a, d in got] != [(("rectangle", 1.0, 2.0, 3.0, 4.0), {"a": "b"})] or r.type != "initialize" or p_read(r.objects[0][0]) != ("rectangle", 5.0, 6.0, 7.0, 8.0): c.fail("setup", "over a socket: %r" % (got,))
                p.quit("enough"); q = s.wait()
                if q.type != "quit" or q.properties.get("trax.reason") != "enough": c.fail("setup", "quit over a socket: %r" % (q,))
                r = got = q = None; del s, p; l.close(); serve1 = None
            elif k == 7:  # nobody comes
                l = socket.socket(); l.bind(("127.0.0.1", 0)); l.listen(1)
                try: Client(l.fileno(), timeout=1); c.fail("setup", "connected to nobody")
                except TraxException: pass
                l.close()
            else:
                data = [b"", b"garbage\n", b"@@TRAX:hello \"trax.version=99\" \"trax.image=path;\" \"trax.region=rectangle;\"\n", b"@@TRAX:state 1,2,3,4\n", HELLO % 4, HELLO % 1][k]
                os.write(pair.server[1], data); pair.shut(pair.server[1])
                ok = False
                try: p = Client((pair.client[1], pair.client[0])); ok = True; del p
                except TraxException as e: del e
                h = C.client_setup_file  # the C function decides whether this is a tracker
                q = Pair(); os.write(q.server[1], data); q.shut(q.server[1]); z = CClient(*q.client); alive = bool(z.h) and bool(lib_alive(z.h)); z.close() if z.h else None; q.close()
                if ok != alive: c.fail("setup", "%r: %s, the library says %s" % (data, ok, alive))
                for bad in ("x", None, 1.5):
                    try: Client(bad); c.fail("setup", "connected to %r" % (bad,))
                    except TraxException: pass
        finally:
            pair.close(); os.environ.pop("TRAX_SOCKET", None)
        c.outcome("setup %d" % k); c.state(k); balanced(c, "setup %d" % k)
    L = ctypes.CDLL(os.path.join(os.path.dirname(trax.__file__), "libtrax.so")); L.trax_is_alive.argtypes = [c_void_p]; lib_alive = L.trax_is_alive

    base[0] = C.mc_live()
    if sys.argv[1] == "--replay":
        b = "/dev/shm/pymc-replay-%d" % os.getpid(); open(b, "wb").write(b"\0" * 4096)
        try: return pymc.worker(S, sys.argv[2], 0, 1, b, 1e18, replay=[int(x) for x in sys.argv[4].split()])
        finally: os.unlink(b)
    _, name, wi, n, board, deadline, tier = sys.argv[1:]
    rc = pymc.worker(S, name, int(wi), int(n), board, float(deadline))
    sys.stdout.flush(); os._exit(rc)   # interpreter shutdown is not part of the explored behaviour

if __name__ == "__main__": sys.exit(worker_main())
