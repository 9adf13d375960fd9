"""Native execution of wrapper functions in a separate process (crash and hang isolation)."""
import os, sys, pickle, struct, subprocess, select, time

if __name__ == '__main__':
    import ctypes, faulthandler, resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    fin = os.fdopen(int(sys.argv[1]), 'rb'); fout = os.fdopen(int(sys.argv[2]), 'wb')
    nul = os.open('/dev/null', os.O_RDWR); os.dup2(nul, 1); os.dup2(nul, 2)
    lib = ctypes.CDLL(sys.argv[3])
    threw = ctypes.c_int.in_dll(lib, 'vh_threw')

    def call(fn, ret, args):
        f = getattr(lib, fn)
        f.restype = {None: None, 'I': ctypes.c_longlong, 'R': ctypes.c_double}[ret]
        av = []; keep = []
        for k, s, x in args:
            ct = ctypes.c_double if s == 'R' else ctypes.c_longlong
            if k == 'val': av.append(ct(x))
            elif k == 'out':
                b = (ct * max(1, x))(*([-7777] * max(1, x))); keep.append(b); av.append(b)
            else:
                b = (ct * max(1, len(x)))(*x); av.append(b)
                if k == 'io': keep.append(b)
        threw.value = 0
        r = f(*av)
        if threw.value: return ('throw', None, None)
        return ('ret', r, [list(b) for b in keep])
    while True:
        h = fin.read(4)
        if len(h) < 4: os._exit(0)
        req = pickle.loads(fin.read(struct.unpack('<I', h)[0]))
        out = pickle.dumps(call(*req))
        fout.write(struct.pack('<I', len(out)) + out); fout.flush()


class Native:
    def __init__(self, so, timeout=10):
        self.so = so; self.p = None; self.timeout = timeout; self.calls = 0

    def start(self):
        r1, w1 = os.pipe(); r2, w2 = os.pipe()
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), str(r1), str(w2), self.so], pass_fds=(r1, w2))
        os.close(r1); os.close(w2)
        self.w = os.fdopen(w1, 'wb'); self.r = r2

    def stop(self):
        if self.p:
            self.p.kill(); self.p.wait()
            try: self.w.close()
            except Exception: pass
            os.close(self.r)
            self.p = None

    def _read(self, n, dl):
        b = b''
        while len(b) < n:
            t = dl - time.time()
            if t <= 0: return None
            rl, _, _ = select.select([self.r], [], [], t)
            if not rl: return None
            c = os.read(self.r, n - len(b))
            if not c: return b''
            b += c
        return b

    def call(self, fn, ret, args):
        """('ret', value, outs) | ('throw',..) | ('crash', signal, None) | ('hang', None, None)"""
        if self.p is None: self.start()
        self.calls += 1
        q = pickle.dumps((fn, ret, args))
        try:
            self.w.write(struct.pack('<I', len(q)) + q); self.w.flush()
        except BrokenPipeError:
            pass
        dl = time.time() + self.timeout
        h = self._read(4, dl)
        if h is None:
            self.stop(); return ('hang', None, None)
        if len(h) < 4:
            rc = self.p.wait(); self.stop(); return ('crash', rc, None)
        return pickle.loads(self._read(struct.unpack('<I', h)[0], dl))
