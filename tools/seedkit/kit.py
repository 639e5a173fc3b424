# Helpers for demonstrations against the built programs; run with cwd /repo.
import ctypes, os, shutil, signal, socket, subprocess, sys, tempfile, threading, time, atexit, errno, select
SERVER = os.path.abspath("_build/src/server/nsca-ng")
CLIENT = os.path.abspath("_build/src/client/send_nsca")
TMP = tempfile.mkdtemp(prefix="nsca-demo.")
PW = "secret"
_procs = []
def _cleanup():
    for p in _procs:
        try: p.kill()
        except OSError: pass
        try: p.wait(5)
        except Exception: pass
    shutil.rmtree(TMP, ignore_errors=True)
atexit.register(_cleanup)
signal.signal(signal.SIGALRM, lambda *a: fail("the demonstration timed out"))
signal.alarm(240)
def fail(msg):
    print("FAIL:", msg, flush=True); sys.exit(1)
def ok(msg="property holds"):
    print("OK:", msg, flush=True); sys.exit(0)
def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p
def wait_for(cond, t=10, step=0.02):
    end = time.time() + t
    while time.time() < end:
        if cond(): return True
        time.sleep(step)
    return bool(cond())
def preload(name, src):
    c = os.path.join(TMP, name + ".c"); so = os.path.join(TMP, name + ".so")
    open(c, "w").write("#define _GNU_SOURCE\n" + src)
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-w", "-o", so, c, "-ldl"]); return so
AUTH = 'authorize "*" {\n password = "%s"\n commands = ".+"\n}\n' % PW
class Server:
    def __init__(self, conf="", auth=AUTH, fifo=True, args=(), env=None, name="s", port=None, wait=True, level=4, pre=(), start=True, reader=False):
        self.port = port or free_port(); self.dir = os.path.join(TMP, name); os.makedirs(self.dir, exist_ok=True)
        self.fifo = os.path.join(self.dir, "cmd"); self.dump = os.path.join(self.dir, "dump"); os.makedirs(self.dump, exist_ok=True)
        if fifo and not os.path.exists(self.fifo): os.mkfifo(self.fifo)
        self.cfg = os.path.join(self.dir, "cfg"); self.logf = os.path.join(self.dir, "log")
        open(self.cfg, "w").write('listen = "127.0.0.1:%d"\ncommand_file = "%s"\ntemp_directory = "%s"\n%s\n%s' % (self.port, self.fifo, self.dump, conf, auth))
        self.argv = list(pre) + [SERVER, "-F", "-S", "-l", str(level), "-c", self.cfg] + list(args)
        self.env = dict(os.environ, **(env or {}))
        self.r = Reader(self) if reader else None
        if start: self.start(wait)
    def start(self, wait=True):
        lf = open(self.logf, "ab")
        self.p = subprocess.Popen(self.argv, env=self.env, stderr=lf, stdout=lf, stdin=subprocess.DEVNULL); _procs.append(self.p)
        if wait and not wait_for(self.up): fail("the server did not start: " + self.log())
    def up(self):
        return "starting up" in self.log() or self.p.poll() is not None
    def log(self): return open(self.logf, errors="replace").read() if os.path.exists(self.logf) else ""
    def fds(self): return len(os.listdir("/proc/%d/fd" % self.p.pid))
    def rss(self):
        for l in open("/proc/%d/status" % self.p.pid):
            if l.startswith("VmRSS"): return int(l.split()[1])
    def alive(self): return self.p.poll() is None
    def stop(self, sig=signal.SIGTERM, t=10):
        self.p.send_signal(sig)
        try: return self.p.wait(t)
        except subprocess.TimeoutExpired: return None
class Reader: # reads the command file
    def __init__(self, srv, drain=True):
        self.fd = os.open(srv.fifo, os.O_RDONLY | os.O_NONBLOCK); self.data = b""; self.run = True; self.t = None
        if drain: self.drain()
    def drain(self):
        self.t = threading.Thread(target=self._loop, daemon=True); self.t.start()
    def _loop(self):
        while self.run: self.once(0.05)
    def once(self, t=0):
        r, _, _ = select.select([self.fd], [], [], t)
        if r:
            try: d = os.read(self.fd, 65536)
            except BlockingIOError: return
            if not d: time.sleep(0.01)
            self.data += d
    def close(self):
        self.run = False
        if self.t: self.t.join(2)
        os.close(self.fd)
    def lines(self): return self.data.decode("latin1").split("\n")[:-1]
def delivered(reader): # the commands, with those of the dump files in place
    def expand(lines):
        for l in lines:
            if "PROCESS_FILE;" in l:
                d = open(l.split(";")[1], errors="replace").read()
                yield from expand(d.split("\n")[:-1] if d.endswith("\n") else d.split("\n"))
            else: yield l
    return list(expand(reader.lines()))
# ---- TLS-PSK through the system's libssl
_ssl = ctypes.CDLL("libssl.so.3"); _cr = ctypes.CDLL("libcrypto.so.3")
V = ctypes.c_void_p
for n, r, a in [("TLS_client_method", V, []), ("TLS_server_method", V, []), ("SSL_CTX_new", V, [V]), ("SSL_new", V, [V]), ("SSL_set_fd", ctypes.c_int, [V, ctypes.c_int]), ("SSL_connect", ctypes.c_int, [V]), ("SSL_accept", ctypes.c_int, [V]), ("SSL_read", ctypes.c_int, [V, V, ctypes.c_int]), ("SSL_write", ctypes.c_int, [V, V, ctypes.c_int]), ("SSL_shutdown", ctypes.c_int, [V]), ("SSL_CTX_set_cipher_list", ctypes.c_int, [V, ctypes.c_char_p]), ("SSL_CTX_set_psk_client_callback", None, [V, V]), ("SSL_CTX_set_psk_server_callback", None, [V, V]), ("SSL_get_error", ctypes.c_int, [V, ctypes.c_int]), ("SSL_free", None, [V]), ("SSL_CTX_ctrl", ctypes.c_long, [V, ctypes.c_int, ctypes.c_long, V]), ("SSL_CTX_set_options", ctypes.c_uint64, [V, ctypes.c_uint64])]:
    f = getattr(_ssl, n); f.restype = r; f.argtypes = a
CB_C = ctypes.CFUNCTYPE(ctypes.c_uint, V, ctypes.c_char_p, V, ctypes.c_uint, V, ctypes.c_uint)
CB_S = ctypes.CFUNCTYPE(ctypes.c_uint, V, ctypes.c_char_p, V, ctypes.c_uint)
class Tls:
    def __init__(self, port=None, id="client", pw=PW, sock=None, server=False, timeout=20, tls12=False):
        self.s = sock or socket.create_connection(("127.0.0.1", port)); self.s.settimeout(None); self.buf = b""; self.eof = False
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        tv = (timeout).to_bytes(8, "little") + bytes(8)
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVTIMEO, tv); self.s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDTIMEO, tv)
        self.ctx = _ssl.SSL_CTX_new(_ssl.TLS_server_method() if server else _ssl.TLS_client_method())
        _ssl.SSL_CTX_set_cipher_list(self.ctx, b"PSK")
        if tls12: _ssl.SSL_CTX_ctrl(self.ctx, 124, 0x0303, None)
        def cli(ssl, hint, ident, imax, psk, pmax):
            b = id.encode() + b"\0"; ctypes.memmove(ident, b, len(b)); ctypes.memmove(psk, pw.encode(), len(pw)); return len(pw)
        def srv(ssl, ident, psk, pmax):
            ctypes.memmove(psk, pw.encode(), len(pw)); return len(pw)
        if server: self.cb = CB_S(srv); _ssl.SSL_CTX_set_psk_server_callback(self.ctx, ctypes.cast(self.cb, V))
        else: self.cb = CB_C(cli); _ssl.SSL_CTX_set_psk_client_callback(self.ctx, ctypes.cast(self.cb, V))
        self.ssl = _ssl.SSL_new(self.ctx); _ssl.SSL_set_fd(self.ssl, self.s.fileno())
        self.ok = (_ssl.SSL_accept if server else _ssl.SSL_connect)(self.ssl) == 1
    def send(self, data):
        if isinstance(data, str): data = data.encode("latin1")
        return _ssl.SSL_write(self.ssl, data, len(data)) == len(data)
    def _fill(self):
        b = ctypes.create_string_buffer(16384); n = _ssl.SSL_read(self.ssl, b, 16384)
        if n <= 0: self.eof = True; return False
        self.buf += b.raw[:n]; return True
    def line(self):
        while b"\n" not in self.buf:
            if not self._fill(): return None
        l, self.buf = self.buf.split(b"\n", 1); return l.rstrip(b"\r").decode("latin1")
    def bytes(self, n):
        while len(self.buf) < n:
            if not self._fill(): return None
        d, self.buf = self.buf[:n], self.buf[n:]; return d
    def req(self, l): self.send(l + "\r\n"); return self.line()
    def moin(self):
        if not self.ok or self.req("MOIN 1 demo") != "MOIN 1": fail("no MOIN response")
        return self
    def push(self, cmd):
        r = self.req("PUSH %d" % len(cmd))
        if r != "OKAY": return r
        self.send(cmd); return self.line()
    def quit(self):
        r = self.req("QUIT"); _ssl.SSL_shutdown(self.ssl); self.close(); return r
    def close(self): self.s.close()
    def shutdown(self): return _ssl.SSL_shutdown(self.ssl)
def host_cmd(n, text): return "[%d] PROCESS_HOST_CHECK_RESULT;h;0;%s%s\n" % (1700000000, n, text)
def send_nsca(port, data, args=(), conf="", timeout=60, env=None, pw=PW, id="client", pre=()):
    cfg = os.path.join(TMP, "cli%d.cfg" % port); open(cfg, "w").write('identity = "%s"\npassword = "%s"\n%s\n' % (id, pw, conf)); os.chmod(cfg, 0o600)
    p = subprocess.Popen(list(pre) + [CLIENT, "-c", cfg, "-H", "127.0.0.1", "-p", str(port), "-S"] + list(args), stdin=subprocess.PIPE, stderr=subprocess.PIPE, stdout=subprocess.PIPE, env=dict(os.environ, **(env or {}))); _procs.append(p)
    if callable(data): data(p.stdin); data = None
    try: o, e = p.communicate(data, timeout)
    except subprocess.TimeoutExpired: p.kill(); return None, "still running"
    return p.returncode, e.decode("latin1")
class Listener:
    def __init__(self, handler, port=None):
        self.s = socket.socket(); self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); self.s.bind(("127.0.0.1", port or 0)); self.s.listen(16); self.port = self.s.getsockname()[1]; self.h = handler; self.n = 0
        threading.Thread(target=self._run, daemon=True).start()
    def _run(self):
        while True:
            c, _ = self.s.accept(); self.n += 1
            threading.Thread(target=self.h, args=(c, self.n), daemon=True).start()
def py_ext(): # the Python module, built from the working tree
    import sysconfig
    so = os.path.join(TMP, "nscang.so")
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-w", "-O1", "-I" + sysconfig.get_paths()["include"], "-o", so, "python/client.c", "python/nscang.c", "-lssl", "-lcrypto"])
    return TMP
def py_run(prog, timeout=120, env=None): # runs a program that uses it; returns (exit status, output)
    try: r = subprocess.run([sys.executable, "-B", "-c", "import sys\nsys.path.insert(0, %r)\nimport nscang, time\n%s" % (py_ext(), prog)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired: return None, "still running"
    return r.returncode, r.stdout.decode("latin1")
def perl_run(prog, timeout=120): # the same for the Perl module
    d = os.path.join(TMP, "perl"); os.makedirs(d + "/auto/Net/NSCAng/Client", exist_ok=True); os.makedirs(d + "/Net/NSCAng", exist_ok=True)
    cfg = lambda k: subprocess.check_output(["perl", "-MConfig", "-e", "print $Config{%s}" % k], text=True)
    core = cfg("archlibexp") + "/CORE"; ver = "v2.0.0"
    xs = subprocess.check_output(["xsubpp", "-typemap", cfg("privlibexp") + "/ExtUtils/typemap", "-typemap", os.path.abspath("perl/typemap"), "perl/Client.xs"])
    open(d + "/Client.xs.c", "wb").write(xs); shutil.copy("perl/lib/Net/NSCAng/Client.pm", d + "/Net/NSCAng/")
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-w", "-O1", "-D_REENTRANT", "-D_GNU_SOURCE", "-D_FILE_OFFSET_BITS=64", "-DVERSION=\"%s\"" % ver, "-DXS_VERSION=\"%s\"" % ver, "-I" + core, "-Iperl", "-o", d + "/auto/Net/NSCAng/Client/Client.so", "perl/client.c", d + "/Client.xs.c", "-lssl", "-lcrypto"])
    try: r = subprocess.run(["perl", "-I" + d, "-MNet::NSCAng::Client", "-e", prog], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired: return None, "still running"
    return r.returncode, r.stdout.decode("latin1")
