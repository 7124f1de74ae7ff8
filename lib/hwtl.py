"""Timelords for the real hardware client: several connections at once, and the board behind it; what all of them see is recorded."""
import os, random, signal, socket, subprocess, threading, time
import api
from vlib import hx
from p02 import py_encode

TARGET, I4 = 2000000000, 4000


class Group:
    def __init__(self, rng, bits):
        self.D = api.rand_disc(rng, bits); self.x = (2, 1) if rng.randrange(4) == 0 else api.rand_form(rng, self.D); self.x = api.reduce(self.D, *self.x)
        self.h = api.order_multiple(self.D, self.x)
        self.f = bytes([8]) + bytes(99) if self.x == (2, 1) else py_encode(self.x[0], self.x[1], abs(self.D).bit_length())


def now(): return time.monotonic_ns()


ALL = []


def kill_all():
    for p in ALL:
        if p.poll() is None: p.kill()


class Client:
    """the client process, its board and the port it connects to"""
    def __init__(self, exe, rng, n=3, args=(), seed=1, listen=True, env=None, nofile=0, on_accept=None, rcvbuf=0):
        self.rng, self.ev, self.mx, self.sess = rng, [], threading.Lock(), []
        self.cur = [0] * 3; self.offs = [0] * 3; self.acks = 0; self.over = None; self.told = False; self.odd = []; self.broken = None; self.on_accept = on_accept; self.target = TARGET
        if env and "VDF_TARGET" in env: self.target = (int(env["VDF_TARGET"]) + I4 - 1) // I4 * I4
        self.ls = socket.socket(); self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); self.ls.bind(("127.0.0.1", 0)); self.port = self.ls.getsockname()[1]
        if rcvbuf: self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        if listen: self.ls.listen(8)
        r, w = os.pipe(); self.log = os.path.join(os.environ["VERIF_ERRDIR"], "err%d_%d" % (os.getpid(), self.port)) if os.environ.get("VERIF_ERRDIR") else (env or {}).get("VERIF_ERR", os.devnull); self.err = open(self.log, "wb")
        def pre():
            if w == 3: os.set_inheritable(3, True)
            else: os.dup2(w, 3)
            if nofile: __import__("resource").setrlimit(__import__("resource").RLIMIT_NOFILE, (nofile, nofile))
        self.p = subprocess.Popen([exe, str(self.port), str(n)] + list(args), stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=self.err, preexec_fn=pre, close_fds=False,
                                  env=dict(os.environ, **dict({"ASAN_OPTIONS": "exitcode=77:detect_leaks=0:detect_stack_use_after_return=0"}, **(env or {}))))
        os.close(w); self.n = n; ALL.append(self.p)
        self.rd = threading.Thread(target=self._read, args=(r,), daemon=True); self.rd.start()
        self.tell("seed %d" % (seed | 1)); self.tell("set 1c 00000003;go")
        if listen: self.at = threading.Thread(target=self._accept, daemon=True); self.at.start()

    def listen(self): self.ls.listen(8); self.at = threading.Thread(target=self._accept, daemon=True); self.at.start()

    def _read(self, fd):
        for line in os.fdopen(fd):
            w = line.split()
            if w[1] == "ack": self.acks += 1; continue
            with self.mx:
                if w[1] == "job":
                    i = int(w[2])
                    if int(w[4]) == TARGET: self.target = TARGET        # (sessions are not short in this build)
                    self.offs[i] = self.target - int(w[4])
                    if self.offs[i] == 0: self.cur[i] = 0
                if w[1] == "rep" and w[3] == "1": i = int(w[2]); self.cur[i] = max(self.cur[i], self.offs[i] + int(w[4]))
                self.ev.append((int(w[0]), None, w[1:]))

    def tell(self, s):
        try: self.p.stdin.write((s + "\n").encode()); self.p.stdin.flush()
        except OSError: pass

    def _accept(self):
        while True:
            try: s, _ = self.ls.accept()
            except OSError: return
            x = Session(self, s)
            with self.mx: self.sess.append(x)
            if self.on_accept: threading.Thread(target=self._run, args=(x,), daemon=True).start()

    def _run(self, x):
        try: self.on_accept(x)
        except OSError as e: x.note("lost", str(e))
        except Exception as e: self.broken = repr(e)
        x.finished = True

    def armed(self):
        """has the client said how it takes SIGTERM?"""
        try: m = [l for l in open("/proc/%d/status" % self.p.pid) if l.startswith(("SigCgt", "SigBlk", "SigIgn"))]
        except OSError: return True
        return any(int(l.split()[1], 16) >> 14 & 1 for l in m)

    def term(self):
        t = time.time() + 30
        while not self.armed() and time.time() < t and self.p.poll() is None: time.sleep(0.02)
        self.told = True
        for x in self.sess: x.note("term")
        self.p.send_signal(signal.SIGTERM)

    def wait(self, limit=60):
        try: self.over = self.p.wait(limit)
        except subprocess.TimeoutExpired: self.p.kill(); self.p.wait(); self.over = -999
        self.rd.join(10)
        try: self.ls.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.ls.close()
        for x in self.sess: x.close()
        return self.over

    def traces(self):
        """one run of events per session, the board's included"""
        if self.broken: raise RuntimeError(self.broken)
        with self.mx: ev = sorted(self.ev, key=lambda e: e[0])
        res = []
        for x in self.sess:
            if not x.g: continue
            mine = [(t, k) for t, s, k in ev if s is x]; D = hx(x.g.D); eng = None; t_end = None; board = []
            for t, s, k in ev:
                if s is not None or k[0] not in ("job", "rep", "halt", "dark", "badjob", "clk"): continue
                if k[0] == "job" and k[4] == D: eng = k[1]
                if eng is not None and len(k) > 1 and k[1] == eng and k[0] != "clock":
                    if k[0] == "job" and k[4] != D:
                        while board and board[-1][1][0] == "clk": board.pop()
                        break
                    board.append((t, k))
            out = []
            for t, k in sorted(mine + [(t, tuple(k)) for t, k in board], key=lambda e: e[0]):
                if k[0] == "job": out.append({"k": "job", "clk": k[2] == "1", "n": int(k[3]), "D": k[4], "f": [k[5], k[6]]})
                elif k[0] == "rep": out.append({"k": "rep", "good": k[2] == "1", "it": int(k[3])})
                elif k[0] == "clk": out.append({"k": "clk", "on": k[2] == "1"})
                elif k[0] in ("halt", "dark"): out.append({"k": k[0]})
                elif k[0] == "got": out.append(dict(k[1], k="got"))
                elif k[0] == "req": out.append({"k": "req", "it": min(k[1], 2 ** 31 - 1)})
                elif k[0] == "junkmsg": out.append({"k": "leave"})       # (a malformed message: the connection may be closed)
                elif k[0] == "quiet": out.append({"k": "quiet", "r": k[1]})
                else: out.append({"k": k[0]})
            res.append([{"k": "open", "D": D, "f": api.fj(x.g.x), "h": hx(x.g.h), "log": self.log}] + out + [{"k": "end"}])
        res.append([{"k": "client"}] + [{"k": k} for k in self.odd] + [{"k": "exit", "rc": self.over if self.over is not None else -999, "told": self.told}])
        return res


class Session:
    """one connection, from the timelord's side"""
    def __init__(self, c, s):
        self.c, self.s, self.g, self.buf, self.open, self.closed, self.finished = c, s, None, b"", [], False, False
        self.ok = self.stopped = self.eof = False; self.eng = None; self.left = b""
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

    def note(self, k, *a):
        with self.c.mx: self.c.ev.append((now(), self, (k,) + a))

    def send(self, data, rng=None, slow=True):
        """all of it, cut at random places"""
        while data:
            n = len(data) if rng is None else rng.choice([1, 1, 2, 5, 60, 103, len(data), len(data) - 100])
            n = max(1, min(n, len(data)))
            self.s.sendall(data[:n]); data = data[n:]
            if data and slow and rng.randrange(3): time.sleep(rng.random() * 0.03)

    def hello(self, g, mode=b"T"):
        self.c.tell("order %s %s" % (hx(g.D), hx(g.h))); n = self.c.acks
        self.g = g; d = str(g.D).encode()
        return mode + b"%03d" % len(d) + d + bytes([100]) + g.f

    def start(self, g, rng=None):
        b = self.hello(g); time.sleep(0.02); self.note("hello"); self.send(b, rng)

    def req(self, it, rng=None):
        b = str(it).encode(); self.note("req", it); self.open.append(it); self.send(b"%02d" % len(b) + b, rng)

    def zero(self, rng=None, how=b"010"): self.note("zero"); self.send(how, rng)

    def pump(self, t):
        if self.eof or self.closed: time.sleep(t); return
        self.s.settimeout(max(t, 0.0005))
        try: d = self.s.recv(65536)
        except socket.timeout: return
        except OSError: d = b""
        if not d: self.eof = True; self.note("eof"); return
        self.buf += d; self.parse()

    def parse(self):
        b = self.buf
        while b:
            if not self.ok:
                if b[:2] == b"OK": self.ok = True; self.note("ok"); b = b[2:]; continue
                if b[:4] == b"STOP": self.stopped = True; self.note("stop"); b = b[4:]; continue
                if len(b) < 4 and (b"OK".startswith(b) or b"STOP".startswith(b)): break
                self.note("junk", b.hex()); b = b""; continue
            if b[:4] == b"STOP": self.stopped = True; self.note("stop"); b = b[4:]; continue
            if len(b) < 4: break
            n = int.from_bytes(b[:4], "big")
            if n > 100000: self.note("junk", b.hex()); b = b""; continue
            if len(b) < 4 + n: break
            m, b = b[4:4 + n].decode("latin1"), b[4 + n:]
            segs = [m[434 + k * 282:434 + (k + 1) * 282] for k in range((len(m) - 434) // 282)] if len(m) >= 434 else []
            try: it, cnt = int(m[:16], 16), int(m[232:234], 16)
            except ValueError: self.note("junk", m); continue
            lens = [int(s[:16], 16) for s in segs]
            first = it - sum(lens)
            if it in self.open: self.open.remove(it)
            if it > 2 * TARGET or len(m) != 434 + 282 * len(segs) or first < 0: self.note("junk", m); continue
            self.note("got", {"it": it, "size": m[16:32], "cnt": cnt, "lens": [hx(n) for n in reversed(lens)] and [hx(n) for n in reversed(lens)] + [hx(first)] if segs else [hx(it)], "out": m[32:232] + m[234:434] + "".join(segs)})
        self.buf = b

    def until(self, cond, limit):
        t = time.time() + limit
        while not cond() and time.time() < t and not self.eof: self.pump(0.01)
        return cond()

    def engine(self):
        t = time.time() + (5 if self.ok else 0)      # (the OK may be seen before the board's record)
        while self.eng is None:
            with self.c.mx:
                for t_, s, k in reversed(self.c.ev):
                    if s is None and k[0] == "job" and k[4] == hx(self.g.D): self.eng = int(k[1]); break
            if self.eng is None:
                if time.time() > t: return 0
                time.sleep(0.005)
        return self.eng

    def reached(self):
        return self.c.cur[self.engine()] if self.ok else 0

    def quiet(self, limit=90):
        """all that is within reach has to be answered"""
        r = self.reached()
        self.until(lambda: self.c.told or not any(q <= r for q in self.open), limit)
        if not self.c.told: self.note("quiet", r)

    def bye(self, limit=90, ack=True):
        if not self.until(lambda: self.stopped or self.eof, limit): self.note("late")
        if self.stopped and ack:
            try: self.s.sendall(b"ACK")
            except OSError: pass
        if not self.until(lambda: self.eof, limit): self.note("late")
        self.close()

    def close(self):
        if not self.closed: self.closed = True; self.s.close()
