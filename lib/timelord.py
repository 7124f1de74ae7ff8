"""A timelord for the real client: one scripted session over loopback, everything exchanged is recorded."""
import os, signal, socket, struct, subprocess, time, select, random


def dec_disc(D): s = str(D); return b"%03d" % len(s) + s.encode()


def init_bytes(mode, D, form100, pad=100): return mode.encode() + dec_disc(D) + bytes([pad]) + form100[:pad]


def iter_bytes(n): s = str(n).encode(); return b"%02d" % len(s) + s


STOP = b"00"


class Session:
    """steps: ('send', bytes) ('msgs', n) wait for n proofs ('ok',) wait for OK ('pause', ms) ('end',) wait for STOP, send ACK
              ('close',) close the connection ('reset',) the same with a reset ('half',) end of our stream only
              ('slow',) make arithmetic slow from now on ('on',) a squaring that is held goes on ('ran', s) wait for a thread to end
              ('idle', s) wait until the client uses no processor time"""
    def __init__(self, exe, steps, rng, scale=50, jitter=0, frag=True, limit=20.0, env=None, hold=0.0):
        self.rng, self.frag, self.limit, self.hold, self.left = rng, frag, limit, hold, 0
        ls = socket.socket(); ls.bind(("127.0.0.1", 0)); ls.listen(1); ls.settimeout(30)
        e = dict(os.environ, VDF_SCALE=str(scale)); e.update(env or {})
        if jitter: e["VDF_JITTER"] = "%d:%d" % (rng.randrange(1, 1 << 30), jitter)
        self.p = subprocess.Popen([exe, "127.0.0.1", str(ls.getsockname()[1]), "0"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e)
        self.out, self.inp, self.buf, self.eof, self.late, self.t_over = [], b"", b"", False, "", None
        try: self.s, _ = ls.accept()
        except socket.timeout: self.p.kill(); self.p.wait(); self.err = self.p.stderr.read(); self.rc = -998; self.took = 0; self.closed = ""; return
        finally: ls.close()
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.closed = ""
        try:
            for st in steps:
                if not self.step(*st): break
        finally:
            t0 = self.t_over or time.time()
            if not self.closed:
                # nothing more will be said: the client has the rest of the limit to end
                self.until(lambda: self.eof, 0.01)
            end = t0 + limit
            while self.p.poll() is None and time.time() < end:
                if not self.closed: self.until(lambda: self.eof, 0.02)
                else: time.sleep(0.005)
            self.rc = self.p.poll()
            if self.rc is None: self.threads = self.thread_count(); self.p.kill(); self.p.wait(); self.rc = -999
            self.took = time.time() - t0
            if not self.closed: self.until(lambda: self.eof, 0.05)
            self.s.close()
            self.err = self.p.stderr.read().decode("latin1"); self.p.stderr.close()

    def thread_count(self):
        try: return len(os.listdir("/proc/%d/task" % self.p.pid))
        except OSError: return 0

    def cpu(self):
        try: return sum(map(int, open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()[11:13]))
        except OSError: return 0

    def step(self, op, arg=None):
        if op == "send":
            data = arg
            while data:
                n = len(data) if not self.frag else self.rng.choice([1, 1, 2, 3, 7, 50, len(data)])
                try: self.s.sendall(data[:n])
                except OSError: return True
                self.inp += data[:n]; data = data[n:]
                if data and self.rng.randrange(3) == 0: time.sleep(self.rng.random() * 0.002)
            self.pump(0)
            return True
        if op == "ok": return self.until(lambda: any(o[0] == "ok" for o in self.out) or self.over(), self.limit) or self.note("no OK")
        if op == "msgs": return self.until(lambda: sum(o[0] == "msg" for o in self.out) >= arg or self.over(), self.limit) or self.note("an accepted request was not answered")
        if op == "pause":
            t = time.time() + arg / 1000.0
            while time.time() < t: self.pump(max(0, min(0.01, t - time.time())))
            return True
        if op in ("slow", "on"): self.p.send_signal(signal.SIGUSR1 if op == "slow" else signal.SIGUSR2); return True
        if op == "idle":
            last, t = self.cpu(), time.time() + arg
            while time.time() < t and not self.over():
                self.pump(0.25); k = self.cpu()
                if k - last <= 4: break
                last = k
            return True
        if op == "ran":                                     # the squaring thread is over (mode S), or arg seconds
            top, t = 0, time.time() + arg
            while time.time() < t:
                self.pump(0.001); k = self.thread_count(); top = max(top, k)
                if k < top or self.over(): break
            return True
        if self.closed: return True
        if op == "end":
            self.t_over = time.time()
            ok = self.until(lambda: self.over(), self.limit)
            if any(o[0] == "stop" for o in self.out):
                # everything has stopped: only the thread that waits for the acknowledgement is left
                t = time.time() + 0.3
                while self.thread_count() > 1 and time.time() < t: self.pump(0.02)
                self.left = max(0, self.thread_count() - 1)
                self.until(lambda: self.eof, self.hold)
                try: self.s.sendall(arg if arg is not None else b"ACK")
                except OSError: pass
                self.until(lambda: self.eof, self.limit)
            return ok or self.note("no STOP")
        self.t_over = time.time(); self.pump(0)
        if op == "half":
            self.half = True
            try: self.s.shutdown(socket.SHUT_WR)
            except OSError: pass
            return True
        if op == "reset": self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.closed = op; self.s.close(); return True

    def note(self, what): self.late = self.late or what; return False
    def over(self): return self.eof or any(o[0] == "stop" for o in self.out)

    def until(self, cond, limit):
        end = time.time() + limit
        while True:
            self.pump(0)
            if cond(): return True
            left = end - time.time()
            if left <= 0: return False
            self.pump(min(left, 0.05))

    def pump(self, wait):
        if self.eof or self.closed: 
            if wait: time.sleep(wait)
            return
        while True:
            r, _, _ = select.select([self.s], [], [], wait)
            if not r: return
            wait = 0
            try: d = self.s.recv(65536)
            except OSError: d = b""
            if not d: self.eof = True; self.parse(); return
            self.buf += d; self.parse()

    def parse(self):
        b = self.buf
        while b:
            if b.startswith(b"OK"): self.put("ok", ""); b = b[2:]
            elif b.startswith(b"STOP"): self.put("stop", ""); b = b[4:]
            elif len(b) >= 4 and b[0] == 0 and len(b) >= 4 + int.from_bytes(b[:4], "big"):
                n = int.from_bytes(b[:4], "big"); t = b[4:4 + n]; b = b[4 + n:]
                good = all(c in b"0123456789abcdef" for c in t) and n % 2 == 0
                self.put("msg" if good else "odd", t.decode("latin1") if good else t.hex())
            elif b[0] == 0 and (len(b) < 4 or int.from_bytes(b[:4], "big") < 1 << 20): break
            elif b in (b"O", b"S", b"ST", b"STO"): break
            else: self.put("odd", b.hex()); b = b""
        self.buf = b
        if self.eof and b: self.put("odd", b.hex()); self.buf = b""

    def put(self, kind, data): self.out.append([kind, data, len(self.inp)])
