"""Client of the line-protocol harnesses and generators of forms / encodings (python integers)."""
import subprocess, threading, queue, math, hashlib
from vlib import MachineryError, hx


class Server:
    """One harness process; a crash or a hang is an observable result, not an exception."""
    def __init__(self, exe, args=(), env=None, timeout=60):
        self.exe, self.args, self.env, self.timeout = exe, list(args), env, timeout
        self.p, self.lost = None, 0

    def start(self):
        self.p = subprocess.Popen([self.exe] + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, bufsize=1, env=self.env)
        self.q = queue.Queue()
        p, q = self.p, self.q
        def rd():
            for line in p.stdout:
                q.put(line.rstrip("\n"))
            q.put(None)
        threading.Thread(target=rd, daemon=True).start()

    def call(self, line, timeout=None):
        if self.lost >= 200: return "HANG"                # it has hung for long enough: a verdict is due
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(line + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        try:
            r = self.q.get(timeout=timeout or self.timeout)
        except queue.Empty:
            self.p.kill(); self.p.wait(); self.p = None; self.lost += timeout or self.timeout
            return "HANG"
        if r is None:
            rc = self.p.wait(); self.p = None
            return "CRASH %s" % rc
        return r

    def call_lines(self, line, timeout=None, last="end"):
        """answers up to the line `last`, or a list ending in HANG / CRASH"""
        out = [self.call(line, timeout)]
        while out[-1] != last and not out[-1].startswith(("HANG", "CRASH")):
            try:
                r = self.q.get(timeout=timeout or self.timeout)
            except queue.Empty:
                self.p.kill(); self.p.wait(); self.p = None; r = "HANG"; self.lost += timeout or self.timeout
            else:
                if r is None: r = "CRASH %s" % self.p.wait(); self.p = None
            out.append(r)
        return out

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close(); self.p.wait(timeout=5)
            except Exception:
                self.p.kill(); self.p.wait()
            self.p = None


# ---- arithmetic used only to *generate* inputs (the oracle is the TLA+ specification)
def reduce(D, a, b):
    while True:
        r = b % (2 * a)
        if r > a: r -= 2 * a
        c = (r * r - D) // (4 * a)
        if c < a:
            a, b = c, -r
            continue
        if c == a and r < 0: r = -r
        return a, r


def ext(a, b):
    u0, u1, v0, v1 = 1, 0, 0, 1
    while b:
        q = a // b
        a, b = b, a - q * b
        u0, u1 = u1, u0 - q * u1
        v0, v1 = v1, v0 - q * v1
    if a < 0: a, u0, v0 = -a, -u0, -v0
    return a, u0, v0


def compose(D, f, g):
    s = (f[1] + g[1]) // 2
    g1, u, v = ext(f[0], g[0])
    e, p, q = ext(g1, s)
    u, v = p * u, p * v
    a3 = f[0] * g[0] // (e * e)
    t = u * f[0] * g[1] + v * g[0] * f[1] + q * ((f[1] * g[1] + D) // 2)
    return reduce(D, a3, (t // e) % (2 * a3))


def power(D, f, e):
    r = (1, 1)
    f = reduce(D, *f)
    for c in bin(e)[2:] if e else "":
        r = compose(D, r, r)
        if c == "1": r = compose(D, r, f)
    return r


def sqn(D, f, n):
    f = reduce(D, *f)
    for _ in range(n): f = compose(D, f, f)
    return f


SMALL = [p for p in range(2, 2000) if all(p % q for q in range(2, int(p ** 0.5) + 1))]


def is_prime(n):
    if n < 2: return False
    for p in SMALL:
        if n % p == 0: return n == p
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    # a random-looking big candidate: one base decides almost always
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else:
            return False
    return True


def rand_disc(rng, bits):
    while True:
        p = rng.getrandbits(bits) | (1 << (bits - 1)) | 7
        if is_prime(p): return -p


def composite_disc(rng, bits):
    """a discriminant with two small prime factors (and their forms (p, p) are reduced)"""
    while True:
        k = max(2, min(bits // 6, rng.choice([3, 4, 8, 30, 62, 65, 100])))
        p, q = [rng.getrandbits(k) | (1 << (k - 1)) | 1 for _ in range(2)]
        if p == q or not is_prime(p) or not is_prime(q): continue
        for _ in range(2000):
            r = rng.getrandbits(bits - 2 * k + 1) | (1 << (bits - 2 * k)) | 1
            if (p * q * r) % 8 == 7 and r not in (p, q) and is_prime(r) and (p * q * r).bit_length() <= 1024: return -p * q * r, [p, q]


def sqrt_mod(n, p):
    n %= p
    if n == 0: return 0
    if pow(n, (p - 1) // 2, p) != 1: return None
    if p % 4 == 3: return pow(n, (p + 1) // 4, p)
    q, s = p - 1, 0
    while q % 2 == 0: q //= 2; s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1: z += 1
    m, c, t, r = s, pow(z, q, p), pow(n, q, p), pow(n, (q + 1) // 2, p)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1: t2 = t2 * t2 % p; i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, r = i, b * b % p, t * b * b % p, r * b % p
    return r


def prime_form(rng, D, bits):
    """a form whose first coefficient is a prime of about `bits` bits"""
    tries = 0
    while True:
        tries += 1
        if tries % 200 == 0: bits += 1
        p = rng.getrandbits(bits) | (1 << (bits - 1)) | 1
        if not is_prime(p): continue
        r = sqrt_mod(D % p, p)
        if r is None: continue
        if r % 2 == 0: r = p - r if (p - r) % 2 else r
        if (r * r - D) % (4 * p): continue
        return (p, r)


def cofactor(a, b):
    L, r2, r1, co2, co1 = math.isqrt(a), a, b, 0, -1
    while r1 and r1 > L:
        sh = max(max(max(r2.bit_length(), 1), r1.bit_length()) - 63, 0)
        x2, x1, bb, a2, a1, b2, b1, i = r2 >> sh, r1 >> sh, L >> sh, 0, 1, 1, 0, 0
        while x1 and x1 > bb:
            q = x2 // x1
            t1, t2, t3 = x2 - q * x1, a2 - q * a1, b2 - q * b1
            if (t1 < -t3 or x1 - t1 < t2 - a1) if i & 1 else (t1 < -t2 or x1 - t1 < t3 - b1): break
            x2, x1, a2, a1, b2, b1 = x1, t1, a1, t2, b1, t3
            i += 1
        if i == 0:
            q = r2 // r1
            r2, r1, co2, co1 = r1, r2 - q * r1, co1, co2 - q * co1
        else:
            n2, n1, c2, c1 = r2 * b2 + r1 * a2, r1 * a1 + r2 * b1, co2 * b2 + co1 * a2, co1 * a1 + co2 * b1
            if n2 < 0: n2, c2 = -n2, -c2
            if n1 < 0: n1, c1 = -n1, -c1
            r2, r1, co2, co1 = n2, n1, c2, c1
    return -co1


def rand_form(rng, D):
    n = abs(D).bit_length()
    f = prime_form(rng, D, max(3, min(n // 4, 60)))
    return power(D, f, rng.getrandbits(max(2, n // 2)))


def fs(f): return hx(f[0]) + "," + hx(f[1])
def fj(f): return [hx(f[0]), hx(f[1])]


def order_multiple(D, f):
    """a multiple of the order of f (baby steps / giant steps; small discriminants)"""
    f = reduce(D, *f)
    if f[0] == 1: return 1
    m = int((abs(D) ** 0.5 * 2) ** 0.5) + 2
    tab, g = {}, (1, 1)
    for i in range(m):
        tab.setdefault(g, i); g = compose(D, g, f)
        if g[0] == 1: return i + 1
    giant, cur, k = g, g, m            # g = f^m
    while True:
        if cur in tab and k - tab[cur] > 0: return k - tab[cur]
        cur = compose(D, cur, giant); k += m


def _d_ok(n): return n > 0 and n % 8 == 7 and is_prime(n)


def skew_square(rng, bits, kbits):
    """(D, f): squaring f reduces the pair (a, k) with a k of about kbits bits (huge quotients)"""
    while True:
        a = rng.getrandbits(bits // 2 - 2) | (1 << (bits // 2 - 3)) | 1
        b = rng.randrange(1, a) | 1
        k = rng.getrandbits(kbits) | (1 << (kbits - 1))
        if b > a or math.gcd(a, b) != 1 or k >= a: continue
        for t in range(1, 40):
            c = (-k * b) % a + a * t
            n = 4 * a * c - b * b
            if _d_ok(n): return -n, (a, b)


def skew_pair(rng, bits, kbits):
    """(D, f, g): composing f and g reduces (a, k) with a k of about kbits bits"""
    while True:
        a1 = rng.getrandbits(bits // 2 - 2) | (1 << (bits // 2 - 3)) | 1
        a2 = rng.getrandbits(bits // 2 - 2) | (1 << (bits // 2 - 3)) | 1
        b2 = rng.randrange(1, a2) | 1
        k = rng.getrandbits(kbits) | (1 << (kbits - 1))
        if b2 > a2 or math.gcd(a1, a2) != 1 or k >= a1: continue
        for t in range(1, 40):
            c2 = (-k * (b2 + k * a2)) % a1 + a1 * t
            n = 4 * a2 * c2 - b2 * b2
            if _d_ok(n):
                b1 = (b2 + 2 * k * a2) % (2 * a1)
                if b1 > a1: b1 -= 2 * a1
                return -n, (a1, b1), (a2, b2)
