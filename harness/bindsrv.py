"""Line-protocol driver of the C interface (ctypes) and the Python module. One JSON list of calls per line,
executed on `threads` concurrent threads; the reply is the JSON list of results in call order."""
import sys, json, ctypes, threading
sys.path.insert(0, sys.argv[2])
import _chiavdf as m
lib = ctypes.CDLL(sys.argv[1])
class BA(ctypes.Structure): _fields_ = [("data", ctypes.POINTER(ctypes.c_uint8)), ("length", ctypes.c_size_t)]
lib.create_discriminant_wrapper.restype = ctypes.c_bool
lib.create_discriminant_wrapper.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_size_t, ctypes.c_void_p]
lib.prove_wrapper.restype = BA
lib.prove_wrapper.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_size_t, ctypes.c_uint64]
lib.verify_n_wesolowski_wrapper.restype = ctypes.c_bool
lib.verify_n_wesolowski_wrapper.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_size_t, ctypes.c_uint64, ctypes.c_uint64]
lib.delete_byte_array.argtypes = [BA]
u = bytes.fromhex

def nul(h): return None if h == "null" else u(h)

def call(c):
    api, op, a = c["api"], c["op"], c["a"]
    try:
        if api == "c":
            if op == "disc":
                buf = (ctypes.c_uint8 * 4096)(*([0xA5] * 4096))
                ok = lib.create_discriminant_wrapper(u(a[0]), len(u(a[0])), a[1], buf)
                n = a[1] // 8 if ok else 0
                if any(x != 0xA5 for x in buf[n:]): return "overrun"
                return bytes(buf[:n]).hex() if ok else "reject"
            if op == "prove":
                r = lib.prove_wrapper(u(a[0]), len(u(a[0])), u(a[2]), len(u(a[2])), a[1], a[3])
                if not r.data: return "reject"
                out = bytes(r.data[:r.length]).hex(); lib.delete_byte_array(r); return out
            if op == "verifyn":
                b = nul(a[2])
                return "1" if lib.verify_n_wesolowski_wrapper(u(a[0]), len(u(a[0])), nul(a[1]), b, len(b) if b is not None else a[5], a[3], a[4]) else "0"
        else:
            if op == "disc": return m.create_discriminant(u(a[0]), a[1])
            if op == "prove": return m.prove(u(a[0]), u(a[2]), a[1], a[3], "").hex()
            if op == "verifyn": return "1" if m.verify_n_wesolowski(a[0], u(a[1]), u(a[2]), a[3], a[5], a[4]) else "0"
            if op == "verify1": return "1" if m.verify_wesolowski(a[0], u(a[1]), u(a[2]), u(a[3]), a[4]) else "0"
            if op == "discn": return "1" if m.create_discriminant_and_verify_n_wesolowski(u(a[0]), a[1], u(a[2]), u(a[3]), a[4], a[5]) else "0"
            if op == "verifyb":
                r = m.verify_n_wesolowski_with_b(a[0], a[1], u(a[2]), u(a[3]), a[4], a[5]); return ["1" if r[0] else "0", r[1].hex()]
            if op == "getb": return m.get_b_from_n_wesolowski(a[0], u(a[1]), u(a[2]), a[3], a[4])
            if op == "deser":
                r = m.bqfc_deserialize(a[0], u(a[1]), *([a[2]] if a[2] is not None else [])); return [r[0].hex(), r[1].hex()]
    except Exception as e:
        return "reject"
    return "badop"

for line in sys.stdin:
    q = json.loads(line); calls, T = q["calls"], q["threads"]
    res = [None] * len(calls); nxt = [0]; lk = threading.Lock()
    def work():
        while True:
            with lk:
                i = nxt[0]; nxt[0] += 1
            if i >= len(calls): return
            res[i] = call(calls[i])
    ts = [threading.Thread(target=work) for _ in range(T)]
    for t in ts: t.start()
    for t in ts: t.join()
    print(json.dumps(res), flush=True)
