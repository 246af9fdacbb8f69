"""Runs calls on the natively compiled code.  One JSON request per line: [fn, ret, args, rng].
ret: 'v' | 'b' (bool/u8) | 'n' (usize).  args: {"i": hex} in, {"o": n} out, {"io": hex} in and out, {"n": int} usize,
{"s": hex} pointer and length, {"k": bool}.  Reply: [ret, [hex of outs...], rng bytes used]."""
import ctypes
import json
import sys

rng = ctypes.CDLL(sys.argv[1], mode=ctypes.RTLD_GLOBAL)
lib = ctypes.CDLL(sys.argv[2])
rng.vp_rng_used.restype = ctypes.c_size_t
for line in sys.stdin:
    fn, ret, args, rb = json.loads(line)
    f = getattr(lib, fn)
    f.restype = {'v': None, 'b': ctypes.c_uint8, 'n': ctypes.c_size_t}[ret]
    ca, outs = [], []
    for a in args:
        (k, v), = a.items()
        if k == 'i':
            b = bytes.fromhex(v)
            # 16-byte aligned copy
            ca.append(ctypes.byref((ctypes.c_uint64 * ((len(b) + 7) // 8 + 1)).from_buffer_copy(b + bytes(16 - len(b) % 8 + 8))))
        elif k in ('o', 'io'):
            b = bytes(v) if k == 'o' else bytes.fromhex(v)
            n = len(b)
            buf = (ctypes.c_uint64 * ((n + 7) // 8 + 1)).from_buffer_copy(b + bytes(16 - n % 8 + 8))
            outs.append((buf, n))
            ca.append(ctypes.byref(buf))
        elif k == 'n':
            ca.append(ctypes.c_size_t(v))
        elif k == 'k':
            ca.append(ctypes.c_bool(v))
        elif k == 's':
            b = bytes.fromhex(v)
            ca.append(ctypes.create_string_buffer(b, len(b) + 1))
            ca.append(ctypes.c_size_t(len(b)))
    r = bytes.fromhex(rb)
    rng.vp_rng_set(r, ctypes.c_size_t(len(r)))
    x = f(*ca)
    sys.stdout.write(json.dumps([x, [bytes(b)[:n].hex() for b, n in outs], rng.vp_rng_used()]) + '\n')
    sys.stdout.flush()
