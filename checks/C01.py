"""UTF-8 encoding of a code point and decoding back"""
import ctypes
import z3
from engine.sym import *
from .utf8 import *


def main(c):
    u = U8(c)
    cp = z3.BitVec('cp', 32)

    def search(ch):
        import random
        rnd = random.Random(c.seed)
        buf = (ctypes.c_ubyte * 16)()
        for x in list(range(0x110000)):
            if 0xD800 <= x < 0xE000: continue
            for f in ('x_to_utf8', 'x_enc'):
                ctypes.memset(buf, 0xAA, 16)
                n = getattr(u.so, f)(ctypes.c_uint(x), buf)
                if bytes(buf[:n]) != chr(x).encode() or any(b != 0xAA for b in buf[n:]): return {'function': f, 'cp': 'U+%04X' % x, 'got': bytes(buf[:8]).hex(), 'length': n, 'expected': chr(x).encode().hex()}
        for x in [0xD800, 0xDFFF, 0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF] + [rnd.randrange(1 << 32) for _ in range(200000)]:
            for f in ('x_to_utf8', 'x_enc'):
                ctypes.memset(buf, 0xAA, 16); n = getattr(u.so, f)(ctypes.c_uint(x), buf)
                if n > 4 or any(b != 0xAA for b in buf[4:]): return {'function': f, 'value': x, 'length': n}
        sz = ctypes.c_size_t(); val = ctypes.c_uint(); used = ctypes.c_long()
        for x in range(0x110000):
            if 0xD800 <= x < 0xE000: continue
            e = chr(x).encode()
            p = (ctypes.c_ubyte * 8)(*(e + b'\0' * (8 - len(e))))
            if u.so.x_once(p, ctypes.byref(sz), ctypes.byref(val)) != 2 or val.value != x or sz.value != len(e): return {'function': 'from_utf8(bytes, size)', 'bytes': e.hex(), 'got': val.value, 'size': sz.value}
            if u.so.x_range(p, ctypes.byref(used), ctypes.byref(val)) != 1 or val.value != x or used.value != len(e): return {'function': 'decoder<char>(iterator)', 'bytes': e.hex(), 'got': val.value, 'consumed': used.value}
        return u.search()
    c.searcher = search
    for f, nm in (('x_to_utf8', 'to_utf8(char32_t, uint8_t*)'), ('x_enc', 'encoder<char>::operator()')):
        v = Verifier(u.mod, [])
        o = v.reg(v.new_cells('result', 4))
        r, st = u.call(v, State(True, {}), f, [cp, Ptr(o)])
        r = v.mat(r); w = 32 if f == 'x_to_utf8' else 64
        r32 = r if w == 32 else trunc(r, 64, 32)
        v.oblige('at most four bytes are reported for any 32-bit value', st.g, cmpop('ule', r, 4, w), fn=nm)
        v.oblige('the number of bytes equals the standard form', And(st.g, scalar(cp)), eqv(r32, enc_len(cp), 32), fn=nm)
        for n in (1, 2, 3, 4):
            for k in range(n):
                x = v.load_bytes(st, o, Off(0, None, k), 1, True)
                v.oblige('byte %d of a %d-byte form equals the standard form' % (k, n), And(st.g, scalar(cp), eqv(enc_len(cp), n, 32)), eqv(x, enc_byte(cp, n, k), 8), fn=nm)
            for k in range(n, 4):
                x = v.load_bytes(st, o, Off(0, None, k), 1, True)
                v.oblige('byte %d is untouched by a %d-byte form' % (k, n), And(st.g, eqv(r32, n, 32)), eqv(x, v.initbyte(o, k), 8), fn=nm)
        c.contracts.append(nm); c.discharge(v)
    # the specified form itself against an independent encoder, every scalar value
    bad = next((x for x in range(0x110000) if not 0xD800 <= x < 0xE000 and bytes(enc_byte(x, enc_len(x), k) & 255 for k in range(enc_len(x))) != chr(x).encode()), None)
    c.ground('the specified form is the standard UTF-8 form', bad is None, str(bad), 'specification', 0x110000 - 0x800)
    # decoding: the real step functions, composed
    for kind, f, full in (('from_utf8', 'x_step', 2), ('decoder', 'x_dec', 1)):
        u.step_contract(kind)
        nm = 'round trip through ' + kind
        for n in (1, 2, 3, 4):
            v = Verifier(u.mod, []); st = State(True, {})
            o = u.state(v, kind); val = v.reg(v.new_cells('value', 4))
            v.fact(zb(And(scalar(cp), eqv(enc_len(cp), n, 32)))); v.fact(zb(eqv(u.fields(v, st, o, kind)[0], 0, 32)))
            c.satisfiable(nm, [scalar(cp), eqv(enc_len(cp), n, 32)])
            for k in range(n):
                r, st = u.call(v, st, f, [Ptr(o), enc_byte(cp, n, k), Ptr(val)])
                if k < n - 1: v.oblige('nothing is delivered before the last byte', st.g, eqv(r, 1 if kind == 'from_utf8' else 0, 32), fn=nm)
                else:
                    v.oblige('the last byte completes the character', st.g, eqv(r, full, 32), fn=nm)
                    v.oblige('the character is the encoded one', st.g, eqv(v.load_bytes(st, val, Off(0, None, 0), 4, True), cp, 32), fn=nm)
            v.oblige('the decoder is between characters again', st.g, eqv(u.fields(v, st, o, kind)[0], 0, 32), fn=nm)
            c.discharge(v)
    # one-shot decoders read exactly the character
    for f, nm, w in (('x_once', 'from_utf8(bytes, size)', 2), ('x_range', 'decoder<char>::operator()(iterator)', 1)):
        for n in (1, 2, 3, 4):
            v = Verifier(u.mod, [], {'unroll_symbolic': 'x_once|from_utf8'}); st = State(True, {})
            p = v.reg(v.new_cells('bytes', n)); p.cinit = {k: (enc_byte(cp, n, k), 1) for k in range(n)}
            v.fact(zb(And(scalar(cp), eqv(enc_len(cp), n, 32))))
            sz = v.reg(v.new_cells('size', 8)); val = v.reg(v.new_cells('value', 4))
            r, st = u.call(v, st, f, [Ptr(p), Ptr(sz), Ptr(val)])
            v.oblige('the character is complete', st.g, eqv(r, w, 32), fn=nm)
            v.oblige('the character is the encoded one', st.g, eqv(v.load_bytes(st, val, Off(0, None, 0), 4, True), cp, 32), fn=nm)
            v.oblige('the reported size is the length of the form', st.g, eqv(v.load_bytes(st, sz, Off(0, None, 0), 8, True), n, 64), fn=nm)
            c.discharge(v)
        c.contracts.append(nm)
