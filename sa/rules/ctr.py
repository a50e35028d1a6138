"""The stream cipher mode: C34."""
from .common import *
from ..bytewise import *

AES = "libcperciva/crypto/crypto_aesctr.c"

class Ctr:
    def __init__(self, R):
        self.R = R; self.n = {"calls": 0, "bytes": 0, "blocks": 0}
        self.f = {n: R.prog.need(n) for n in ("crypto_aesctr_alloc", "crypto_aesctr_init", "crypto_aesctr_init2", "crypto_aesctr_stream", "crypto_aesctr_free", "crypto_aesctr_buf")}
    def ev(self, hw):
        def enc(ev, a, loc):
            self.n["blocks"] += 1
            ev.store(a[1], self.aes(tuple(ev.load(a[0], 16, loc)), a[2], loc), loc)
        def encv(ev, a, loc):
            self.n["blocks"] += 1
            return ("B", tuple(self.aes(tuple(tobytes(a[0], 16)), a[1], loc)))
        e = Ev(self.R.prog, {"crypto_aes_encrypt_block": enc, "crypto_aes_encrypt_block_aesni_m128i": encv, "crypto_aes_can_use_intrinsics": lambda ev, a, loc: hw})
        e.key = Obj("the key", 0)
        return e
    def aes(self, blk, key, loc):
        return [("aes", key.o.name if isinstance(key, Ptr) and key.off == 0 else "?", blk, i) for i in range(16)]
    def want(self, pos, k, m=0):
        """keystream byte number pos + (k, m)-offset: position = 16 * (k + m*h) + pos"""
        q = pos // 16
        be = linbytes(k + q, m, 8)[::-1]
        blk = tuple(("nonce", i) for i in range(8)) + tuple(be)
        return ("aes", "the key", blk, pos % 16)
    def nonce(self): return ("B", tuple(("nonce", 7 - i) for i in range(8)))
    def stream(self, e, s, pos, n, alias, k=0, m=0, tag="", base=0):
        """one call processing n bytes when the position is 16*(k + m*h) + pos"""
        R = self.R
        self.n["calls"] += 1; self.n["bytes"] += n
        src = [("in", base + i) for i in range(n)]
        i_ = Obj("the input buffer", n, list(src))
        o = i_ if alias else Obj("the output buffer", n)
        try: e.call(self.f["crypto_aesctr_stream"], [s, Ptr(i_, 0), Ptr(o, 0), n])
        except Bad as x: return self.bad(x, "%d bytes at %s" % (n, tag))
        ok = True
        for i in range(n):
            w = xorb(src[i], self.want(pos + i, k, m))
            if o.b[i] != w:
                ok = False
                R.ok(False, "keystream-position", where(self.f["crypto_aesctr_stream"]), "processing %d bytes %s%s: output byte %d is %s, not the input byte exclusive-or keystream byte number %s" % (n, tag, " in place" if alias else "", i, self.show(o.b[i]), "16*(%d+%d*h)+%d" % (k, m, pos + i)), None, "keystream|%s" % ("hw" if e.hw else "sw"))
                break
        else: R.ok(True, "keystream-position", tag, "")
        if not alias: R.ok(i_.b == src, "input-unchanged", where(self.f["crypto_aesctr_stream"]), "the input buffer was changed")
        return ok
    def bad(self, x, what):
        self.R.ok(False, "stays-in-bounds", "%s:%s" % (x.loc[0].split("/repo/")[-1], x.loc[1]), "%s while processing %s" % (x.what, what)); return False
    def show(self, b):
        if isinstance(b, tuple) and b and b[0] == "aes": return "keystream byte %d of a block" % b[3]
        if isinstance(b, tuple) and b and b[0] == "xor": return "the exclusive-or of " + " and ".join(sorted(self.show(x) for x in b[1]))
        if isinstance(b, tuple) and b and b[0] == "in": return "input byte %d" % b[1]
        return str(b)

def snapshot(o): return list(o.b)

def C34(R):
    """The stream functions are evaluated byte by byte on the program's IR: the key and nonce and all data are symbols, the cipher is an
    uninterpreted function of a 16-byte block, and each output byte must be input byte XOR byte (position mod 16) of the cipher of
    nonce || big-endian (position / 16) -- for every offset within a block, every length up to a bound, in place or not, on the software
    and the AES-NI path, at the start of a stream, across the points where counter bytes carry, and at block number 256h + l with h
    unknown (started from the representation every processed stream is shown to reach).  Also: buffers are not overrun, a stream
    re-initialised with or without a new key starts at position 0, and the one-call function gives the same bytes."""
    Q = Ctr(R)
    th = R.tier == "thorough"
    lens = list(range(0, 71 if th else 52)) + ([80, 96, 97, 127, 128, 129, 160, 255, 256, 257, 512] if th else [64, 65, 97])
    layout = None
    for hw in (0, 1):
        tagh = "on the %s path" % ("AES-NI" if hw else "portable")
        # the start of a stream, and every canonical position reached from it
        e = Q.ev(hw); e.hw = hw
        try:
            s = e.call(Q.f["crypto_aesctr_init"], [Ptr(e.key, 0), Q.nonce()])
        except Bad as x: Q.bad(x, "nothing"); continue
        except Undecided as x: raise Broken("crypto_aesctr_init decides on its nonce (%s)" % (x,))
        if not isinstance(s, Ptr):
            R.ok(False, "stream-made", where(Q.f["crypto_aesctr_init"]), "no stream came back"); continue
        start = snapshot(s.o)
        canon = True; seen = 0
        def check_canon(pos, k=0, m=0):
            """the representation at a position: key, count, last block, its cipher"""
            b = s.o.b
            if len(b) != 48: return False
            if frombytes(b[8:16]) != (Lin(16 * k + pos, 16 * m) if m else 16 * k + pos): return False
            if b[32:40] != [("nonce", i) for i in range(8)]: return False
            if b[0:8] != tobytes(Ptr(e.key, 0), 8): return False
            if pos + 16 * k == 0 and not m: return b[47] == 255
            q = (pos - 1) // 16
            if b[40:48] != linbytes(k + q, m, 8)[::-1]: return False
            return pos % 16 == 0 or b[16:32] == [Q.want((pos // 16) * 16 + i, k, m) for i in range(16)]
        canon &= check_canon(0)
        bad = False
        for b0 in range(16):
            for n in lens:
                for alias in (0, 1):
                    if alias and n % 7 and not th: continue
                    s.o.b = list(start)
                    try:
                        if b0: 
                            if not Q.stream(e, s, 0, b0, 0, tag="at the start of a stream " + tagh): bad = True; break
                        if not Q.stream(e, s, b0, n, alias, tag="after %d bytes %s" % (b0, tagh), base=100): bad = True; break
                        canon &= check_canon(b0 + n)
                        for n3 in ((1, 17) if not th else (1, 15, 17, 33)):
                            sn = snapshot(s.o)
                            if not Q.stream(e, s, b0 + n, n3, 0, tag="after %d and %d bytes %s" % (b0, n, tagh), base=1000): bad = True; break
                            s.o.b = sn
                    except Undecided as x: raise Broken("the stream functions branch on data at %s" % (x,))
                    if bad: break
                if bad: break
            if bad: break
        # re-initialising
        s.o.b = list(start)
        try:
            Q.stream(e, s, 0, 21, 0, tag="before re-initialising " + tagh)
            e.call(Q.f["crypto_aesctr_init2"], [s, 0, Q.nonce()])
            Q.stream(e, s, 0, 40, 0, tag="after re-initialising without a new key " + tagh)
            k2 = Obj("another key", 0)
            e.call(Q.f["crypto_aesctr_init2"], [s, Ptr(k2, 0), Q.nonce()])
            o = Obj("the output buffer", 5)
            e.call(Q.f["crypto_aesctr_stream"], [s, Ptr(Obj("the input buffer", 5, [0] * 5), 0), Ptr(o, 0), 5])
            R.ok(all(x[0] == "aes" and x[1] == "another key" for x in o.b if isinstance(x, tuple)) and all(isinstance(x, tuple) for x in o.b), "key-replaced", where(Q.f["crypto_aesctr_init2"]), "after re-initialising with a new key, the keystream is not made with it")
            # one call
            for n in [1060, 0, 1, 15, 16, 17, 1028] if not th else list(range(0, 70)) + [1028, 1060, 4112]:
                src = [("in", i) for i in range(n)]; i_ = Obj("the input buffer", n, list(src))
                e.call(Q.f["crypto_aesctr_buf"], [Ptr(e.key, 0), Q.nonce(), Ptr(i_, 0), Ptr(i_, 0), n])
                R.ok(i_.b == [xorb(src[i], Q.want(i, 0)) for i in range(n)], "one-call", where(Q.f["crypto_aesctr_buf"]), "crypto_aesctr_buf of %d bytes in place gives other bytes than the keystream from position 0" % n)
            # carries: reach the blocks around 256 by processing
            for big in ((4064,) if not th else (4000, 4064, 4079, 4096, 65456 - 4096)):
                s.o.b = list(start)
                i_ = Obj("the input buffer", big, [0] * big)
                e.call(Q.f["crypto_aesctr_stream"], [s, Ptr(i_, 0), Ptr(i_, 0), big])
                R.ok(i_.b == [Q.want(i, 0) for i in range(big)], "keystream-position", where(Q.f["crypto_aesctr_stream"]), "%d bytes at once %s: wrong keystream" % (big, tagh))
                sn = snapshot(s.o)
                for n in (1, 16, 30, 31, 32, 33, 48, 64, 100):
                    for n2 in (1, 16, 40):
                        s.o.b = list(sn)
                        if Q.stream(e, s, big, n, 0, tag="after %d bytes %s" % (big, tagh)):
                            Q.stream(e, s, big + n, n2, 0, tag="after %d and %d bytes %s" % (big, n, tagh), base=1000)
            sn = snapshot(s.o)
            e.call(Q.f["crypto_aesctr_free"], [s])
            R.ok(s.o.dead, "freed", where(Q.f["crypto_aesctr_free"]), "the stream is not freed")
            e.call(Q.f["crypto_aesctr_free"], [0])
            s.o.dead = False
        except Bad as x: Q.bad(x, "a stream " + tagh); continue
        except Undecided as x: raise Broken("the stream functions branch on data at %s" % (x,))
        # any block number
        if bad: continue
        def jump(k, m, b0):
            s.o.b = list(start)
            s.o.b[8:16] = tobytes(Lin(16 * k + b0, 16 * m) if m else 16 * k + b0, 8)
            q = k if b0 else k - 1
            s.o.b[40:48] = linbytes(q, m, 8)[::-1]
            s.o.b[16:32] = [Q.want(i, q, m) for i in range(16)]
        R.notes.append("%s: every state reached from the start has the canonical representation: %s" % (tagh, canon))
        if not canon:
            R.notes.append("the representation of a stream is not the one known; positions beyond those reachable by processing 64 kB are not covered")
            continue
        cases = [(256 * 0 + l, 256) for l in (1, 2, 100, 253, 254, 255, 256)]
        und = False
        for k, m in cases:
            try: und |= one(Q, R, e, s, jump, check_canon, k, m, "block %d+256h, " % k + tagh, th)
            except Undecided: und = True; break
        if und:
            R.notes.append(tagh + ": carries decided byte by byte; concrete block numbers at every carry instead of an unknown h")
            for j in range(1, 8):
                for d in (-2, -1, 0, 1):
                    try: one(Q, R, e, s, jump, check_canon, (1 << (8 * j)) * 3 + d if j < 7 else (1 << 55) + d, 0, "block 3*2^%d%+d, " % (8 * j, d) + tagh, th)
                    except Undecided as x: raise Broken("the stream functions branch on data at %s" % (x,))
        R.stats["functions"] |= e.funcs; R.stats["steps"] += e.steps; R.stats["calls"] += e.ncalls
    R.stats["paths"] += Q.n["calls"]
    R.notes.append("stream calls evaluated: %(calls)d, bytes compared: %(bytes)d, cipher blocks: %(blocks)d" % Q.n)
    if not R.viol: R.need(Q.n["blocks"], "cipher-blocks", 1000)

def one(Q, R, e, s, jump, canon, k, m, tag, th):
    for b0 in range(16):
        for n in ((1, 15, 16, 17, 31, 33, 48, 49) if not th else range(1, 66)):
            jump(k, m, b0)
            if not Q.stream(e, s, b0, n, n & 1, k, m, tag="at byte %d of %s" % (b0, tag)): return False
            R.ok(canon(b0 + n, k, m), "state-carries-on", where(Q.f["crypto_aesctr_stream"]), "after %d bytes at byte %d of %s the stream no longer records its position (count, last block, its cipher)" % (n, b0, tag), None, "state|%s" % tag.split(",")[-1])
    return False
