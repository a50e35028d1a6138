"""C01-C03: the packet encoder and decoder."""
from .common import *

KSTORE = "param"

def enc_paths(R):
    f = R.prog.need("proto_crypt_enc")
    ps = params(f)
    if len(ps) != 4: raise Broken("proto_crypt_enc no longer takes (ibuf, len, obuf, k)")
    st = State()
    st.iv[ps[1]] = (0, INF)
    e, a, res = analyse(R, f, ps, st, crypto.MODELS, on_store=record_store(lambda b: b.op != "stk"))
    return f, a, alive(res)

def dec_paths(R):
    f = R.prog.need("proto_crypt_dec")
    ps = params(f)
    if len(ps) != 3: raise Broken("proto_crypt_dec no longer takes (ibuf, obuf, k)")
    e, a, res = analyse(R, f, ps, State(), crypto.MODELS, on_store=record_store(lambda b: b.op != "stk"))
    return f, a, alive(res)

def mac_of(st, b):
    """(hmac base content, message) of a 32-byte string that is a complete HMAC"""
    if b.op == "b.fn" and b.a[0] == "HMAC":
        return b.a[1], b.a[2]
    return None

def pnum_of(st, msg, body):
    """the number n when msg == body || be64(n), else None"""
    if msg.op != "b.cat": return None
    tail = msg.a[-1]
    if bsize(tail) is not c(8): return None
    head = bcat(list(msg.a[:-1]))
    if not b_eq(st, head, body): return None
    if tail.op == "b.be": return st.simp(tail.a[1])
    if tail.op == "b.fill" and tail.a[0] is ZERO: return ZERO
    return None

def verified(st, ibuf):
    """packet number n if the state knows HMAC(hctx, ibuf[0..1028) || be64(n)) == ibuf[1028..1060), compared in full"""
    body = mk("b.mem", ibuf, ("init", 0), ZERO, c(1028))
    mac = mk("b.mem", ibuf, ("init", 0), c(1028), c(32))
    for b, v in st.bf.items():
        if b.op != "eq0" or v is not True: continue
        t = b.a[0]
        if t.op != "verify" or t.a[2] is not c(32): continue
        for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            if b_eq(st, y, mac):
                m = mac_of(st, x)
                if m:
                    n = pnum_of(st, m[1], body)
                    if n is not None:
                        return m[0], n
    return None

def is_cell(t, base):
    return t.op == "ld" and t.a[0] is base and t.a[1] == ("init", 0)

def C01(R):
    """Path-sensitive dataflow over proto_crypt_dec (all paths, symbolic packet) and over the data pipe's callbacks:
    every use of the packet is dominated by the complete MAC comparison; failing paths write nothing and are reported
    as a broken connection."""
    f, (ib, ob, k), res = dec_paths(R)
    w = where(f)
    R.need(len(res), "decoder-paths", 3)
    hk = set()
    nsucc = 0
    for s, r in res:
        for e in s.evlist():
            uses = None
            if e.kind == "store":
                uses = "store to %s" % show(base_off(e.args[0])[0])
            elif e.name == "aesctr":
                uses = "decryption"
            if uses:
                v = verified(e.st, ib)
                R.ok(v is not None, "use-after-full-mac-check", w + " " + locs(e),
                     "%s must be reached only after HMAC(key, ibuf[0..1028) || be64(packet number)) was compared in full with ibuf[1028..1060) and found equal" % uses, s)
                if v: hk.add(v[0])
        v = verified(s, ib)
        lo, hi = s.bounds(r)
        if v is None or hi < 0:
            R.ok(hi < 0, "failure-reported", w, "a path on which the MAC is not known to match must return a negative value, returns %s" % show(r), s)
            outs = [e for e in s.evlist() if e.kind == "store" and base_off(e.args[0])[0] is ob]
            R.ok(not outs, "no-output-on-failure", w, "a failing path must not write the output buffer", s)
            if v is None:
                ch = [e for e in s.evlist() if e.kind == "store"]
                R.ok(not ch, "nothing-changes-on-mac-failure", w, "a path without a verified MAC must not write anything: %s" % ch[:1], s)
        else:
            nsucc += 1
            hk.add(v[0])
            R.ok(is_cell(v[1], k), "expected-number", w, "the MACed number must be the receiver's current packet number, is %s" % show(v[1]), s)
            st = [e for e in s.evlist() if e.kind == "store" and base_off(e.args[0])[0] is k]
            R.ok(lo >= 0, "success-nonneg", w, "return value %s" % show(r), s)
    R.need(nsucc, "decoder-success-path")
    for h in hk:
        R.ok(h.op == "b.mem" and h.a[0] is k and h.a[1] == ("init", 0), "mac-key-from-k", w, "the MAC must be keyed from the receiving direction's key object, is %s" % show(h))
    from .pipe import C01_pipe
    C01_pipe(R)

def counter_cell(R, f, k, res):
    """offset of the packet-number field, from the MAC computation"""
    offs = set()
    for s, r in res:
        for e in s.evlist():
            if e.kind == "call" and e.name == "HMAC_SHA256_Final" or e.kind == "call" and e.name == "HMAC_SHA256_Buf":
                m = mac_of(s, e.x)
                if m and m[1].op == "b.cat" and m[1].a[-1].op == "b.be":
                    for t in subterms(m[1].a[-1].a[1]):
                        if isinstance(t, T) and is_cell(t, k): offs.add(t.a[2])
    return offs

def final_cell(s, k, off):
    return s.simp(mem_read(s, k, off, 8, False))

def C02(R):
    """Value analysis of the packet counter over proto_crypt_enc, proto_crypt_dec, the key constructor, and a
    who-may-write scan of every store to the counter field."""
    f, (ib, ln, ob, k), res = enc_paths(R)
    w = where(f)
    R.need(len(res), "encoder-paths")
    offs = counter_cell(R, f, k, res)
    if len(offs) != 1:
        R.ok(False, "one-counter", w, "the encoder's MAC must cover exactly one 64-bit packet number read from the key object; found %s" % [show(o) for o in offs])
        return
    off = offs.pop()
    cell = mk("ld", k, ("init", 0), off, c(8))
    for s, r in res:
        nk = 0
        for e in s.evlist():
            if e.kind == "call" and e.name == "aesctr":
                nk += 1
                R.ok(e.x.a[2] is cell and e.x.a[3] is ZERO, "keystream-number", w + " " + locs(e),
                     "the keystream must be selected by the current packet number from its start; nonce is %s, position %s" % (show(e.x.a[2]), show(e.x.a[3])), s)
        R.ok(nk == 1, "one-keystream-per-packet", w, "a packet must be encrypted exactly once; encryptions on this path: %d" % nk, s)
        body = content(s, ob, ZERO, c(1028)); mac = content(s, ob, c(1028), c(32))
        m = mac_of(s, mac)
        n = pnum_of(s, m[1], body) if m else None
        R.ok(n is cell, "mac-covers-number", w, "the MAC sent must cover the encrypted body followed by be64 of the number that selected the keystream; number is %s" % (show(n) if n is not None else "not found"), s)
        R.ok(final_cell(s, k, off) is addc(cell, 1), "send-advances-by-one", w, "after a packet the number must be old+1, is %s" % show(final_cell(s, k, off)), s)
    f2, (ib, ob, k), res2 = dec_paths(R)
    w2 = where(f2)
    offs2 = counter_cell(R, f2, k, res2)
    R.ok(offs2 == {off}, "same-counter", w2, "encoder and decoder must number packets with the same field; decoder uses %s" % [show(o) for o in offs2])
    cell = mk("ld", k, ("init", 0), off, c(8))
    for s, r in res2:
        lo, hi = s.bounds(r)
        v = verified(s, ib)
        fin = final_cell(s, k, off)
        if hi >= 0:
            R.ok(fin is addc(cell, 1), "accept-advances-by-one", w2, "after an accepted packet the number must be old+1, is %s" % show(fin), s)
            R.ok(v is not None and v[1] is cell, "mac-expects-number", w2, "an accepted packet's MAC must have been checked for the current number", s)
            for e in s.evlist():
                if e.name == "aesctr":
                    R.ok(e.x.a[2] is cell and e.x.a[3] is ZERO, "keystream-number", w2 + " " + locs(e), "keystream number is %s, the number MACed is %s" % (show(e.x.a[2]), show(cell)), s)
        elif v is None:
            R.ok(fin is cell, "reject-keeps-number", w2, "after a rejected packet the number must be unchanged, is %s" % show(fin), s)
    # creation
    g = R.prog.need("proto_crypt_mkkeys")
    from .keys import mkkeys_paths
    gf, ga, objs, gres = mkkeys_paths(R)
    n = 0
    for s, r, kc, ks in gres:
        if kc is None: continue
        for nm, kk in (("client", kc), ("server", ks)):
            n += 1
            R.ok(final_cell(s, kk, off) is ZERO, "starts-at-zero", where(gf), "the %s's first packet number must be 0, is %s" % (nm, show(final_cell(s, kk, off))), s)
    R.need(n, "key-construction", 2)
    # who else writes the field
    allowed = {"proto_crypt_enc", "proto_crypt_dec", "proto_crypt_mkkeys"}
    writers = field_writers(R, f.mod, off)
    R.need(len(writers), "counter-writers", 1)
    for fn, loc in writers:
        roots = external_callers(R, fn)
        R.ok(roots <= allowed, "who-writes-counter", "%s:%s" % loc,
             "the packet number may be written only on behalf of %s; %s is reachable from %s" % (sorted(allowed), fn.name, sorted(roots)))

def field_writers(R, mod, off):
    """stores through a pointer computed as &(struct proto_keys)->field at byte offset off"""
    sname = None
    out = []
    for fn in mod.funcs.values():
        for b in fn.order:
            defs = {}
            for I in fn.blocks[b]:
                pass
        gd = {}
        for b in fn.order:
            for I in fn.blocks[b]:
                if I.op == "gep" and I.ty.k == "named" and len(I.a) == 3 and I.a[2][1][0] == "i":
                    st = mod.res(I.ty)
                    if st.k == "struct" and len(st.e) == 3 and mod.layout(st)[0][I.a[2][1][1]] == cv(off) and "keys" in I.ty.name:
                        gd[I.res] = I
        for b in fn.order:
            for I in fn.blocks[b]:
                if I.op == "store" and I.a[1][0] == "r" and I.a[1][1] in gd:
                    out.append((fn, mod.loc(I.dbg)))
    return out

def external_callers(R, fn):
    """names of the non-static functions from which a static function is reached (itself when not static)"""
    if not fn.internal:
        return {fn.name}
    out = set(); seen = {fn.name}; work = [fn]
    while work:
        g = work.pop()
        for h in g.mod.funcs.values():
            for b in h.order:
                for I in h.blocks[b]:
                    if I.op == "call" and I.x == ("g", g.name):
                        if not h.internal: out.add(h.name)
                        elif h.name not in seen:
                            seen.add(h.name); work.append(h)
    return out

def C03(R):
    """Content analysis: the byte string the encoder leaves in its output for a symbolic length, and the byte string
    and length the decoder produces from a symbolic packet, compared with the one layout."""
    f, (ib, ln, ob, k), res = enc_paths(R)
    w = where(f)
    R.need(len(res), "encoder-paths")
    full = False
    for s, r in res:
        lo, hi = s.bounds(ln)
        if lo <= 1 and hi >= 1024: full = True
        R.ok(hi <= 1024, "length-bounded", w, "the encoder may run with length up to %s" % hi, s)
        body = content(s, ob, ZERO, c(1028))
        plain = body.a[4] if body.op == "b.fn" and body.a[0] == "AESCTR" else None
        want = bcat([mk("b.mem", ib, ("init", 0), ZERO, s.simp(ln)), mk("b.fill", ZERO, sub(c(1024), s.simp(ln))), mk("b.be", 4, s.simp(ln))])
        if lo == hi == 0: want = bcat([mk("b.fill", ZERO, c(1028))])
        okp = plain is not None and (b_eq(s, plain, want) or norm_zero(s, plain) is norm_zero(s, want))
        R.ok(okp, "plaintext-layout", w, "bytes encrypted must be data || zeros to 1024 || be32(length), all encrypted as one 1028-byte string; found %s" % show(body), s)
        mac = content(s, ob, c(1028), c(32))
        m = mac_of(s, mac)
        R.ok(m is not None and m[1].op == "b.cat" and b_eq(s, bcat(list(m[1].a[:-1])), body), "mac-position", w,
             "bytes 1028..1060 of the packet must be the 32-byte MAC over the encrypted 1028 bytes; found %s" % show(mac), s)
        for e in s.evlist():
            if e.kind == "store" and base_off(e.args[0])[0] is ob:
                o = base_off(e.args[0])[1]
                R.ok(s.lb(o) >= 0 and s.ub(add(o, e.args[1])) <= 1060, "packet-bounds", w + " " + locs(e), "store at offset %s size %s leaves the 1060-byte packet" % (show(o), show(e.args[1])), s)
    R.ok(full or len(res) > 1, "all-lengths", w, "the encoder must produce a packet for every length 1..1024")
    lens = [s.bounds(ln) for s, r in res]
    R.ok(covers(lens, 1, 1024), "all-lengths", w, "the encoder must accept every length 1..1024; accepts %s" % lens)
    f2, (ib, ob, k), res2 = dec_paths(R)
    w2 = where(f2)
    acc = []
    for s, r in res2:
        lo, hi = s.bounds(r)
        v = verified(s, ib)
        if hi < 0: continue
        bodies = [e.x for e in s.evlist() if e.name == "aesctr"]
        if not R.ok(len(bodies) == 1 and b_eq(s, bodies[0].a[4], mk("b.mem", ib, ("init", 0), ZERO, c(1028))), "decrypts-body", w2, "the decoder must decrypt exactly the 1028-byte body once; %s" % [show(b) for b in bodies], s):
            continue
        p = bodies[0]
        lf = mk("be", 4, bslice(s, p, c(1024), c(4)))
        rr = r
        if rr.op in ("zx", "tr"): rr = rr.a[1]
        R.ok(rr is lf, "length-field", w2, "the returned length must be the big-endian integer in bytes 1024..1028 of the decrypted body; is %s" % show(r), s)
        acc.append((lo, hi))
        out = content(s, ob, ZERO, r)
        R.ok(b_eq(s, out, bslice(s, p, ZERO, r)), "output-bytes", w2, "the output must be the first `length' decrypted bytes; is %s" % show(out), s)
        for e in s.evlist():
            if e.kind == "store" and base_off(e.args[0])[0] is ob:
                o = base_off(e.args[0])[1]
                R.ok(s.lb(o) >= 0 and s.lb(sub(r, add(o, e.args[1]))) >= 0, "output-bounds", w2 + " " + locs(e), "the decoder must output exactly `length' bytes; writes %s bytes at %s" % (show(e.args[1]), show(o)), s)
    R.ok(acc and min(a for a, b in acc) == 1 and max(b for a, b in acc) == 1024 and covers(acc, 1, 1024), "accepted-lengths", w2,
         "exactly the lengths 1..1024 must be accepted; accepted intervals: %s" % acc)

def norm_zero(s, b):
    b = simp_b(s, b)
    return b

def covers(iv, lo, hi):
    cur = lo
    for a, b in sorted(iv):
        if a <= cur: cur = max(cur, b + 1)
    return cur > hi
