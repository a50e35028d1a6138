"""Models of the cryptographic primitives as uninterpreted functions of the byte strings they are given."""
from .terms import *
from .absint import content, mem_write, mem_region
from .models import set_errno, chk_freed, new_heap

def tsize(e, name):
    for m in e.prog.mods.values():
        for n in (name, "struct." + name, "struct.libcperciva_" + name):
            if n in m.types:
                try:
                    from .ir import Ty
                    return m.size(Ty("named", 0, None, n))
                except Exception:
                    continue
    return None

def ctxsize(e, kind):
    n = {"hm": "HMAC_SHA256_CTX", "sha": "SHA256_CTX"}[kind]
    z = e.__dict__.setdefault("_ctxsz", {}).get(n)
    if z is None:
        z = tsize(e, n)
        if z is None:
            z = {"hm": 208, "sha": 104}[kind]
        e._ctxsz[n] = z
    return c(z)

def rdc(e, st, p, n, fr, ins):
    n = st.simp(n)
    if n is ZERO:
        return mk("b.const", b"")
    b, o = base_off(p)
    chk_freed(e, st, b, p, fr, ins)
    if b is None:
        return mk("b.unk", ("null",), n)
    e.region_init(st, b)
    return content(st, b, o, n)

def wrc(e, st, p, n, v, fr, ins):
    b, o = base_off(p)
    chk_freed(e, st, b, p, fr, ins)
    if b is None: return
    if e.cfg.on_store: e.cfg.on_store(e, st, b, o, n, v, fr, ins)
    mem_write(st, b, o, st.simp(n), v)

def unctx(v, tag):
    if v.op == "b.fn" and v.a[0] == tag:
        return v.a[1], v.a[2]
    return v, mk("b.const", b"")

def mk_init(tag, key):
    def f(e, st, fr, a, ins):
        k = rdc(e, st, a[1], a[2], fr, ins) if key else mk("b.const", b"")
        z = ctxsize(e, tag)
        wrc(e, st, a[0], z, mk("b.fn", tag, k if key else mk("shainit"), mk("b.const", b""), z), fr, ins)
        e.event(st, "call", ("HMAC_SHA256" if key else "SHA256") + "_Init", tuple(a), None, fr, ins, k)
        return [(st, None)]
    return f

def mk_update(tag):
    def f(e, st, fr, a, ins):
        z = ctxsize(e, tag)
        k, m = unctx(rdc(e, st, a[0], z, fr, ins), tag)
        d = rdc(e, st, a[1], a[2], fr, ins)
        wrc(e, st, a[0], z, mk("b.fn", tag, k, bcat([m, d]), z), fr, ins)
        e.event(st, "call", ("HMAC_SHA256" if tag == "hm" else "SHA256") + "_Update", tuple(a), None, fr, ins, d)
        return [(st, None)]
    return f

def mk_final(tag):
    out = {"hm": "HMAC", "sha": "SHA256"}[tag]
    def f(e, st, fr, a, ins):
        z = ctxsize(e, tag)
        k, m = unctx(rdc(e, st, a[1], z, fr, ins), tag)
        d = mk("b.fn", out, k, m, c(32))
        wrc(e, st, a[0], c(32), d, fr, ins)
        wrc(e, st, a[1], z, mk("b.fill", ZERO, z), fr, ins)
        e.event(st, "call", ("HMAC_SHA256" if tag == "hm" else "SHA256") + "_Final", tuple(a), None, fr, ins, d)
        return [(st, None)]
    return f

def hmac_buf(e, st, fr, a, ins):
    k = rdc(e, st, a[0], a[1], fr, ins); m = rdc(e, st, a[2], a[3], fr, ins)
    d = mk("b.fn", "HMAC", k, m, c(32))
    wrc(e, st, a[4], c(32), d, fr, ins)
    e.event(st, "call", "HMAC_SHA256_Buf", tuple(a), None, fr, ins, d)
    return [(st, None)]

def sha_buf(e, st, fr, a, ins):
    m = rdc(e, st, a[0], a[1], fr, ins)
    d = mk("b.fn", "SHA256", mk("shainit"), m, c(32))
    wrc(e, st, a[2], c(32), d, fr, ins)
    e.event(st, "call", "SHA256_Buf", tuple(a), None, fr, ins, d)
    return [(st, None)]

def pbkdf2(e, st, fr, a, ins):
    p = rdc(e, st, a[0], a[1], fr, ins); s = rdc(e, st, a[2], a[3], fr, ins)
    d = mk("b.fn", "PBKDF2", p, s, a[4], a[6])
    wrc(e, st, a[5], a[6], d, fr, ins)
    e.event(st, "call", "PBKDF2_SHA256", tuple(a), None, fr, ins, (p, s, a[4], a[6]))
    return [(st, None)]

def key_expand(e, st, fr, a, ins):
    k = rdc(e, st, a[0], a[1], fr, ins)
    t = atom("heap", "aeskey", st.fresh(), ins.dbg or 0, p=True)
    st.wmem()[t] = mem_region(st, t)
    mem_write(st, t, ZERO, c(272), mk("b.fn", "aeskey", k, c(272)))
    e.event(st, "call", "crypto_aes_key_expand", tuple(a), t, fr, ins, k)
    set_errno(st, "aeskey")
    return [(st, t)]

def key_free(e, st, fr, a, ins):
    from .absint import Region
    p = st.simp(a[0])
    if st.isnull(p) is True:
        return [(st, None)]
    ev = e.event(st, "call", "crypto_aes_key_free", (p,), None, fr, ins)
    b, o = base_off(p)
    if b is not None:
        r = mem_region(st, b)
        if r.freed is not None:
            e.event(st, "mem", "double-free", (p,), None, fr, ins, r.freed)
        st.wmem()[b] = Region(r.d, r.segs, ev, r.size)
    return [(st, None)]

def aeskey(st, p):
    """what a key pointer stands for"""
    b, o = base_off(p)
    r = st.mem.get(b)
    if r is not None and r.segs:
        v = r.segs[-1][2]
        if v.op == "b.fn" and v.a[0] == "aeskey":
            return v
    return p

def aesctr_buf(e, st, fr, a, ins):
    d = rdc(e, st, a[2], a[4], fr, ins)
    chk_freed(e, st, base_off(a[0])[0], a[0], fr, ins)
    v = mk("b.fn", "AESCTR", aeskey(st, a[0]), a[1], ZERO, d, st.simp(a[4]))
    e.event(st, "call", "aesctr", (a[0], a[1], a[2], a[3], a[4]), None, fr, ins, v)
    wrc(e, st, a[3], a[4], v, fr, ins)
    return [(st, None)]

CTRSZ = c(48)
def ctr_init2(e, st, fr, a, ins):
    wrc(e, st, a[0], CTRSZ, mk("b.fn", "ctr", a[1], a[2], ZERO, CTRSZ), fr, ins)
    return [(st, None)]

def ctr_alloc(e, st, fr, a, ins):
    t = new_heap(e, st, fr, ins, "aesctr", CTRSZ, False)
    e.event(st, "call", "malloc", (CTRSZ,), t, fr, ins)
    if len(a) == 2:
        mem_write(st, t, ZERO, CTRSZ, mk("b.fn", "ctr", a[0], a[1], ZERO, CTRSZ))
    return [(st, t)]

def ctr_stream(e, st, fr, a, ins):
    s = rdc(e, st, a[0], CTRSZ, fr, ins)
    d = rdc(e, st, a[1], a[3], fr, ins)
    if s.op == "b.fn" and s.a[0] == "ctr":
        _, key, nonce, pos, _z = s.a
    else:
        key, nonce, pos = s, s, ZERO
    v = mk("b.fn", "AESCTR", aeskey(st, key) if not key.op.startswith("b.") else key, nonce, pos, d, st.simp(a[3]))
    e.event(st, "call", "aesctr", (key, nonce, a[1], a[2], a[3]), None, fr, ins, v)
    wrc(e, st, a[2], a[3], v, fr, ins)
    wrc(e, st, a[0], CTRSZ, mk("b.fn", "ctr", key, nonce, add(pos, a[3]), CTRSZ), fr, ins)
    return [(st, None)]

def ctr_free(e, st, fr, a, ins):
    from .models import m_free
    p = st.simp(a[0])
    if st.isnull(p) is True: return [(st, None)]
    b, o = base_off(p)
    mem_write(st, b, o, CTRSZ, mk("b.fill", ZERO, CTRSZ))
    return m_free(e, st, fr, [p], ins)

def verify(e, st, fr, a, ins):
    x = rdc(e, st, a[0], a[2], fr, ins); y = rdc(e, st, a[1], a[2], fr, ins)
    r = mk("verify", x, y, st.simp(a[2]))
    e.event(st, "call", "crypto_verify_bytes", tuple(a), r, fr, ins, (x, y))
    return [(st, r)]

def entropy(e, st, fr, a, ins):
    n = st.fresh()
    r = mk("ret", "crypto_entropy_read", n)
    st.wfacts(); st.iv[r] = (-1, 0)
    v = mk("b.fn", "rand", r, a[1])
    e.event(st, "call", "crypto_entropy_read", tuple(a), r, fr, ins, v)
    wrc(e, st, a[0], a[1], v, fr, ins)
    set_errno(st, "entropy")
    return [(st, r)]

MODELS = {
    "HMAC_SHA256_Init": mk_init("hm", True), "HMAC_SHA256_Update": mk_update("hm"), "HMAC_SHA256_Final": mk_final("hm"),
    "SHA256_Init": mk_init("sha", False), "SHA256_Update": mk_update("sha"), "SHA256_Final": mk_final("sha"),
    "HMAC_SHA256_Buf": hmac_buf, "SHA256_Buf": sha_buf, "PBKDF2_SHA256": pbkdf2,
    "crypto_aes_key_expand": key_expand, "crypto_aes_key_free": key_free,
    "crypto_aesctr_buf": aesctr_buf, "crypto_aesctr_init2": ctr_init2, "crypto_aesctr_init": ctr_alloc, "crypto_aesctr_alloc": ctr_alloc,
    "crypto_aesctr_stream": ctr_stream, "crypto_aesctr_free": ctr_free, "crypto_verify_bytes": verify, "crypto_entropy_read": entropy,
}

def dh_compute(e, st, fr, a, ins):
    n = st.fresh()
    p = rdc(e, st, a[0], c(256), fr, ins); x = rdc(e, st, a[1], c(32), fr, ins)
    r = mk("ret", "crypto_dh_compute", n); st.wfacts(); st.iv[r] = (-1, 0)
    v = mk("b.fn", "DH", p, x, c(256))
    e.event(st, "call", "crypto_dh_compute", tuple(a), r, fr, ins, (p, x))
    wrc(e, st, a[2], c(256), v, fr, ins)
    return [(st, r)]

def dh_generate(e, st, fr, a, ins):
    n = st.fresh()
    r = mk("ret", "crypto_dh_generate", n); st.wfacts(); st.iv[r] = (-1, 0)
    x = mk("b.fn", "rand", r, c(32))
    e.event(st, "call", "crypto_dh_generate", tuple(a), r, fr, ins, x)
    wrc(e, st, a[1], c(32), x, fr, ins)
    wrc(e, st, a[0], c(256), mk("b.fn", "DHPUB", x, c(256)), fr, ins)
    return [(st, r)]

def dh_generate_pub(e, st, fr, a, ins):
    n = st.fresh()
    r = mk("ret", "crypto_dh_generate_pub", n); st.wfacts(); st.iv[r] = (-1, 0)
    x = rdc(e, st, a[1], c(32), fr, ins)
    e.event(st, "call", "crypto_dh_generate_pub", tuple(a), r, fr, ins, x)
    wrc(e, st, a[0], c(256), mk("b.fn", "DHPUB", x, c(256)), fr, ins)
    return [(st, r)]

DHMODELS = {"crypto_dh_compute": dh_compute, "crypto_dh_generate": dh_generate, "crypto_dh_generate_pub": dh_generate_pub}
