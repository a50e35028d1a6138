"""Big-number algebra of the key exchange: C07 (freshness), C09 (secret-independent control flow), DH part of C06."""
from .common import *
from ..machine import *
from . import hs
from .hs import PUB, MACLEN, NONCE

BIG256 = 1 << 256
VSZ = c(8)

def bn_val(st, p):
    b, o = base_off(p)
    r = st.mem.get(b)
    if r is not None:
        for so, sz, v in reversed(r.segs):
            if so is ZERO: return v
    return mk("bn0", b) if b is not None else mk("undef")

def bn_set(st, p, v):
    b, o = base_off(p)
    mem_write(st, b, ZERO, VSZ, v)

def bytes_int(st, v, n):
    """integer value of a big-endian byte string"""
    t = hs.canon_zeros(v) if True else None
    if all(isinstance(x, bytes) for x in t):
        return c(int.from_bytes(b"".join(t), "big"))
    x = mk("int", v)
    st.wfacts(); st.iv[x] = (0, (1 << (8 * n)) - 1)
    return x

def _fail(e, st, fr, ins, name, a):
    s2 = st.fork()
    e.event(s2, "call", name, tuple(a), ZERO, fr, ins)
    return s2

def bn_bin2bn(e, st, fr, a, ins):
    n = st.simp(a[1])
    if n.op != "c": raise Broken("BN_bin2bn with a length that is not constant")
    v = crypto.rdc(e, st, a[0], n, fr, ins)
    x = bytes_int(st, v, cv(n))
    p = st.simp(a[2])
    if p is not ZERO:
        bn_set(st, p, x); return [(st, p)]
    s2 = _fail(e, st, fr, ins, "BN_bin2bn", a)
    t = e.M.new_heap(e, st, fr, ins, "BN", VSZ, False)
    st.assume(mk("eq0", t), False)
    e.event(st, "call", "BN_bin2bn", tuple(a), t, fr, ins, x)
    bn_set(st, t, x)
    return [(st, t), (s2, ZERO)]

def bn_new(name):
    def f(e, st, fr, a, ins):
        s2 = _fail(e, st, fr, ins, name, a)
        t = e.M.new_heap(e, st, fr, ins, name, VSZ, False)
        st.assume(mk("eq0", t), False)
        e.event(st, "call", name, tuple(a), t, fr, ins)
        bn_set(st, t, ZERO)
        return [(st, t), (s2, ZERO)]
    return f

def bn_free(name):
    def f(e, st, fr, a, ins):
        p = st.simp(a[0])
        if st.isnull(p) is True: return [(st, None)]
        e.M.chk_freed(e, st, base_off(p)[0], p, fr, ins)
        v = bn_val(st, p)
        ev = e.event(st, "call", name, (p,), None, fr, ins, v)
        b, o = base_off(p)
        if b is not None:
            r = mem_region(st, b)
            if r.freed is not None: e.event(st, "mem", "double-free", (p,), None, fr, ins, r.freed)
            st.wmem()[b] = Region(r.d, r.segs, ev, r.size)
        return [(st, None)]
    return f

def bn_op(name, f, nargs, ctx=False):
    def g(e, st, fr, a, ins):
        for x in a[:nargs + 1]:
            e.M.chk_freed(e, st, base_off(x)[0], x, fr, ins)
        s2 = _fail(e, st, fr, ins, name, a)
        vs = [bn_val(st, x) for x in a[1:nargs + 1]]
        e.event(st, "call", name, tuple(a), ONE, fr, ins, tuple(vs))
        bn_set(st, a[0], f(*vs))
        return [(st, ONE), (s2, ZERO)]
    return g

def modmul(x, y, m):
    """products of powers of one base collapse"""
    if x.op == "modexp" and y.op == "modexp" and x.a[0] is y.a[0] and x.a[2] is m and y.a[2] is m:
        return mk("modexp", x.a[0], add(x.a[1], y.a[1]), m)
    return mk("modmul", *sorted((x, y), key=lambda t: t.id), m)

def bn_set_word(e, st, fr, a, ins):
    s2 = _fail(e, st, fr, ins, "BN_set_word", a)
    bn_set(st, a[0], st.simp(a[1]))
    return [(st, ONE), (s2, ZERO)]

def bn_num(e, st, fr, a, ins):
    v = bn_val(st, a[0])
    r = mk("bnbits", v)
    st.wfacts(); st.iv[r] = (0, 2 ** 31 - 1)
    return [(st, r)]

def bn_bn2bin(e, st, fr, a, ins):
    v = bn_val(st, a[0])
    bits = mk("bnbits", v)
    n = mk("udiv", addc(bits, 7), c(8))
    crypto.wrc(e, st, a[1], n, mk("b.fn", "bn", v, n), fr, ins)
    return [(st, n)]

def bn_bn2binpad(e, st, fr, a, ins):
    v = bn_val(st, a[0])
    s2 = st.fork()
    crypto.wrc(e, st, a[1], a[2], mk("b.fn", "bnpad", v, st.simp(a[2])), fr, ins)
    return [(st, st.simp(a[2])), (s2, c(-1))]

def silent(e, st, fr, a, ins):
    return [(st, ZERO if ins.ty.k != "void" else None)]

BN = {"BN_bin2bn": bn_bin2bn, "BN_new": bn_new("BN_new"), "BN_secure_new": bn_new("BN_new"), "BN_CTX_new": bn_new("BN_CTX_new"), "BN_CTX_secure_new": bn_new("BN_CTX_new"), "BN_free": bn_free("BN_free"), "BN_clear_free": bn_free("BN_clear_free"),
      "BN_CTX_free": bn_free("BN_CTX_free"), "BN_add": bn_op("BN_add", add, 2), "BN_uadd": bn_op("BN_add", add, 2), "BN_sub": bn_op("BN_sub", sub, 2),
      "BN_mod_exp": bn_op("BN_mod_exp", lambda a, p, m: mk("modexp", a, p, m), 3),
      "BN_mod_exp_mont_consttime": bn_op("BN_mod_exp", lambda a, p, m: mk("modexp", a, p, m), 3),
      "BN_mod_mul": bn_op("BN_mod_mul", modmul, 3), "BN_set_word": bn_set_word, "BN_num_bits": bn_num, "BN_bn2bin": bn_bn2bin, "BN_bn2binpad": bn_bn2binpad,
      "ERR_error_string": silent, "ERR_get_error": silent}
def _lshift(e, st, fr, a, ins):
    v = bn_val(st, a[1]); n = st.simp(a[2])
    s2 = _fail(e, st, fr, ins, "BN_lshift", a)
    bn_set(st, a[0], scale(v, 1 << cv(n)) if n.op == "c" else mk("bnshl", v, n))
    return [(st, ONE), (s2, ZERO)]
BN["BN_lshift"] = _lshift
def _setbit(e, st, fr, a, ins):
    v = bn_val(st, a[0]); n = st.simp(a[1])
    s2 = _fail(e, st, fr, ins, "BN_set_bit", a)
    ok = n.op == "c" and st.ub(v) < (1 << cv(n))
    bn_set(st, a[0], addc(v, 1 << cv(n)) if ok else mk("bnsetbit", v, n))
    return [(st, ONE), (s2, ZERO)]
BN["BN_set_bit"] = _setbit
BN["BN_set_flags"] = silent

def dhmodels():
    m = dict(crypto.MODELS); m.update(BN)
    return m

def run_dh(R, name):
    f = R.prog.need(name)
    ps = params(f)
    e, a, res = analyse(R, f, ps, State(), dhmodels(), max_steps=4000000)
    return f, a, [(s, r) for s, r in res if not isinstance(r, str)]

def out_value(st, ptr):
    """the integer written big-endian and zero-padded to 256 bytes"""
    b, o = base_off(ptr)
    v = content(st, b, o, c(PUB))
    if v.op == "b.fn" and v.a[0] == "bnpad": return v.a[1]
    if v.op == "b.fn" and v.a[0] == "bn" and st.simp(sub(bsize(v), c(PUB))) is ZERO: return v.a[1]
    if v.op == "b.cat" and len(v.a) == 2 and v.a[0].op == "b.fill" and st.simp(v.a[0].a[0]) is ZERO and v.a[1].op == "b.fn" and v.a[1].a[0] == "bn":
        return v.a[1].a[1]
    # the padded length is in variables the state may relate: read the two pieces separately
    r = mem_region(st, b)
    fn = [(so, sz, x) for so, sz, x in r.segs if isinstance(x, T) and x.op == "b.fn" and x.a[0] == "bn"]
    fl = [(so, sz, x) for so, sz, x in r.segs if isinstance(x, T) and x.op == "b.fill" and x.a[0] is ZERO]
    if len(fn) == 1:
        so, sz, x = fn[0]
        end = sub(add(so, sz), addc(o, PUB))
        if st.simp(end) is ZERO:
            if st.simp(sub(so, o)) is ZERO: return x.a[1]
            for fo, fz, y in fl:
                if fo is o and st.lb(sub(add(fo, fz), so)) >= 0: return x.a[1]
    return None

def rand_of(x):
    """x is all of a generator output: (status term, bytes)"""
    if x.op == "b.fn" and x.a[0] == "rand": return x.a[1]
    return None

def exps(R, f, a, res, secret, want_base, want_base_name):
    """every exponentiation of the function; -> set of total exponents"""
    w = where(f)
    tot = set(); n = 0
    sx = mk("int", secret)
    for s, r in res:
        evs = s.evlist()
        for E in evs:
            if E.kind != "call" or E.name != "BN_mod_exp" or E.ret is ZERO: continue
            n += 1
            base, ex, m = E.x
            rnds = [x for x in subterms(ex) if isinstance(x, T) and x.op == "int" and rand_of(x.a[0]) is not None]
            live = [x for x in rnds if E.st.iszero(rand_of(x.a[0])) is True and bsize(x.a[0]) is c(32) and x.a[0] is not secret]
            R.ok(bool(live), "exponent-blinded", w + " " + locs(E), "exponent %s must contain 32 bytes the generator has just supplied successfully" % show(ex), E.st)
            lo, hi = E.st.bounds(ex)
            R.ok(lo not in (-INF, INF) and hi not in (INF, -INF) and lo > 0 and int(lo).bit_length() == int(hi).bit_length(), "exponent-bit-length-fixed", w + " " + locs(E),
                 "the exponent's bit length must not depend on secrets: between %s and %s bits" % (int(lo).bit_length() if lo not in (-INF, INF) else "?", int(hi).bit_length() if hi not in (-INF, INF) else "?"), E.st)
            R.ok(m.op == "c" and m.a[0] == int.from_bytes(hs.group14(), "big"), "group-modulus", w + " " + locs(E), "modulus %s" % show(m)[:60], E.st)
        if s.simp(r) is ZERO or (s.iszero(r) is not False):
            v = out_value(s, a[-1] if f.name.endswith("compute") else a[0])
            if not R.ok(v is not None, "result-is-256-bytes", w, "on success the output must be the result as 256 bytes, zero-padded on the left; contains %s" % show(content(s, *base_off(a[-1] if f.name.endswith("compute") else a[0]), c(PUB)))[:300], s): continue
            R.ok(v.op == "modexp", "power-recombined", w, "result must be one power modulo the group prime, is %s" % show(v)[:200], s)
            if v.op == "modexp":
                R.ok(v.a[0] is want_base, "base", w, "base must be %s, is %s" % (want_base_name, show(v.a[0])[:100]), s)
                tot.add(v.a[1])
                d = sub(v.a[1], sx)
                R.ok(d.op == "c" and d.a[0] >= 0 and d.a[0] % BIG256 == 0, "exponent-is-private-value", w, "the blinding must cancel out: total exponent %s" % show(v.a[1])[:200], s)
    R.need(n, "exponentiations", 2)
    return tot

def dh_functions(R):
    f, a, res = run_dh(R, "crypto_dh_compute")
    priv = mk("b.mem", a[1], ("init", 0), ZERO, c(32)); pub = mk("b.mem", a[0], ("init", 0), ZERO, c(PUB))
    t1 = exps(R, f, a, res, priv, mk("int", pub), "the peer's value")
    f2, a2, res2 = run_dh(R, "crypto_dh_generate_pub")
    priv2 = mk("b.mem", a2[1], ("init", 0), ZERO, c(32))
    t2 = exps(R, f2, a2, res2, priv2, c(2), "2")
    off = {sub(x, mk("int", priv)) for x in t1} | {sub(x, mk("int", priv2)) for x in t2}
    R.ok(len(off) == 1, "same-private-exponent", where(f), "the exponent made from a private value must be the same when publishing and when computing the shared value: offsets %s" % [show(x) for x in off])

def C07(R):
    """Provenance dataflow: nonce, private value and blinding are whole outputs of the generator obtained in this handshake, with its success established."""
    for decr in (0, 1):
        for nopfs in (0, 1):
            H = hs.HS(R, decr, nopfs)
            nn = nv = 0
            for t in H.m.trans:
                for E in t.evs:
                    if E.kind != "reg" or E.name != "network_write": continue
                    st = E.st
                    b, o = base_off(E.args[1])
                    v = content(st, b, o, st.simp(E.args[2]))
                    first = not [X for X in st.evlist() if X.kind == "reg" and X.name == "network_write" and X is not E and X.prev is not E and X.n < E.n]
                    if first:
                        nn += 1
                        rt = rand_of(v)
                        R.ok(rt is not None and bsize(v) is c(NONCE), "nonce-fresh", H.at(t), "the first message must be 32 bytes straight from the generator, is %s" % show(v), st)
                        if rt is not None:
                            R.ok(st.iszero(rt) is True, "generator-success-checked", H.at(t), "nonce sent although the generator may have failed", st)
                        continue
                    y = bslice(st, v, ZERO, c(PUB))
                    if nopfs: continue
                    nv += 1
                    x = y.a[1] if y.op == "b.fn" and y.a[0] == "DHPUB" else None
                    if not R.ok(x is not None, "public-value-of-private", H.at(t), "value sent is %s" % show(y), st): continue
                    rt = rand_of(x)
                    R.ok(rt is not None and bsize(x) is c(32), "private-value-fresh", H.at(t), "the private value must be 32 bytes straight from the generator, is %s" % show(x), st)
                    if rt is not None: R.ok(st.iszero(rt) is True, "generator-success-checked", H.at(t), "value sent although the generator may have failed", st)
                    if x is not None:
                        others = [X for X in st.evlist() if X.kind == "reg" and X.name == "network_write" and X.n < E.n]
                        for X in others:
                            ob, oo = base_off(X.args[1])
                            R.ok(content(X.st, ob, oo, X.st.simp(X.args[2])) is not x, "private-value-not-sent", H.at(t), "the private value is the nonce", st)
                # failure of the generator
                for E in t.evs:
                    if E.kind == "call" and E.name in ("crypto_entropy_read", "crypto_dh_generate") and t.st.iszero(E.ret) is False:
                        later = [X for X in t.evs if X.n > E.n and X.kind == "reg" and X.name == "network_write"]
                        R.ok(not later, "nothing-sent-after-generator-failure", H.at(t), "something is sent although the generator failed", t.st)
                        R.ok(not isinstance(t.ret, str) and (t.st.isnull(t.ret) is True if t.kind == "op" else t.st.iszero(t.ret) is False) or bool([X for X in t.evs if X.kind == "icall"]), "generator-failure-reported", H.at(t), "a generator failure must fail the handshake", t.st)
            R.need(nn, "nonces-sent")
            if not nopfs: R.need(nv, "values-sent")
    # crypto_dh_generate itself
    f, a, res = run_dh(R, "crypto_dh_generate")
    n = 0
    for s, r in res:
        priv = cont(s, a[1], 32)
        fails = [E for E in s.evlist() if E.kind == "call" and E.name == "crypto_entropy_read" and s.iszero(E.ret) is not True]
        if s.iszero(r) is False:
            continue
        n += 1
        R.ok(not fails, "generator-success-checked", where(f), "success reported although the generator may have failed", s)
        rt = rand_of(priv)
        R.ok(rt is not None and bsize(priv) is c(32), "private-value-fresh", where(f), "the private value must be 32 bytes straight from the generator, is %s" % show(priv), s)
        v = out_value(s, a[0])
        if R.ok(v is not None and v.op == "modexp", "public-value-of-private", where(f), "public value is %s" % (show(v)[:200] if v is not None else None), s):
            R.ok(any(x is mk("int", priv) for x in subterms(v.a[1])), "public-value-of-private", where(f), "public value not made from the private value", s)
            R.ok(v.a[0] is c(2), "generator-2", where(f), "base %s" % show(v.a[0])[:60], s)
    R.need(n, "generate-success")
    dh_functions(R)

def cont(s, p, n):
    b, o = base_off(p)
    return content(s, b, o, c(n))

ALLOWED_OPS = ("or", "xor", "zx", "tr", "ld", "b.mem", "param", "lin", "c", "and", "umod")
def C09(R):
    """Secret-independence analysis: the comparison's control flow and addresses are functions of the length; MACs reach no other comparison; exponents are blinded and of fixed bit length."""
    f = R.prog.need("crypto_verify_bytes")
    ps = params(f)
    if len(ps) != 3: raise Broken("crypto_verify_bytes parameters changed")
    w = where(f)
    sizes = list(range(0, 65)) if R.tier == "thorough" else [0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33]
    for n in sizes:
        a = [ps[0], ps[1], c(n)]
        loads = []
        def on_load(e, st, base, off, size, fr, ins):
            if base is ps[0] or base is ps[1]: loads.append((base, off, size))
        e, a, res = analyse(R, f, a, State(), crypto.MODELS and {}, on_load=on_load, memevents=True)
        res = alive(res)
        R.ok(len(res) == 1, "one-path", w, "with length %d the comparison has %d paths: its control flow depends on the data" % (n, len(res)), res[1][0] if len(res) > 1 else None)
        for s, r in res:
            sec = [b for b in s.bf if depends(b, ps)] + [b for b in s.iv if depends(b, ps) and b.op not in ("zx",)]
            R.ok(not sec, "no-secret-branch", w, "a branch depends on the data: %s" % [show(x) for x in sec[:2]], s)
            seen = {(b, cv(o) + i) for b, o, z in loads if o.op == "c" for i in range(z if isinstance(z, int) else cv(z))}
            bad = [o for b, o, z in loads if depends(o, ps)]
            R.ok(not bad, "no-secret-address", w, "an address depends on the data", s)
            want = {(p, i) for p in ps[:2] for i in range(n)}
            R.ok(seen == want, "reads-every-byte-once-each", w, "with length %d the bytes read are not exactly the two values: missing %s extra %s" % (n, sorted((show(b), i) for b, i in want - seen)[:3], sorted((show(b), i) for b, i in seen - want)[:3]), s)
            if n == 0:
                R.ok(s.simp(r) is ZERO, "equal-when-empty", w, "result for length 0 is %s" % show(r), s)
                continue
            pairs, other = diffs(s, r, ps)
            R.ok(not other and pairs == set(range(n)), "zero-only-when-all-equal", w, "with length %d the result must be the disjunction of all byte differences: covers %s%s" % (n, sorted(pairs)[:8], ", also " + show(other[0]) if other else ""), s)
    # the loop for lengths that are not constant
    e, a, res = analyse(R, f, list(ps), State(), {})
    for s, r in alive(res):
        sec = [b for b in s.bf if depends(b, ps[:2])]
        R.ok(not sec, "no-secret-branch", w, "a branch depends on the data: %s" % [show(x) for x in sec[:2]], s)
    # MACs are compared in no other way
    from . import pkt
    nv = 0
    for nm, models in (("proto_crypt_dec", crypto.MODELS), ("proto_crypt_dh_validate", hs.kmodels())):
        g = R.prog.need(nm)
        e, a, res = analyse(R, g, None, State(), models)
        for s, r in alive(res):
            for E in s.evlist():
                if E.kind == "call" and E.name == "crypto_verify_bytes": nv += 1
                if E.kind == "call" and E.name == "memcmp":
                    R.ok(not any(has_mac(x) for x in (E.x or ())), "mac-compared-in-constant-time", where(g) + " " + locs(E), "a MAC is compared with memcmp", s)
                elif E.kind == "call" and E.name in ("strcmp", "strncmp", "bcmp", "strcasecmp"):
                    R.ok(False, "mac-compared-in-constant-time", where(g) + " " + locs(E), "%s used" % E.name, s)
            for b in s.bf:
                R.ok(not leaky(b), "no-branch-on-mac-bytes", where(g), "a branch depends on MAC bytes other than through the constant-time comparison: %s" % show(b)[:200], s)
    R.need(nv, "constant-time-comparisons", 2)
    dh_functions(R)
    # every exponentiation in the program goes through these functions
    from ..build import Program
    n = 0
    reach = {"crypto_dh_compute", "crypto_dh_generate_pub", "crypto_dh_generate"}
    callers = call_sites(R, {"BN_mod_exp", "BN_mod_exp_mont", "BN_mod_exp_mont_consttime", "BN_exp", "BN_mod_exp_simple", "BN_mod_exp_mont_word"})
    for fn, name, I in callers:
        n += 1
        R.ok(fn.key in R.stats["functions"], "exponentiation-analysed", where(fn), "%s is called outside the analysed key-exchange functions" % name)
    R.need(n, "exponentiation-sites", 1)

def depends(t, ps):
    return any(isinstance(x, T) and x.op in ("ld", "b.mem") and x.a[0] in ps for x in subterms(t))

def diffs(s, r, ps):
    """byte positions whose difference the result contains"""
    pairs = set(); other = []
    work = [s.simp(r)]
    while work:
        t = work.pop()
        if t.op in ("zx", "tr"): work.append(t.a[1]); continue
        if t.op == "or": work.extend(t.a); continue
        if t.op == "umod" and t.a[1].op == "c" and t.a[1].a[0] >= 256: work.append(t.a[0]); continue
        if t.op == "xor" and len(t.a) == 2:
            x = [strip(y) for y in t.a]
            if all(y is not None for y in x) and {x[0][0], x[1][0]} == {ps[0], ps[1]} and x[0][1] is x[1][1] and x[0][1].op == "c":
                pairs.add(x[0][1].a[0]); continue
        other.append(t)
    return pairs, other

def strip(y):
    while y.op in ("zx", "tr"): y = y.a[1]
    if y.op == "ld" and cv(y.a[3]) == 1: return (y.a[0], y.a[2])
    return None

def has_mac(t):
    return any(isinstance(x, T) and x.op == "b.fn" and x.a[0] in ("HMAC", "hm") for x in subterms(t))

def leaky(b):
    """a condition that looks at MAC bytes outside verify()"""
    work = [b]; seen = set()
    while work:
        t = work.pop()
        if not isinstance(t, T) or t in seen: continue
        seen.add(t)
        if t.op == "verify": continue
        if t.op == "memcmp": 
            if has_mac(t): return True
            continue
        if t.op in ("le", "be", "len") and has_mac(t): return True
        if t.op == "b.fn" and t.a[0] == "HMAC": return True
        if t.op == "b.fn" and t.a[0] == "AESCTR": continue
        for x in t.a:
            if isinstance(x, T): work.append(x)
            elif isinstance(x, tuple): work.extend(x)
    return False
