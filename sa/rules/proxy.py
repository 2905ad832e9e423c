"""P01-P06: PROXY protocol v2 header (akasa-core/src/server/proxy.rs)"""
import os
from _base import *

FN = 'server::proxy::parse_header'
MODP = 'server::proxy'
PREFIX = b'\r\n\r\n\0\r\nQUIT\n'
TLS = sym('tls_termination')
FAMLEN = {1: 12, 2: 36, 3: 216}


class Stream(Collect):
    """ps = (chunks read so far as (length term, content term), flags)"""
    init = ((), frozenset())

    def chunks(self, st):
        return st.ps[0]

    def on_result(self, E, st, c, val):
        if re.search(r'AsyncReadExt::read\w*$', c.name):
            if c.name.endswith('read_exact') and len(c.args) > 1:
                r, p = E.target(c.args[1])
                x = E.deep(st, E.load(st, r, p))
                st.ps = (st.ps[0] + ((length(x), x),), st.ps[1])
            else:
                st.ps = (st.ps[0] + ((None, UNDEF),), st.ps[1])

    def pin(self, f):
        """header facts are kept to the end"""
        for x in leaves(f):
            if x.op == 'sym':
                continue
            if not (x.op == 'mut' and 'read_exact' in str(x.a[0]) and len(x.a) > 3 and x.a[3].op == 'int' and x.a[3].a[0] <= 16):
                return False
        return True


def byte(chunks, i):
    """i-th byte received, from the chunks read (constant lengths only)"""
    off = 0
    for n, x in chunks:
        if n is None or n.op != 'int':
            return None
        if i < off + n.a[0]:
            return project(x, ('i', Int(i - off)))
        off += n.a[0]
    return None


def consumed(chunks):
    t = Int(0)
    for n, x in chunks:
        if n is None:
            return None
        t = add(t, n)
    return t


def nibble(b, hi):
    return mk('bits', b, 4 if hi else 0, 4)


def equals(E, st, t, c):
    return E.decide(st, eq0(sub(t, Int(c)))) is True


def is_byte(E, st, chunks, i, v):
    b = byte(chunks, i)
    if equals(E, st, b, v):
        return True
    # whole-slice comparisons
    off = 0
    for n, x in chunks:
        if i < off + n.a[0]:
            for f, w in st.facts.items():
                if f.op in ('eq', 'starts_with') and w is TRUE:
                    for a, l in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                        l = as_lit(l)
                        if l is None:
                            continue
                        lo = slice_of(a, x)
                        if lo is not None and lo <= i - off < lo + len(l) and l[i - off - lo] == v:
                            return True
                elif w.op == 'lit':
                    lo = slice_of(f, x)
                    if lo is not None and lo <= i - off < lo + len(w.a[0]) and w.a[0][i - off - lo] == v:
                        return True
            return False
        off += n.a[0]
    return False


def slice_of(a, x):
    """offset of the slice term a inside x"""
    if a is x:
        return 0
    if a.op == 'fld' and a.a[0] is x and a.a[1][0] == 's' and a.a[1][1].op == 'int':
        return a.a[1][1].a[0]
    return None


def mentions(st, x):
    return any(depends(f, x) for f in list(st.facts) + list(st.excl))


def known(chunks, n):
    """the first n bytes were read in chunks of constant length"""
    return all(byte(chunks, i) is not None for i in range(n))


def nib_is(E, st, b, hi, v):
    """True: the nibble is v on this path; None: not decided by the facts"""
    if equals(E, st, nibble(b, hi), v):
        return True
    w = E.value(st, b)
    if w is not None and w.op == 'int':
        return (w.a[0] >> 4 if hi else w.a[0] & 15) == v
    return E.decide(st, eq0(sub(nibble(b, hi), Int(v))))


def start(ctx, rule, **kw):
    if not ctx.anchor(FN):
        return None
    return run(ctx, FN, rule, {'tls_termination': TLS}, **kw)


def outcome(v):
    """'err', 'local' or the Header term"""
    if v.op == 'agg' and v.a[2] == 'Err':
        return 'err'
    if v.op == 'agg' and v.a[2] == 'Ok':
        o = project(v, ('f', 'Ok', '0'))
        if o is NONE:
            return 'local'
        if o.op == 'agg' and o.a[2] == 'Some':
            return project(o, ('f', 'Some', '0'))
    return None


def P01(ctx):
    """No panic on any byte stream."""
    ctx.rule = ('every index, slice, arithmetic, unwrap, split and unreachable! construct reachable from the PROXY header parser is discharged by the branch facts and the '
                'loop invariants inferred by abstract interpretation, for every byte stream and both TLS settings')

    class R(Stream):
        obligations = True
        keep_logs = True

        def pin(self, f):
            return False
    r = R()
    if start(ctx, r) is None:
        return
    panic_report(ctx, r, 'the PROXY header parser')
    ctx.floor('obligations_seen', sum(o[0] for o in r.obl.values()), 40)
    ctx.floor('returns', len(r.rets), 6)


def header(ctx):
    r = Stream()
    E = start(ctx, r)
    if E is None:
        return None, None
    return E, r.rets


def P02(ctx):
    """Well-formed headers only."""
    ctx.rule = ('on every path that returns a header or the LOCAL outcome, the branch facts imply the 12-byte signature, version 2, the command, a known family and transport '
                'and a declared length that covers the address block (LOCAL: no payload at all)')
    E, rets = header(ctx)
    if E is None:
        return
    n = {'local': 0, 'some': 0, 'err': 0}
    for v, st in rets:
        o = outcome(v)
        ch = st.ps[0]
        det = lambda: [repr(v)[:200]] + facts_text(st, 30)
        if o == 'err':
            n['err'] += 1
            continue
        if not ctx.require(o is not None, 'outcome', 'parse_header returns something that is neither an error, LOCAL nor a header', det):
            continue
        n['local' if o == 'local' else 'some'] += 1
        if not ctx.require(known(ch, 16), 'fixed-header', 'a header is accepted before its 16 fixed bytes were read', det):
            continue
        sig = all(is_byte(E, st, ch, i, PREFIX[i]) for i in range(12))
        ctx.require(sig, 'signature', 'a header is accepted without the 12 signature bytes having been checked', det)
        b12, b13, b14, b15 = [byte(ch, i) for i in range(12, 16)]
        ln = add(mulc(b14, 256), b15)
        ctx.require(nib_is(E, st, b12, True, 2), 'version', 'a header whose version is not 2 is accepted', det)
        if o == 'local':
            ctx.require(nib_is(E, st, b12, False, 0), 'local-command', 'a command other than LOCAL is answered like LOCAL', det)
            ctx.require(E.decide(st, eq0(b13)) is True and E.decide(st, eq0(ln)) is True, 'local-payload', 'a LOCAL header with a family or a payload is accepted and its payload left unread', det)
            continue
        ctx.require(nib_is(E, st, b12, False, 1), 'proxy-command', 'a header whose command is not PROXY yields addresses', det)
        fam = [k for k in FAMLEN if nib_is(E, st, b13, True, k)]
        ctx.require(len(fam) == 1, 'family', 'a header with an unknown address family is accepted', det)
        pr = [k for k in (1, 2) if nib_is(E, st, b13, False, k)]
        ctx.require(len(pr) == 1, 'transport', 'a header with an unknown transport protocol is accepted', det)
        if fam:
            ctx.require(E.decide(st, lt(ln, Int(FAMLEN[fam[0]]))) is False, 'length', 'a header whose length is smaller than its address block is accepted', det)
    ctx.floor('headers_accepted', n['some'], 6)
    ctx.floor('local_paths', n['local'], 1)
    ctx.floor('rejecting_paths', n['err'], 8)
    ctx.sample('%d accepting, %d LOCAL and %d rejecting paths' % (n['some'], n['local'], n['err']))


def addr_bytes(t, n):
    """the n bytes of an address term, or None"""
    if t.op == 'pure' and t.a[0] == 'addr':
        t = t.a[1]
    if t.op in ('call', 'phi', 'join', 'opaque', 'pure', 'undef'):
        return None
    return [project(t, ('i', Int(i))) for i in range(n)]


LAYOUT = {'IPv4': (1, 4, 12), 'IPv6': (2, 16, 36), 'Unix': (3, 108, 216)}


def P03(ctx):
    """Fields come from the right bytes."""
    ctx.rule = ('value terms of the returned header: source/destination address and port and transport are, for every family, exactly the bytes the PROXY v2 specification '
                'assigns to them, in network byte order')
    E, rets = header(ctx)
    if E is None:
        return
    n = 0
    fams = set()
    for v, st in rets:
        o = outcome(v)
        if o in ('err', 'local', None):
            continue
        ch = st.ps[0]
        a = project(o, ('f', '', 'addresses'))
        pr = project(o, ('f', '', 'protocol'))
        det = lambda: ['addresses: ' + repr(a)[:700], 'protocol: ' + repr(pr)[:100]] + facts_text(st, 20)
        if a.op != 'agg' or not a.a[2] in LAYOUT or not known(ch, 16):
            ctx.require(a.op == 'agg', 'addresses', 'the addresses of a returned header cannot be traced to the bytes received', det)
            continue
        k, w, total = LAYOUT[a.a[2]]
        fams.add(a.a[2])
        b13 = byte(ch, 13)
        ctx.require(nib_is(E, st, b13, True, k) is not False and (nib_is(E, st, b13, True, k) or not mentions(st, b13)), 'family-of:' + a.a[2],
                    'a header is reported as %s although its family is another one' % a.a[2], det)
        if pr.op == 'agg' and pr.a[2] in ('Stream', 'Datagram'):
            want = 1 if pr.a[2] == 'Stream' else 2
            ctx.require(nib_is(E, st, b13, False, want) is not False, 'transport-of:' + pr.a[2], 'a header is reported as %s although its transport is another one' % pr.a[2], det)
        if not ctx.require(known(ch, 16 + total), 'address-block', 'a header is returned whose address block was not read completely', det):
            continue
        B = lambda i: byte(ch, 16 + i)
        if a.a[2] == 'Unix':
            fields = [('source', 0, w), ('destination', w, w)]
        else:
            fields = [('source_address', 0, w), ('destination_address', w, w)]
            for f, off in (('source_port', 2 * w), ('destination_port', 2 * w + 2)):
                x = project(a, ('f', a.a[2], f))
                n += 1
                if understood(x, set(y for _, y in ch)):
                    ctx.require(x is add(mulc(B(off), 256), B(off + 1)), f + ':' + a.a[2], 'the %s of an %s header is not bytes %d-%d of the address block in network order' % (f, a.a[2], off, off + 1), det)
                else:
                    ctx.require(depends(x, B(off)) or any(depends(x, y) for _, y in ch), f + ':' + a.a[2], 'the %s does not come from the header' % f, det)
        for f, off, cnt in fields:
            x = project(a, ('f', a.a[2], f))
            bs = addr_bytes(x, cnt)
            n += 1
            if bs is None or not understood(x, set(y for _, y in ch)):
                ctx.require(any(depends(x, y) for _, y in ch), f + ':' + a.a[2], 'the %s does not come from the header' % f, det)
                continue
            ctx.require(all(p is B(off + i) for i, p in enumerate(bs)), f + ':' + a.a[2], 'the %s of an %s header is not bytes %d-%d of the address block' % (f, a.a[2], off, off + cnt - 1), det)
    ctx.floor('fields', n, 18)
    ctx.floor('families', len(fams), 3)


def P06(ctx):
    """Exactly the header is consumed."""
    ctx.rule = ('sum of the lengths of all reads on every returning path: 16 bytes for LOCAL, 16 + declared length for a proxied connection, so the first byte after the header '
                'is the first byte of the client stream; only exact reads are used')
    E, rets = header(ctx)
    if E is None:
        return
    n = 0
    for v, st in rets:
        o = outcome(v)
        if o in ('err', None):
            continue
        n += 1
        ch = st.ps[0]
        det = lambda: ['reads: ' + repr([x for x, _ in ch])[:300]] + facts_text(st, 20)
        if not ctx.require(known(ch, 16), 'fixed-header', 'a header is accepted before its 16 fixed bytes were read', det):
            continue
        c = consumed(ch)
        if not ctx.require(c is not None, 'exact-reads', 'the parser reads from the connection with something else than an exact read', det):
            continue
        want = Int(16) if o == 'local' else add(Int(16), add(mulc(byte(ch, 14), 256), byte(ch, 15)))
        ctx.require(E.decide(st, eq0(sub(c, want))) is True, 'consumed', 'on an accepting path the bytes taken from the connection differ from the header length announced', det)
    ctx.floor('accepting_paths', n, 7)


class Part:
    """passes on the obligations whose key starts with one of the prefixes"""

    def __init__(self, ctx, pre):
        self.ctx, self.pre = ctx, pre

    def require(self, cond, key, text, details=None):
        if key.startswith(self.pre):
            return self.ctx.require(cond, key, text, details)
        return cond


class Tlv(Stream):
    """ps flags: pos = position of the TLV under inspection, which TLVs were seen, what is still to be verified"""

    def __init__(self, ctx):
        Stream.__init__(self)
        self.ctx = ctx
        self.steps = 0
        self.crcs = 0
        self.auths = 0
        self.sslv = 0
        self.inner = set()
        self.inside = True       # every iteration ends inside the area

    def flags(self, st):
        return dict(st.ps[1])

    def setf(self, st, **kw):
        d = dict(st.ps[1])
        d.update(kw)
        st.ps = (st.ps[0], frozenset((k, v) for k, v in d.items() if v is not None))

    def fixed(self, st):
        """the reads before the TLV area: constant lengths up to the end of the address block"""
        ch = st.ps[0]
        k, off, want = 0, 0, None
        while k < len(ch) and ch[k][0] is not None and ch[k][0].op == 'int':
            if off >= 16 and want is None:
                for w, n in FAMLEN.items():
                    if nib_is(self.E, st, byte(ch, 13), True, w) is True:
                        want = 16 + n
            if want is not None and off >= want:
                break
            off += ch[k][0].a[0]
            k += 1
        return ch[:k]

    def remaining(self, st):
        ch = self.fixed(st)
        if not known(ch, 16):
            return None
        return sub(add(Int(16), add(mulc(byte(ch, 14), 256), byte(ch, 15))), consumed(ch))

    def tlv_atom(self, st, t):
        """(buffer, position) when t is one byte of the TLV area"""
        ch = self.fixed(st)
        if not known(ch, 16) or t.op != 'fld' or t.a[1][0] != 'i':
            return None
        head = {x for _, x in ch}
        if base(t.a[0]) in head or t.a[0] in head:
            return None
        return t.a[0], t.a[1][1]

    def seen(self, E, st, t, c, pos):
        a = self.tlv_atom(st, t)
        if a is None or c.op != 'int':
            return
        buf, at = a
        f = self.flags(st)
        if f.get('type') is not None or f.get('pos') not in (None, at):
            # a further byte of the same TLV
            return
        self.setf(st, pos=at, buf=buf)
        if pos and c.a[0] in (2, 3, 0x20):
            self.setf(st, type=c.a[0])
            if c.a[0] == 2:
                self.setf(st, auth=True)
            if c.a[0] == 3:
                self.setf(st, crc=True)
            if c.a[0] == 0x20:
                self.setf(st, ssl=True, verify=True)

    def ended(self, E, st, t):
        """the position reached the end of the TLV area"""
        rem = self.remaining(st)
        if rem is None:
            return
        for a in leaves(t) | {x for x in walk(t) if x.op == 'len'}:
            if a.op == 'len' and len(a.a) == 1 and a.a[0].op in ('phi', 'join') and E.decide(st, eq0(a)) is True:
                self.setf(st, end='eq')
            if a.op in ('phi', 'join') and TYPES.get(a) == 'usize':
                if E.decide(st, eq0(sub(a, rem))) is True:
                    self.setf(st, end='eq')
                elif E.decide(st, lt(a, rem)) is False and self.flags(st).get('end') != 'eq':
                    self.setf(st, end='ge')

    def on_assume(self, E, st, t, v):
        f = self.flags(st)
        if not isinstance(v, T) and t.op in ('lt0', 'eq0'):
            self.ended(E, st, t)
        if isinstance(v, T):
            if v.op == 'int':
                self.seen(E, st, t, v, True)
                if f.get('verify') and f.get('buf') is not None and v is Int(0):
                    if all(E.decide(st, eq0(project(f['buf'], ('i', add(f['pos'], Int(4 + i)))))) is True for i in range(4)):
                        self.sslv += 1
                        self.setf(st, verify=None)
            elif v.op == 'lit' and f.get('verify') and f.get('buf') is not None:
                self.verify_slice(st, t, v.a[0], f)
            return
        if t.op == 'eqc':
            if t.a[1].op == 'int' and not v:
                self.seen(E, st, t.a[0], t.a[1], False)
            return
        if v and f.get('verify') and f.get('buf') is not None:
            if t.op == 'eq':
                for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                    if as_lit(b) is not None:
                        self.verify_slice(st, a, as_lit(b), f)
            if t.op == 'eq0':
                c, d = lin_of(t.a[0])
                want = {project(f['buf'], ('i', add(f['pos'], Int(4 + i)))) for i in range(4)}
                if c == 0 and set(d) == want and len({v > 0 for v in d.values()}) == 1:
                    self.sslv += 1
                    self.setf(st, verify=None)
        if v and f.get('crc') and t.op in ('eq0', 'eq'):
            at = [x for x in leaves(t) if x.op == 'call' and 'crc32c' in str(x.a[0])]
            at = at or [x for x in walk(t) if x.op in ('call', 'pure') and 'crc32c' in repr(x)[:60]]
            if at:
                self.check_crc(E, st, t, f)
                self.setf(st, crc=None)

    def verify_slice(self, st, t, lit, f):
        want = [project(f['buf'], ('i', add(f['pos'], Int(4 + i)))) for i in range(4)]
        if len(lit) >= 4:
            got = [project(t, ('i', Int(i))) for i in range(len(lit))]
            if all(any(g is w and lit[i] == 0 for i, g in enumerate(got)) for w in want):
                self.sslv += 1
                self.setf(st, verify=None)

    def check_crc(self, E, st, t, f):
        ctx = self.ctx
        self.crcs += 1
        det = lambda: ['compared: ' + repr(t)[:800]] + facts_text(st, 12)
        ch = self.fixed(st)
        if t.op == 'eq0':
            c, d = lin_of(t.a[0])
            crc = [x for x in d if 'crc32c' in repr(x)[:80]]
            if len(crc) != 1:
                return
            k = d[crc[0]]
            other = add(mulc(t.a[0], -k), crc[0]) if k in (1, -1) else None
            crc = crc[0]
        else:
            crc, other = (t.a[0], t.a[1]) if 'crc32c' in repr(t.a[0])[:80] else (t.a[1], t.a[0])
        ctx.require(crc.op not in ('cast', 'bits'), 'crc-part', 'only a part of the checksum is compared', det)
        parts = crc_parts(crc)
        if parts is None or other is None:
            ctx.require(all(depends(t, x) for _, x in ch), 'crc-inputs', 'the checksum compared does not cover the header and the addresses', det)
            return
        total = sum(n.a[0] for n, _ in ch)
        buf, pos = f['buf'], f['pos']
        # fixed header and addresses, then the TLV area with the checksum field zeroed
        A = parts[0]
        if len(parts) == 2 and length(A).op == 'int':
            ok = length(A).a[0] == total and all(project(A, ('i', Int(i))) is byte(ch, i) for i in range(total))
            ctx.require(ok, 'crc-header', 'the checksum is not computed over the fixed header and the address block as received', det)
            B = parts[1]
            rem = self.remaining(st)
            ctx.require(E.decide(st, eq0(sub(length(B), rem))) is True, 'crc-tlv-length', 'the checksum does not cover the whole TLV area', det)
            z = all(project(B, ('i', add(pos, Int(3 + i)))) is Int(0) for i in range(4))
            ctx.require(z, 'crc-field-zeroed', 'the checksum is computed without zeroing its own field first', det)
            w = upds(strip_slice(B))
            bad = [k for k in w if k[0] == 'i' and k not in [('i', add(pos, Int(3 + i))) for i in range(4)]]
            if base(strip_slice(B)) is base(buf) or base(strip_slice(B)) is buf:
                extra = [k for k in bad if k not in upds(buf)]
                ctx.require(not extra, 'crc-other-bytes', 'the checksum is computed over a TLV area with other bytes changed', det)
        else:
            ctx.require(all(depends(t, x) for _, x in ch), 'crc-inputs', 'the checksum compared does not cover the header and the addresses', det)
        want = Int(0)
        for i in range(4):
            want = add(want, mulc(project(buf, ('i', add(pos, Int(3 + i)))), 1 << (8 * (3 - i))))
        ctx.require(other is want or not understood(other, leaves(other)), 'crc-expected', 'the checksum is not compared with the four bytes of the CRC32C field in network order', lambda: ['expected: ' + repr(other)[:400]] + det())

    def on_loop(self, E, st, depth, bb):
        if self.flags(st).get('pos') is not None:
            self.inner.add((E.stack(st)[-1], bb))        # a loop inside the handling of one TLV

    def on_back(self, E, st, depth, bb):
        f = self.flags(st)
        if f.get('pos') is None or (E.stack(st)[-1], bb) in self.inner:
            return
        pos, buf = f['pos'], f['buf']
        self.steps += 1
        L = add(mulc(project(buf, ('i', add(pos, Int(1)))), 256), project(buf, ('i', add(pos, Int(2)))))
        nxt = add(pos, add(Int(3), L))
        det = lambda: ['position %s of %s' % (pos, repr(buf)[:200])] + facts_text(st, 12)
        # the next position is this one plus 3 plus the length
        ok = False
        for k, v in st.mem.items():
            if v.op in ('lin', 'int', 'fld', 'phi') and (v is nxt or (leaves(v) & leaves(nxt) and E.decide(st, eq0(sub(v, nxt))) is True)):
                ok = True
        self.ctx.require(ok, 'tlv-step', 'after a TLV the parser does not continue right behind it', det)
        if f.get('type') == 2:
            self.auths += 1
            self.ctx.require(E.decide(st, lt(Int(0), L)) is True, 'authority-empty', 'an empty host name is accepted as the authority', det)
            val = project(buf, ('s', add(pos, Int(3)), nxt))
            vals = [v for v in st.mem.values() if v.op == 'agg' and v.a[2] == 'Some' and depends(v, buf)]
            ok = any(payload_text(v) is val for v in vals)
            self.ctx.require(ok or not vals and False, 'authority-value', 'the host name kept for the TLS connection is not the value of the authority TLV', lambda: [repr(v)[:300] for v in vals] + det())
        else:
            # other TLVs leave the host name alone
            val = [v for v in st.mem.values() if v.op == 'agg' and v.a[2] == 'Some' and depends_at(v, buf, pos)]
            self.ctx.require(not val, 'authority-other', 'a TLV other than the authority sets the host name', lambda: [repr(v)[:300] for v in val] + det())
        rem = self.remaining(st)
        if rem is None or E.decide(st, lt(rem, nxt)) is not False:
            self.inside = False
        self.setf(st, pos=None, buf=None, type=None, end=None)

    def on_return(self, E, st, v):
        Collect.on_return(self, E, st, v)


def depends_at(v, buf, pos):
    """mentions the buffer at a place counted from pos"""
    for x in walk(v):
        if x.op == 'fld' and x.a[0] is buf and x.a[1][0] == 's' and leaves(x.a[1][1]) == leaves(pos) and x.a[1][1] is add(pos, Int(3)):
            return True
    return False


def payload_text(v):
    x = project(v, ('f', 'Some', '0'))
    while x.op == 'pure' and x.a[0] in ('to_owned', 'utf8', 'string'):
        x = x.a[1]
    return x


def strip_slice(t):
    while t.op == 'fld' and t.a[1][0] == 's':
        t = t.a[0]
    return t


def crc_parts(t):
    """[parts] of crc32c_append(crc32c(a), b) or crc32c(a ++ b)"""
    out = []
    while t.op in ('call', 'pure'):
        n = str(t.a[0] if t.op == 'call' else t.a[0])
        args = [a for a in t.a[1:] if isinstance(a, T)]
        if n.endswith('crc32c_append') and len(args) >= 2:
            out.insert(0, args[1])
            t = args[0]
            continue
        if n.endswith('crc32c') and args:
            out.insert(0, args[0])
            return out
        return None
    return out if t is Int(0) else None


def tlvs(ctx, *pre):
    r = Tlv(Part(ctx, pre))
    E = start(ctx, r)
    return E, r


def P04(ctx):
    """TLV framing and checksum."""
    ctx.rule = ('property simulation of the TLV loop: every iteration starts at position p, inspects the type at p, and ends with the position p + 3 + length; a header is returned only '
                'when the walk ended exactly at the declared end; a CRC32C TLV seen on a path must be followed by an equality between its value and crc32c over fixed header, address '
                'block and the whole TLV area with the checksum field zeroed')
    E, r = tlvs(ctx, 'crc', 'tlv')
    if E is None:
        return
    n = 0
    for v, st in r.rets:
        o = outcome(v)
        if o in ('err', 'local', None):
            continue
        n += 1
        f = dict(st.ps[1])
        det = lambda: [repr(v)[:200]] + ['flags: %s' % {k: repr(x)[:60] for k, x in f.items()}] + facts_text(st, 20)
        ctx.require(not f.get('crc'), 'crc-unverified', 'a header with a CRC32C field is returned although the checksum was not compared', det)
        rem = r.remaining(st)
        if ctx.require(rem is not None, 'tlv-area', 'a header is returned without its TLV area having been read', det):
            end = f.get('end')
            ctx.require(end == 'eq' or (end == 'ge' and r.inside) or E.decide(st, eq0(rem)) is True, 'tlv-end', 'a header is returned although the TLVs do not end exactly at the declared length', det)
    ctx.floor('accepting_paths', n, 6)
    ctx.floor('tlv_iterations', r.steps, 4)
    ctx.floor('checksum_comparisons', r.crcs, 1)


def P05(ctx):
    """TLS termination."""
    ctx.rule = ('property simulation of the TLV loop: with TLS termination a header is returned only on paths that saw an SSL TLV whose verify field compared equal to zero and an '
                'authority TLV, whose text is the host name returned; without TLS termination only on paths that saw neither')
    E, r = tlvs(ctx, 'authority', 'ssl')
    if E is None:
        return
    n = {True: 0, False: 0}
    for v, st in r.rets:
        o = outcome(v)
        if o in ('err', 'local', None):
            continue
        f = dict(st.ps[1])
        sni = project(o, ('f', '', 'tls_sni'))
        det = lambda: [repr(sni)[:200]] + ['flags: %s' % {k: repr(x)[:60] for k, x in f.items()}] + facts_text(st, 20)
        ctx.require(not f.get('verify'), 'ssl-verify', 'a header is returned although its SSL field reports an unverified client certificate', det)
        t = st.facts.get(TLS)
        t = None if t is None else bool(t.a[0])
        if t is not False:
            n[True] += 1
            ctx.require(f.get('ssl'), 'tls-ssl', 'with TLS termination a header without an SSL field is returned', det)
            ctx.require(f.get('auth'), 'tls-authority', 'with TLS termination a header without a host name is returned', det)
            ctx.require(sni is not NONE, 'tls-sni', 'with TLS termination a header is returned without its host name', det)
        if t is not True:
            n[False] += 1
            ctx.require(not f.get('ssl'), 'plain-ssl', 'without TLS termination a header with an SSL field is returned', det)
            ctx.require(not f.get('auth'), 'plain-authority', 'without TLS termination a header with an authority field is returned', det)
            ctx.require(sni is NONE or f.get('auth'), 'plain-sni', 'without TLS termination a host name is reported', det)
    ctx.floor('tls_paths', n[True], 3)
    ctx.floor('plain_paths', n[False], 3)
    ctx.floor('authority_values', r.auths, 1)
    ctx.floor('verify_checks', r.sslv, 1)


def malformed(E, r, st, v):
    """why the header of a rejecting path is not well-formed; None: no reason is recognised; '?': outside what is understood"""
    ch = r.fixed(st)
    rd = [f for f, x in st.facts.items() if f.op == 'discr' and x is Int(1) and 'read' in repr(f.a[0])[:60]]
    if rd or any(x.op == 'await' and 'read' in repr(x)[:60] for x in walk(v)):
        return 'read error'
    if not known(ch, 16):
        return '?'
    if not all(is_byte(E, st, ch, i, PREFIX[i]) for i in range(12)):
        return 'signature'
    b12, b13 = byte(ch, 12), byte(ch, 13)
    total = add(mulc(byte(ch, 14), 256), byte(ch, 15))
    if nib_is(E, st, b12, True, 2) is False:
        return 'version'
    local = nib_is(E, st, b12, False, 0)
    if local is True:
        if E.decide(st, eq0(b13)) is False or E.decide(st, eq0(total)) is False:
            return 'local with payload'
    if local is False and nib_is(E, st, b12, False, 1) is False:
        return 'command'
    fam = [k for k in FAMLEN if nib_is(E, st, b13, True, k) is True]
    if all(nib_is(E, st, b13, True, k) is False for k in FAMLEN):
        return 'family'
    if all(nib_is(E, st, b13, False, k) is False for k in (1, 2)):
        return 'transport'
    if fam and E.decide(st, lt(total, Int(FAMLEN[fam[0]]))) is True:
        return 'length below the address block'
    if fam and E.decide(st, lt(Int(256 + FAMLEN[fam[0]]), total)) is True:
        return 'more than 256 bytes of fields'
    f = r.flags(st)
    rem = r.remaining(st)
    if len(ch) == len(st.ps[0]) and E.decide(st, eq0(rem)) is not True:
        return None
    t = st.facts.get(TLS)
    t = None if t is None else bool(t.a[0])
    if t is False and (f.get('ssl') or f.get('auth')):
        return 'TLS field without TLS'
    end = f.get('end') or (E.decide(st, eq0(rem)) is True and 'eq')
    if t is True and end and not (f.get('ssl') and f.get('auth')):
        return 'TLS field missing'
    if E.decide(st, lt(rem, Int(3))) is True and E.decide(st, eq0(rem)) is False:
        return 'field cut off'
    return f.get('why') or (None if f.get('seen') else '?')


def tlv_reason(E, r, st, term):
    """why the field under inspection is malformed, after learning something about term"""
    f = r.flags(st)
    rem = r.remaining(st)
    rests, bytes_ = set(), set()
    for g in (term,):
        for x in walk(g):
            if x.op in ('phi', 'join', 'call') and TYPES.get(x) == 'usize' and not (x.op == 'call' and 'crc' in str(x.a[0])):
                rests.add((x, sub(rem, x)))
            elif x.op == 'len' and x.a[0].op in ('phi', 'join', 'fld'):
                rests.add((Int(0), x))
            elif x.op == 'fld' and x.a[1][0] == 'i':
                a = r.tlv_atom(st, x)
                if a:
                    bytes_.add(a)
    rests.add((Int(0), rem))
    for p, rest in rests:
        if E.decide(st, lt(rest, Int(3))) is True and E.decide(st, lt(Int(0), rest)) is not False or E.decide(st, lt(rest, Int(0))) is True or (
                E.decide(st, lt(rest, Int(1))) is True and E.decide(st, eq0(rest)) is False):
            return 'field cut off'
        for buf in {b for b, at in bytes_}:
            L = add(mulc(project(buf, ('i', add(p, Int(1)))), 256), project(buf, ('i', add(p, Int(2)))))
            if E.decide(st, lt(rest, add(Int(3), L))) is True:
                return 'field beyond the end'
    pos, buf, ty = f.get('pos'), f.get('buf'), f.get('type')
    if pos is None:
        return None
    L = add(mulc(project(buf, ('i', add(pos, Int(1)))), 256), project(buf, ('i', add(pos, Int(2)))))
    if ty == 2:
        if E.decide(st, eq0(L)) is True:
            return 'empty host name'
        if any(g.op == 'discr' and x is Int(1) and 'utf8' in repr(g.a[0])[:80] or g.op == 'pure' and g.a[0] == 'is_utf8' and x is FALSE for g, x in st.facts.items()):
            return 'host name is not UTF-8'
    if ty == 3:
        if E.decide(st, eq0(sub(L, Int(4)))) is False:
            return 'checksum length'
        if any(x is FALSE and 'crc32c' in repr(g) for g, x in st.facts.items()) or any('crc32c' in repr(g) for g in st.excl):
            return 'wrong checksum'
    if ty == 0x20:
        if E.decide(st, lt(L, Int(5))) is True:
            return 'SSL field too short'
        vb = [project(buf, ('i', add(pos, Int(4 + i)))) for i in range(4)]
        for g in list(st.facts) + list(st.excl):
            w = st.facts.get(g)
            if not f.get('verify') or w is not None and (w.op == 'lit' or w is TRUE and g.op in ('eq0', 'eq') or w is Int(0) and g.op in ('fld', 'lin')):
                continue
            if any(b in leaves(g) or b in set(walk(g)) for b in vb) or any(
                    x.op == 'fld' and x.a[0] is buf and x.a[1][0] == 's' and x.a[1][1] is add(pos, Int(4)) for x in walk(g)):
                return 'certificate not verified'
    return None


class Why(Tlv):
    """remembers why a field is malformed until the parser returns"""

    def on_assume(self, E, st, t, v):
        ok = Tlv.on_assume(self, E, st, t, v)
        f = self.flags(st)
        ch = self.fixed(st)
        if not f.get('why') and known(ch, 16) and len(ch) >= 2 and any(
                (x.op in ('phi', 'join') or x.op == 'call' and 'crc' in repr(x.a[0]) or x.op == 'pure' and x.a[0] in ('utf8', 'is_utf8') or x.op == 'fld' and (x.a[0] is f.get('buf') or self.tlv_atom(st, x))) for x in walk(t)):
            if not f.get('seen'):
                self.setf(st, seen=True)
            w = tlv_reason(E, self, st, t)
            if w:
                self.setf(st, why=w)
        return ok


def P07(ctx):
    """Well-formed headers are accepted."""
    ctx.rule = ('every rejecting path of the parser carries a reason among its branch facts: a failed read, a wrong signature, version, command, family or transport, a length below the '
                'address block or above the field area, a field that is cut off, empty, too short or not UTF-8, a wrong checksum, an unverified certificate, or TLS fields that '
                'are missing or not allowed')
    r = Why(Part(ctx, ('-',)))
    E = start(ctx, r)
    if E is None:
        return
    why = {}
    for v, st in r.rets:
        o = outcome(v)
        if o != 'err':
            continue
        w = malformed(E, r, st, v)
        why[w] = why.get(w, 0) + 1
        ctx.require(w is not None, 'rejected', 'a header is refused for no reason a well-formed header could not meet', lambda: ['flags: %s' % {k: repr(x)[:80] for k, x in r.flags(st).items()}] + facts_text(st, 40))
    for k in why:
        ctx.sample('%d rejecting paths: %s' % (why[k], k))
    if os.environ.get('SA_DEBUG'):
        print(why)
    ctx.floor('rejecting_paths', sum(why.values()), 12)
    ctx.floor('reasons', len(why), 4)


RULES = {'P07': P07, 'P01': P01, 'P02': P02, 'P03': P03, 'P04': P04, 'P05': P05, 'P06': P06}
