"""Places relocatable ELF and COFF objects at fixed addresses."""
import struct


class LoadError(Exception): pass


class Obj:
    """sections: [name, data(bytearray), align, alloc]; syms: [name, section index or None, value, is_global]; relocs: [section, offset, type, symbol, addend]"""
    def __init__(self): self.sections, self.syms, self.relocs = [], [], []


def cstr(b, o):
    return b[o:b.index(b"\0", o)].decode("latin-1")


def parse_elf(b):
    o = Obj()
    shoff, = struct.unpack_from("<Q", b, 0x28)
    shentsize, shnum, shstrndx = struct.unpack_from("<HHH", b, 0x3a)
    sh = [struct.unpack_from("<IIQQQQIIQQ", b, shoff + i * shentsize) for i in range(shnum)]
    stroff = sh[shstrndx][4]
    symtab = None
    for i, (nm, ty, fl, addr, off, size, link, info, al, ent) in enumerate(sh):
        data = bytearray(b[off:off + size]) if ty not in (8, 0) else bytearray(size if ty == 8 else 0)
        o.sections.append([cstr(b, stroff + nm), data, max(1, al), bool(fl & 2) and ty in (1, 8, 14, 15)])
        if ty == 2: symtab = i
    if symtab is not None:
        _, _, _, _, off, size, link, _, _, _ = sh[symtab]
        so = sh[link][4]
        for i in range(size // 24):
            nm, info, oth, shn, val, sz = struct.unpack_from("<IBBHQQ", b, off + 24 * i)
            o.syms.append([cstr(b, so + nm), None if shn == 0 else (shn if shn < 0xff00 else -1), val, info >> 4 != 0, info & 15])
    for i, (nm, ty, fl, addr, off, size, link, info, al, ent) in enumerate(sh):
        if ty != 4: continue
        if not o.sections[info][3]: continue
        for k in range(size // 24):
            ro, ri, ad = struct.unpack_from("<QQq", b, off + 24 * k)
            o.relocs.append([info, ro, {1: "64", 2: "pc32", 4: "pc32", 10: "32", 11: "32s", 24: "pc64"}.get(ri & 0xffffffff, "elf%d" % (ri & 0xffffffff)), ri >> 32, ad])
    return o


def parse_coff(b):
    o = Obj()
    mach, nsec, ts, symoff, nsym, opt, ch = struct.unpack_from("<HHIIIHH", b, 0)
    stro = symoff + 18 * nsym
    raw = []
    for i in range(nsec):
        nm, vs, va, size, off, roff, loff, nrel, nl, chs = struct.unpack_from("<8sIIIIIIHHI", b, 20 + opt + 40 * i)
        n = nm.rstrip(b"\0").decode()
        if n.startswith("/"): n = cstr(b, stro + int(n[1:]))
        data = bytearray(b[off:off + size]) if not chs & 0x80 else bytearray(size)
        al = 1 << max(0, ((chs >> 20) & 15) - 1)
        o.sections.append([n, data, al, True])
        raw.append((roff, nrel))
    idx = {}
    i = 0
    while i < nsym:
        nm, val, sec, ty, cls, aux = struct.unpack_from("<8sIhHBB", b, symoff + 18 * i)
        n = cstr(b, stro + struct.unpack_from("<I", nm, 4)[0]) if nm[:4] == b"\0\0\0\0" else nm.rstrip(b"\0").decode("latin-1")
        idx[i] = len(o.syms)
        o.syms.append([n, None if sec == 0 else sec - 1, val, cls == 2, 0])
        i += 1 + aux
    for s, (roff, nrel) in enumerate(raw):
        for k in range(nrel):
            va, si, ty = struct.unpack_from("<IIH", b, roff + 10 * k)
            d = o.sections[s][1]
            # the addend lies in the section
            if ty == 1: o.relocs.append([s, va, "64", idx[si], struct.unpack_from("<q", d, va)[0]])
            elif ty == 2: o.relocs.append([s, va, "32s", idx[si], struct.unpack_from("<i", d, va)[0]])
            elif ty == 4: o.relocs.append([s, va, "pc32", idx[si], struct.unpack_from("<i", d, va)[0] - 4])
            else: raise LoadError("COFF relocation type %d" % ty)
    return o


def parse(b):
    return parse_elf(b) if b[:4] == b"\x7fELF" else parse_coff(b)


def place(objs, resolve, flush=False):
    """objs: [(bytes, base address, is_compiled)]; resolve(name, k) -> address or None, asked before other
    objects' globals.  flush: sections end at (not start at) an unmapped page.  Returns (segments [(kind, addr, bytes, prot)], [symbols of each object])."""
    ps = [parse(b) for b, _, _ in objs]
    addrs, tabs = [], []
    for p, (_, base, comp) in zip(ps, objs):
        a = {}
        at = base
        for i, (n, d, al, alloc) in enumerate(p.sections):
            if not alloc or not d: continue
            if al > 4096: raise LoadError("section alignment")
            e = (at + len(d) + 4095) & ~4095
            a[i] = e - (-(-len(d) // al) * al) if flush else at
            at = e
            at += 4096      # an unmapped page in between
        addrs.append(a)
        tabs.append({s[0]: (a[s[1]] + s[2]) for s in p.syms if s[1] is not None and s[1] in a and s[0]})
    glob = [{s[0]: (a[s[1]] + s[2]) for s in p.syms if s[1] is not None and s[1] in a and s[3]} for p, a in zip(ps, addrs)]
    segs = []
    for k, (p, a, (_, base, comp)) in enumerate(zip(ps, addrs, objs)):
        for s, off, ty, si, add in p.relocs:
            if s not in a: continue
            name, sec, val, g = p.syms[si][:4]
            if sec is not None and sec in a: v = a[sec] + val
            elif sec == -1: v = val
            elif sec is not None: v = 0x1ee00000     # an empty section
            else:
                v = resolve(name, k)
                if v is None:
                    for gt in glob:
                        if name in gt: v = gt[name]; break
                if v is None: raise LoadError("undefined symbol " + name)
            d = p.sections[s][1]
            w = 8 if ty in ("64", "pc64") else 4
            x = v + add - (a[s] + off if ty.startswith("pc") else 0)
            try:
                if ty in ("64", "pc64"): struct.pack_into("<Q", d, off, x & (2**64 - 1))
                elif ty == "32": struct.pack_into("<I", d, off, x)
                elif ty in ("32s", "pc32"): struct.pack_into("<i", d, off, x)
                else: raise LoadError("relocation type " + ty)
            except struct.error: raise LoadError("relocation out of range: %s %s" % (ty, name))
        for i, (n, d, al, alloc) in enumerate(p.sections):
            if i not in a: continue
            if n.startswith(".text"): segs.append(("c" if comp else "f", a[i], bytes(d), 5))
            elif n.startswith((".rodata", ".rdata", ".eh_frame", ".xdata", ".pdata")): segs.append(("d", a[i], bytes(d), 1))
            else: segs.append(("d", a[i], bytes(d), 3))
    return segs, tabs
