"""Reach the same bytes through any of the library's access helpers
(bytes, words of any size and byte order, single words)."""


async def rd(r, obj, prefix, args, addr, ln, plain=0.5, **kw):
    """ln bytes at addr as bytes"""
    prefix += "_" if prefix else ""
    if r.random() >= plain:
        opts = ["words"]
        if ln % 4 == 0:
            opts.append("dwords")
        if ln % 8 == 0:
            opts.append("qwords")
        if ln == 1 and prefix:
            opts += ["byte"] * 2
        if ln == 4:
            opts += ["dword"] * 2
        if ln == 8:
            opts += ["qword"] * 2
        if ln <= 16:
            opts.append("word")
        o = r.choice(opts)
        order = r.choice(["little", "big"])
        f = getattr(obj, f"{prefix}read_{o}")
        if o == "byte":
            return bytes([await f(*args, addr, **kw)])
        if o == "word":
            if ln == 2 and r.random() < 0.5:
                return (await f(*args, addr, **kw)).to_bytes(2, "little")
            return (await f(*args, addr, byteorder=order, ws=ln, **kw)).to_bytes(ln, order)
        if o in ("dword", "qword"):
            return (await f(*args, addr, byteorder=order, **kw)).to_bytes(ln, order)
        if o == "words":
            ws = r.choice([w for w in (1, 2, 3, 4, 5, 8, 16) if ln % w == 0])
            v = await f(*args, addr, ln // ws, byteorder=order, ws=ws, **kw)
        else:
            ws = 4 if o == "dwords" else 8
            v = await f(*args, addr, ln // ws, byteorder=order, **kw)
        return b"".join(x.to_bytes(ws, order) for x in v)
    return bytes(await getattr(obj, f"{prefix}read")(*args, addr, ln, **kw))


async def wr(r, obj, prefix, args, addr, data, plain=0.5, **kw):
    ln = len(data)
    prefix += "_" if prefix else ""
    if r.random() >= plain:
        opts = ["words"]
        if ln % 4 == 0:
            opts.append("dwords")
        if ln % 8 == 0:
            opts.append("qwords")
        if ln == 1 and prefix:
            opts += ["byte"] * 2
        if ln == 4:
            opts += ["dword"] * 2
        if ln == 8:
            opts += ["qword"] * 2
        if ln <= 16:
            opts.append("word")
        o = r.choice(opts)
        order = r.choice(["little", "big"])
        f = getattr(obj, f"{prefix}write_{o}")
        if o == "byte":
            return await f(*args, addr, data[0], **kw)
        if o == "word":
            if ln == 2 and r.random() < 0.5:
                return await f(*args, addr, int.from_bytes(data, "little"), **kw)
            return await f(*args, addr, int.from_bytes(data, order), byteorder=order, ws=ln, **kw)
        if o in ("dword", "qword"):
            return await f(*args, addr, int.from_bytes(data, order), byteorder=order, **kw)
        if o == "words":
            ws = r.choice([w for w in (1, 2, 3, 4, 5, 8, 16) if ln % w == 0])
            return await f(*args, addr, [int.from_bytes(data[i:i + ws], order) for i in range(0, ln, ws)], byteorder=order, ws=ws, **kw)
        ws = 4 if o == "dwords" else 8
        return await f(*args, addr, [int.from_bytes(data[i:i + ws], order) for i in range(0, ln, ws)], byteorder=order, **kw)
    return await getattr(obj, f"{prefix}write")(*args, addr, data, **kw)
