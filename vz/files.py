"""Independent reader of the on-disk formats (written from README and the layout of the header structs)."""
import os, re, struct
from . import gen

IHDR = struct.Struct("<4sIQQIB")      # magic, version, created, opened, fileid, mode
ITEM = struct.Struct("<BIIIBIIIII")    # idlength, offset, length, previous, flags, dataid, timestamp, crc, parentid, parentoff
DHDR = struct.Struct("<4sIQQI")
DENT = struct.Struct("<BIIIBI")        # idlength, datalength, previous, integrity, flags, timestamp
assert IHDR.size == 29 and ITEM.size == 34 and DHDR.size == 28 and DENT.size == 18

class Bad(Exception):
    """(key, text): the file is not a sequence of whole entries"""

class Item:
    __slots__ = ("fid", "off", "id", "offset", "length", "previous", "flags", "dataid", "ts", "crc", "parentid", "parentoff", "raw")
    @property
    def deleted(self): return self.flags & 1
class Ent:
    __slots__ = ("fid", "off", "id", "payload", "previous", "crc", "flags", "ts")
    @property
    def deleted(self): return self.flags & 1

def numbered(d, letter):
    out = {}
    try: l = os.listdir(d)
    except OSError: return out
    for f in l:
        m = re.match("^%s(0|[1-9][0-9]*)$" % letter, f)
        if m: out[int(m.group(1))] = os.path.join(d, f)
    return out

def rd(p):
    with open(p, "rb") as f: return f.read()

def parse_index(b, fid):
    """returns (mode, [Item]); raises Bad unless the bytes are whole entries"""
    if len(b) < IHDR.size: raise Bad("index-header", "i%d has %d bytes" % (fid, len(b)))
    magic, ver, cr, op, fileid, mode = IHDR.unpack_from(b)
    if magic != b"IDX0" or fileid != fid: raise Bad("index-header", "i%d header %r file id %d" % (fid, magic, fileid))
    o, out = IHDR.size, []
    while o < len(b):
        if o + ITEM.size > len(b): raise Bad("index-tail", "i%d ends inside an entry at %d" % (fid, o))
        it = Item(); it.fid, it.off = fid, o
        (n, it.offset, it.length, it.previous, it.flags, it.dataid, it.ts, it.crc, it.parentid, it.parentoff) = ITEM.unpack_from(b, o)
        it.id = b[o + ITEM.size:o + ITEM.size + n]
        if len(it.id) != n: raise Bad("index-tail", "i%d ends inside an entry at %d" % (fid, o))
        it.raw = b[o:o + ITEM.size + n]
        o += ITEM.size + n
        out.append(it)
    return mode, out

def parse_data(b, fid):
    if len(b) < DHDR.size: raise Bad("data-header", "d%d has %d bytes" % (fid, len(b)))
    magic, ver, cr, op, fileid = DHDR.unpack_from(b)
    if magic != b"DAT0" or fileid != fid: raise Bad("data-header", "d%d header %r file id %d" % (fid, magic, fileid))
    o, out = DHDR.size, []
    while o < len(b):
        if o + DENT.size > len(b): raise Bad("data-tail", "d%d ends inside an entry at %d" % (fid, o))
        e = Ent(); e.fid, e.off = fid, o
        n, l, e.previous, e.crc, e.flags, e.ts = DENT.unpack_from(b, o)
        e.id = b[o + DENT.size:o + DENT.size + n]
        e.payload = b[o + DENT.size + n:o + DENT.size + n + l]
        if len(e.id) != n or len(e.payload) != l: raise Bad("data-tail", "d%d ends inside an entry at %d" % (fid, o))
        o += DENT.size + n + l
        out.append(e)
    return out

class Store:
    """the files of one namespace"""
    def __init__(self, datadir, indexdir):
        self.d = {i: rd(p) for i, p in numbered(datadir, "d").items()}
        self.i = {i: rd(p) for i, p in numbered(indexdir, "i").items()}
    def parse(self):
        self.data = {i: parse_data(b, i) for i, b in self.d.items()}
        self.index = {}; self.modes = {}
        for i, b in self.i.items(): self.modes[i], self.index[i] = parse_index(b, i)
        return self
    def replay(self):
        """dataset given by the data files alone: {key: Ent}"""
        live = {}
        for f in sorted(self.data):
            for e in self.data[f]:
                if e.deleted: live.pop(e.id, None)
                else: live[e.id] = e
        return live
    def items(self):
        for f in sorted(self.index): yield from self.index[f]
