"""Independent decoder for the headerdiff wire format, with a header table
bounded (sum of the value lengths) by the configured buffer."""
import zlib

REQ = """accept accept-charset accept-encoding accept-language cookie :method
host if-modified-since keep-alive :host :scheme :path user-agent :version
proxy-connection referer accept-datetime authorization allow cache-control
connection content-length content-md5 content-type date expect from if-match
if-none-match if-range if-unmodified-since max-forwards pragma
proxy-authorization range te upgrade via warning""".split()
RES = """age cache-control content-length content-type date etag expires
last-modified server set-cookie :status vary :version via :status-text
access-control-allow-origin accept-ranges allow connection content-disposition
content-encoding content-language content-location content-md5 content-range
link location p3p pragma proxy-authenticate refresh retry-after
strict-transport-security trailer transfer-encoding warning
www-authenticate""".split()


class Bad(Exception):
    pass


class Ref(object):
    def __init__(self, is_request, limit, deflate=None, huffman=None,
                 dictionary=None):
        self.limit = limit
        self.names = list(REQ if is_request else RES)
        self.table = []
        self.size = 0
        self.huffman = huffman
        self.inflate = None
        if deflate is not None:
            c = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION, zlib.DEFLATED,
                                 deflate, 8, zlib.Z_DEFAULT_STRATEGY)
            self.inflate = zlib.decompressobj()
            self.inflate.decompress(c.compress(dictionary) +
                                    c.flush(zlib.Z_SYNC_FLUSH))

    def state(self):
        return (tuple(self.table), len(self.names))

    def byte(self):
        if self.pos >= len(self.data):
            raise Bad('truncated header block')
        self.pos += 1
        return ord(self.data[self.pos - 1])

    def integer(self, first, bits):
        if bits > 8:
            value = ((first & ((1 << (bits - 8)) - 1)) << 8) | self.byte()
        else:
            value = first & ((1 << bits) - 1)
        if value < (1 << bits) - 1:
            return value
        shift = 0
        while True:
            b = self.byte()
            value += (b & 127) << shift
            shift += 7
            if b < 128:
                return value

    def string(self):
        if self.huffman is not None:
            text, used = self.huffman.decode(self.data[self.pos:])
            self.pos += used
            return text
        n = self.integer(0, 0)
        if self.pos + n > len(self.data):
            raise Bad('truncated string')
        self.pos += n
        return self.data[self.pos - n:self.pos]

    def on(self, what, *args):
        """For observers (thrift.py)."""

    def entry(self, i):
        if i >= len(self.table):
            raise Bad('index %d outside the table (%d entries)' %
                      (i, len(self.table)))
        return self.table[i]

    def step(self, wire):
        length = ord(wire[0]) * 256 + ord(wire[1])
        if length != len(wire) - 8:
            raise Bad('frame length %d, payload %d' % (length, len(wire) - 8))
        self.data, self.pos = wire[8:], 0
        if self.inflate is not None:
            self.data = self.inflate.decompress(self.data)
        out = []
        for _ in range(self.byte()):
            b = self.byte()
            if b & 0x80:
                i = self.integer(b, 14) + 64 if b & 0x40 else b & 0x3f
                out.append(self.entry(i))
                continue
            mode = b & 0x30
            bits = 4 if mode in (0x20, 0x30) else 5
            ref = None
            if b & 0x40:
                ref = self.integer(b, bits)
                name, old = self.entry(ref)
                keep = self.integer(0, 0)
                if keep > len(old):
                    raise Bad('shared prefix longer than the reference')
                value = old[:keep] + self.string()
                self.on('delta', ref, keep, name, value)
            else:
                n = self.integer(b, bits)
                if n == 0:
                    name = self.string()
                    self.names.append(name)
                else:
                    if n > len(self.names):
                        raise Bad('name index %d of %d' % (n, len(self.names)))
                    name = self.names[n - 1]
                if mode == 0x30:
                    ref = self.integer(0, 0)
                value = self.string()
                self.on('literal', n, name, value)
            out.append((name, value))
            if mode == 0x30:
                self.size -= len(self.entry(ref)[1])
                self.table[ref] = (name, value)
                self.on('replace', ref)
            elif mode == 0x20:
                self.table.append((name, value))
            if mode in (0x20, 0x30):
                self.size += len(value)
            if self.size > self.limit:
                raise Bad('header table holds %d bytes, limit %d' %
                          (self.size, self.limit))
        if self.pos != len(self.data):
            raise Bad('%d bytes after the last header' %
                      (len(self.data) - self.pos))
        d = {}
        for n, v in out:
            d[n] = d[n] + (';' if n == 'cookie' else '\0') + v if n in d else v
        return d
