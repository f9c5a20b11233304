"""Independent decoder for the http2 codec's wire format (HPACK draft 03,
plain string literals), with a header table bounded by the agreed size."""

REQUEST = """:scheme=http :scheme=https :host= :path=/ :method=get accept=
accept-charset= accept-encoding= accept-language= cookie= if-modified-since=
user-agent= referer= authorization= allow= cache-control= connection=
content-length= content-type= date= expect= from= if-match= if-none-match=
if-range= if-unmodified-since= max-forwards= proxy-authorization= range=
via=""".split()
RESPONSE = """:status=200 age= cache-control= content-length= content-type=
date= etag= expires= last-modified= server= set-cookie= vary= via=
access-control-allow-origin= accept-ranges= allow= connection=
content-disposition= content-encoding= content-language= content-location=
content-range= link= location= proxy-authenticate= refresh= retry-after=
strict-transport-security= transfer-encoding= www-authenticate=""".split()


class Bad(Exception):
    pass


class Ref(object):
    def __init__(self, is_request, limit, substitution=False):
        self.limit = limit
        self.substitution = substitution
        # entries are [name, value, in the reference set]
        self.table = [e.split('=', 1) + [False]
                      for e in (REQUEST if is_request else RESPONSE)]
        self.size = sum(32 + len(n) + len(v) for n, v, _ in self.table)

    def state(self):
        return tuple((n, v, r) for n, v, r in self.table)

    def integer(self, first, bits):
        top = (1 << bits) - 1
        value = first & top
        if value < top:
            return value
        shift = 0
        while True:
            b = self.byte()
            value += (b & 127) << shift
            shift += 7
            if b < 128:
                return value

    def byte(self):
        if self.pos >= len(self.data):
            raise Bad('truncated header block')
        self.pos += 1
        return ord(self.data[self.pos - 1])

    def string(self):
        n = self.integer(0, 0)
        if self.pos + n > len(self.data):
            raise Bad('truncated string')
        self.pos += n
        return self.data[self.pos - n:self.pos]

    def add(self, name, value):
        need = 32 + len(name) + len(value)
        while self.table and self.size + need > self.limit:
            n, v, _ = self.table.pop(0)
            self.on('drop', n, v, _)
            self.size -= 32 + len(n) + len(v)
        if self.size + need <= self.limit:
            self.table.append([name, value, True])
            self.size += need
            return self.table[-1]
        return None

    def replace(self, at, name, value):
        """Draft 03: entries are dropped from the front until the new one
        fits in the place of the old one; where that was dropped, too, the new
        one becomes the first."""
        old = self.table[at]
        need = 32 + len(name) + len(value)
        while self.table:
            total = self.size + need
            if any(e is old for e in self.table):
                total -= 32 + len(old[0]) + len(old[1])
            if total <= self.limit:
                break
            n, v, _ = self.table.pop(0)
            self.size -= 32 + len(n) + len(v)
        new = [name, value, True]
        for i, e in enumerate(self.table):
            if e is old:
                self.table[i] = new
                self.size += need - 32 - len(old[0]) - len(old[1])
                return new
        if self.size + need > self.limit:
            return None
        self.table.insert(0, new)
        self.size += need
        return new

    def on(self, what, *args):
        """For observers (thrift.py)."""

    def entry(self, index):
        if index >= len(self.table):
            raise Bad('index %d outside the table (%d entries)' %
                      (index, len(self.table)))
        return self.table[index]

    def step(self, wire):
        length = ord(wire[0]) * 256 + ord(wire[1])
        self.data, self.pos = wire[8:], 0
        if length != len(self.data):
            raise Bad('frame length %d, payload %d' % (length, len(self.data)))
        out, emitted = [], []
        while self.pos < len(self.data):
            b = self.byte()
            self.on('op')
            if b & 0x80:
                e = self.entry(self.integer(b, 7))
                if e[2]:
                    e[2] = False
                else:
                    e[2] = True
                    emitted.append(id(e))
                    out.append((e[0], e[1]))
                continue
            if b & 0x40:
                which = self.integer(b, 5)
                name = self.entry(which - 1)[0] if which else self.string()
                value = self.string()
                self.on('literal', which, name, value)
                out.append((name, value))
                if not b & 0x20:
                    e = self.add(name, value)
                    if e is not None:
                        emitted.append(id(e))
                continue
            which = self.integer(b, 6)
            name = self.entry(which - 1)[0] if which else self.string()
            at = self.integer(0, 0)
            value = self.string()
            self.entry(at)
            if not self.substitution:
                raise Bad('substitution indexing is not produced by this '
                          'encoder')
            out.append((name, value))
            e = self.replace(at, name, value)
            if e is not None:
                emitted.append(id(e))
        for e in self.table:
            if e[2] and id(e) not in emitted:
                out.append((e[0], e[1]))
        d = {}
        for n, v in out:
            d[n] = d[n] + (';' if n == 'cookie' else '\0') + v if n in d else v
        return d
