"""Independent decoder for the wire format of the Python delta codec (the first
SPDY4 delta encoding): header groups over a bounded table whose entries get new
numbers in every message that uses them."""
from ref_delta2 import BITS, Bad, Book

STATIC = """:path=/ :scheme=http :scheme=https :method=get :host= cookie=
:status=200 :status-text=OK :version=1.1 accept= accept-charset=
accept-encoding= accept-language= accept-ranges= allow= authorizations=
cache-control= content-base= content-encoding= content-length=
content-location= content-md5= content-range= content-type= date= etag=
expect= expires= from= if-match= if-modified-since= if-none-match= if-range=
if-unmodified-since= last-modified= location= max-forwards= origin= pragma=
proxy-authenticate= proxy-authorization= range= referer= retry-after= server=
set-cookie= status= te= trailer= transfer-encoding= upgrade= user-agent= vary=
via= warning= www-authenticate= access-control-allow-origin=
content-disposition= get-dictionary= p3p= x-content-type-options=
x-frame-options= x-powered-by= x-xss-protection=
connection=keep-alive""".split()
STATIC = [tuple(x.split('=', 1)) for x in STATIC]
TOP = 1 << 16


class Numbers(object):
    def __init__(self):
        self.last = 0
        self.low = 0

    def next(self, used):
        while True:
            self.last += 1
            if self.last >= TOP:
                self.last = self.low
            if self.last not in used:
                return self.last


class Entry(object):
    def __init__(self, name, value, fixed=False):
        self.name, self.value, self.fixed = name, value, fixed
        self.number = None


class Ref(object):
    def __init__(self, book, max_bytes=16 * 1024, max_entries=4096):
        self.book = book
        self.max_bytes = max_bytes
        self.max_entries = max_entries
        self.numbers = Numbers()
        self.name_numbers = Numbers()
        self.names = {}        # name -> number of the name
        self.by_name = {}      # and back
        self.table = {}        # number -> Entry
        self.fields = {}       # (name, value) -> Entry
        self.lru = []          # not the predefined ones, oldest first
        self.groups = {}       # group -> set of entries
        for name, value in STATIC:
            if name not in self.names:
                self.new_name(name)
            self.new_entry(Entry(name, value, True))
        self.numbers.low = len(STATIC)
        self.fixed_names = set(self.names)
        self.size = 0

    def on(self, what, *args):
        """For observers (thrift.py)."""

    def state(self):
        return (tuple((e.number, e.name, e.value) for e in self.lru),
                tuple(sorted(self.names.items())), tuple(sorted(
                    (g, tuple(sorted(e.number for e in s)))
                    for g, s in self.groups.items())))

    def new_name(self, name):
        n = self.name_numbers.next(self.by_name)
        self.names[name] = n
        self.by_name[n] = name

    def new_entry(self, e):
        e.number = self.numbers.next(self.table)
        self.table[e.number] = self.fields[e.name, e.value] = e

    def pop(self, keep):
        e = self.lru.pop(0)
        del self.table[e.number], self.fields[e.name, e.value]
        for s in self.groups.values():
            s.discard(e)
        self.size -= len(e.value)
        if e.name != keep and e.name not in self.fixed_names and \
                not [x for x in self.lru if x.name == e.name]:
            del self.by_name[self.names.pop(e.name)]
            self.size -= len(e.name)

    def store(self, name, value):
        """The name, then the value, displaces as many of the oldest entries
        as it needs. One that is larger than the table has it for itself."""
        if (name, value) in self.fields:
            return None
        if name not in self.names:
            while self.size + len(name) > self.max_bytes and self.lru:
                self.pop(name)
            self.new_name(name)
            self.size += len(name)
        while len(self.lru) >= self.max_entries and self.lru:
            self.pop(name)
        while self.size + len(value) > self.max_bytes and self.lru:
            self.pop(name)
        self.size += len(value)
        e = Entry(name, value)
        self.new_entry(e)
        self.lru.append(e)
        return e

    def take(self, n):
        if self.pos + n > len(self.bits):
            raise Bad('truncated payload')
        v = int(self.bits[self.pos:self.pos + n], 2)
        self.pos += n
        return v

    def string(self):
        s, self.pos = self.book.decode(self.bits, self.pos)
        self.pos = (self.pos + 7) // 8 * 8
        return s

    def switch(self, n, switched):
        if n not in self.table:
            raise Bad('reference to entry %d, which does not exist' % n)
        if self.table[n] in switched:
            raise Bad('entry %d is switched twice' % n)
        switched.add(self.table[n])

    def step(self, wire):
        w = [ord(c) for c in wire]
        payload, last, gid = [], False, None
        while not last:
            if len(w) < 9:
                raise Bad('short frame')
            if gid is None:
                gid = w[8]
            if w[7] != 8 or w[3] & 0x80 == 0 or w[8] != gid:
                raise Bad('not a header frame')
            n, last = w[0] * 256 + w[1], w[2] != 0
            if len(w) < 9 + n:
                raise Bad('frame length %d, payload %d' % (n, len(w) - 9))
            payload += w[9:9 + n]
            w = w[9 + n:]
        if w:
            raise Bad('%d bytes after the last frame' % len(w))
        self.bits = ''.join([BITS[b] for b in payload])
        self.pos = 0
        group = self.groups.setdefault(gid, set())
        switched, later, out = set(), [], []
        while self.pos < len(self.bits):
            op, count = self.take(8), self.take(8) + 1
            for _ in range(count):
                if op == 1:
                    self.switch(self.take(16), switched)
                elif op == 2:
                    stop, start = self.take(16), self.take(16)
                    if stop < start:
                        raise Bad('empty range')
                    for n in range(start, stop + 1):
                        self.switch(n, switched)
                elif op == 3:
                    n = self.take(16)
                    if n not in self.by_name:
                        raise Bad('name %d does not exist' % n)
                    k, v = self.by_name[n], self.string()
                    self.on('clone', k, v)
                    out.append((k, v))
                    later.append((k, v))
                elif op in (4, 5):
                    k, v = self.string(), self.string()
                    out.append((k, v))
                    self.on('spell' if op == 4 else 'eref', k, v)
                    if op == 4:
                        later.append((k, v))
                else:
                    raise Bad('opcode %d' % op)
        self.on('sets', group, switched)
        for e in switched:
            group.symmetric_difference_update([e])
        for e in group:
            out.append((e.name, e.value))
        for k, v in later:
            e = self.store(k, v)
            if e is not None:
                group.add(e)
        # entries in use become the newest, and belong to this group alone
        for e in sorted(group, key=lambda e: e.number):
            for s in self.groups.values():
                s.discard(e)
            group.add(e)
            if not e.fixed:
                self.lru.remove(e)
                self.lru.append(e)
            old = e.number
            del self.table[old]
            e.number = self.numbers.next(self.table)
            self.table[e.number] = e
        d = {}
        for n, v in out:
            d[n] = d[n] + ('; ' if n == 'cookie' else '\0') + v \
                if n in d else v
        return d
