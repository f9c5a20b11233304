"""Independent decoder for the delta2 wire format (SPDY4 delta encoding with
header groups over a bounded LRU)."""

STATIC = """:scheme=http connection=keep-alive x-xss-protection= x-powered-by=
x-frame-options= x-content-type-options= p3p= get-dictionary=
content-disposition= access-control-allow-origin= www-authenticate= warning=
via= vary= user-agent= upgrade= transfer-encoding= trailer= te= status=
set-cookie= server= retry-after= referer= range= proxy-authorization=
proxy-authenticate= pragma= origin= max-forwards= location= last-modified=
if-unmodified-since= if-range= if-none-match= if-modified-since= if-match=
from= expires= expect= etag= date= content-type= content-range= content-md5=
content-location= content-length= content-encoding= content-base=
cache-control= authorizations= allow= accept-ranges= accept-language=
accept-encoding= accept-charset= accept= :version=1.1 :status-text=OK
:status=200 cookie= :host= :scheme=https :method=get :path=/""".split()
STATIC = [tuple(x.split('=', 1)) for x in STATIC]
NSTATIC = len(STATIC)
BITS = [''.join('1' if (i >> (7 - j)) & 1 else '0' for j in range(8))
        for i in range(256)]
BYTE = dict((BITS[i], i) for i in range(256))


class Bad(Exception):
    pass


class Book(object):
    """Code book read off the public encoder, one symbol at a time."""

    def __init__(self, huff):
        self.root = [None, None]
        for sym in range(257):
            data, n = huff.Encode([], True) if sym == 256 else \
                huff.Encode([sym], False)
            bits = ''.join(BITS[b] for b in data)[:n]
            node = self.root
            for c in bits[:-1]:
                c = 1 if c == '1' else 0
                if node[c] is None:
                    node[c] = [None, None]
                node = node[c]
            node[1 if bits[-1] == '1' else 0] = sym

    def decode(self, bits, pos):
        out = []
        node = self.root
        while True:
            node = node[1 if bits[pos] == '1' else 0]
            pos += 1
            if type(node) is not list:
                if node == 256:
                    return ''.join(out), pos
                if node is None:
                    raise Bad('not a code word')
                out.append(chr(node))
                node = self.root


class Ref(object):
    def __init__(self, book, max_bytes=4096, max_entries=1024,
                 small_index=True, varint=True, hg_adjust=False,
                 implicit=False, refcnt=False, from_end=True, strict=False):
        # strict: the documented limit, every key and value character counts
        self.book = book
        self.strict = strict
        self.max_bytes = max_bytes
        top = 255 if small_index else 65535
        self.max_entries = min(max_entries, top - NSTATIC)
        self.top = top
        self.width = 8 if small_index else 16
        self.varint = varint
        self.hg_adjust = hg_adjust
        self.implicit = implicit
        self.refcnt = refcnt
        self.from_end = from_end
        self.lru = []          # (sequence number, name, value), oldest first
        self.size = 0
        self.seq = NSTATIC
        self.groups = {}       # group -> set of sequence numbers

    def state(self):
        return (tuple(self.lru), tuple(sorted(
            (g, tuple(sorted(s))) for g, s in self.groups.items())))

    # -- bits
    def take(self, n):
        if self.pos + n > len(self.bits):
            raise Bad('truncated payload')
        v = int(self.bits[self.pos:self.pos + n], 2)
        self.pos += n
        return v

    def index(self):
        if not self.varint:
            return self.take(self.width)
        v = self.take(4)
        if v < 15:
            return v
        shift = 0
        while True:
            n = self.take(4)
            v += (n & 7) << shift
            shift += 3
            if n < 8:
                return v

    def string(self):
        s, self.pos = self.book.decode(self.bits, self.pos)
        self.pos = (self.pos + 7) // 8 * 8
        return s

    def on(self, what, *args):
        """For observers (thrift.py)."""

    # -- table
    def seqnum(self, index):
        if not self.from_end:
            return index
        if index < len(self.lru):
            return self.lru[-1 - index][0]
        return NSTATIC - 1 - (index - len(self.lru))

    def lookup(self, seq):
        if 0 <= seq < NSTATIC:
            return STATIC[seq]
        for s, k, v in self.lru:
            if s == seq:
                return k, v
        raise Bad('reference to an entry that is not in the table')

    def weigh(self, key, value):
        if self.strict:
            return len(key) + len(value)
        return 0 if self.refcnt else len(value)

    def pop(self):
        seq, k, v = self.lru.pop(0)
        self.size -= self.weigh(k, v)
        for g in list(self.groups):
            self.groups[g].discard(seq)
            if not self.groups[g]:
                del self.groups[g]

    def store(self, k, v):
        if not self.max_entries or not self.max_bytes:
            return None
        while len(self.lru) + 1 > self.max_entries:
            self.pop()
        while self.size + self.weigh(k, v) > self.max_bytes:
            if not self.lru:
                return None
            self.pop()
        self.lru.append((self.seq, k, v))
        self.size += self.weigh(k, v)
        self.seq += 1
        if self.seq >= self.top:
            self.seq = NSTATIC
        return self.lru[-1][0]

    def step(self, wire):
        w = [ord(c) for c in wire]
        if len(w) < 9:
            raise Bad('short frame')
        payload, last, gid = [], False, w[8]
        while not last:
            if len(w) < 9 or w[2] != 8 or w[4] & 0x80 == 0 or w[8] != gid:
                raise Bad('not a header frame')
            n, last = w[0] * 256 + w[1], w[3] != 0
            if len(w) < 9 + n:
                raise Bad('frame length %d, payload %d' % (n, len(w) - 9))
            payload += w[9:9 + n]
            w = w[9 + n:]
        if w:
            raise Bad('%d bytes after the last frame' % len(w))
        self.bits = ''.join([BITS[b] for b in payload])
        self.pos = 0
        group = self.groups.setdefault(gid, set())
        st, et, later, out = set(), set(), [], []
        while len(self.bits) - self.pos > 8:
            op, count = self.take(4), self.take(4) + 1
            for _ in range(count):
                if op in (0, 1):
                    (et if op else st).symmetric_difference_update(
                        [self.seqnum(self.index())])
                    self.on('toggles', 1)
                elif op in (2, 3):
                    last = self.seqnum(self.index())
                    first = self.seqnum(self.index())
                    if last < first:
                        raise Bad('empty range')
                    (et if op == 3 else st).symmetric_difference_update(
                        range(first, last + 1))
                    self.on('toggles', last + 1 - first)
                elif op in (4, 5):
                    k = self.lookup(self.seqnum(self.index()))[0]
                    v = self.string()
                    self.on('clone', k, v)
                    out.append((k, v))
                    if op == 4:
                        later.append((k, v))
                elif op in (6, 7):
                    k = self.string()
                    v = self.string()
                    self.on('spell', k, v)
                    out.append((k, v))
                    if op == 6:
                        later.append((k, v))
                else:
                    raise Bad('opcode %d' % op)
        self.on('sets', group, st, et)
        group.symmetric_difference_update(st)
        for seq in et.symmetric_difference(group):
            out.append(self.lookup(seq))
        again = []
        if self.hg_adjust:
            again = [(seq,) + self.lookup(seq) for seq in sorted(group)]
        for k, v in later:
            seq = self.store(k, v)
            if self.implicit and seq is not None:
                group.add(seq)
        for old, k, v in again:
            group.discard(old)
            seq = self.store(k, v)
            if seq is not None:
                group.add(seq)
        total = sum(len(v) for _, _, v in self.lru)
        if len(self.lru) > self.max_entries or \
                (total > self.max_bytes and not self.refcnt):
            raise Bad('table exceeds its limits')
        d = {}
        for n, v in out:
            d[n] = d[n] + ('; ' if n == 'cookie' else '\0') + v \
                if n in d else v
        return d
