"""The part of the bitarray package that compressor/simple/seven.py uses."""


class bitarray(object):
    def __init__(self, bits=()):
        self.bits = list(bits)

    def __len__(self):
        return len(self.bits)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return bitarray(self.bits[i])
        return self.bits[i]

    def __getslice__(self, i, j):
        return bitarray(self.bits[i:j])

    def __iter__(self):
        return iter(self.bits)

    def append(self, bit):
        self.bits.append(int(bool(bit)))

    def extend(self, bits):
        self.bits.extend(int(bool(b)) for b in bits)

    def frombytes(self, s):
        for c in s:
            self.bits.extend((ord(c) >> k) & 1 for k in range(7, -1, -1))

    fromstring = frombytes

    def tobytes(self):
        out = []
        for i in range(0, len(self.bits), 8):
            n = 0
            for b in (self.bits[i:i + 8] + [0] * 7)[:8]:
                n = n * 2 + b
            out.append(chr(n))
        return ''.join(out)

    tostring = tobytes
