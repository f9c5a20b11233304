"""The reference decoders, which also object to encodings that spend more than
the receiver's table makes necessary, or disregard a documented option."""
import ref_http2
import ref_headerdiff
import ref_delta
import ref_delta2


class Waste(Exception):
    pass


class Http2(ref_http2.Ref):
    """No field is spelled out while it is in the table, no name while it is
    in the table, and the number of operations is that of the differences to
    the previous message, and of the entries lost to evictions."""

    def on(self, what, *args):
        if what == 'op':
            self.ops += 1
        elif what == 'drop':
            self.lost += args[2]
        else:
            which, name, value = args
            self.fields.append((name, value))
            for e in self.table:
                if e[0] == name and e[1] == value:
                    raise Waste('%r: %r is in the table, but spelled out' %
                                (name, value[:40]))
                if not which and e[0] == name:
                    raise Waste('the name %r is in the table, but spelled out'
                                % name)

    def step(self, wire):
        before = set((e[0], e[1]) for e in self.table if e[2])
        self.ops = self.lost = 0
        self.fields = []
        out = ref_http2.Ref.step(self, wire)
        fields = []
        for n, v in out.items():
            fields += [(n, x) for x in v.split(';' if n == 'cookie' else
                                               '\0')]
        if len(set(fields)) == len(fields):
            need = len(before.symmetric_difference(fields))
            if not need <= self.ops <= need + self.lost:
                raise Waste('%d operations for %d differences (%d entries '
                            'evicted)' % (self.ops, need, self.lost))
        return out


def prefix(a, b):
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return n


class HeaderDiff(ref_headerdiff.Ref):
    """No field is spelled out while it is in the table, no name while it is
    in the name table, and values are given relative to the entry of that name
    that shares most, as far as the delta options admit."""
    delta, ends, most = True, None, None

    def on(self, what, *args):
        if what == 'replace':
            self.uses.pop(args[0], None)
            return
        ref, keep = None, 0
        if what == 'delta':
            ref, keep, name, value = args
            if not self.delta:
                raise Waste('delta encoding is disabled')
        else:
            which, name, value = args
            if not which and name in self.names[:-1]:
                raise Waste('the name %r is in the table, but spelled out' %
                            name)
        if (name, value) in self.table:
            raise Waste('%r: %r is in the table, but spelled out' %
                        (name, value[:40]))
        best = 0
        for i, (n, v) in enumerate(self.table):
            if n == name and self.delta and not (
                    self.most is not None and
                    self.uses.get(i, 0) >= self.most):
                k = prefix(value, v)
                while self.ends is not None and k and \
                        value[k - 1] not in self.ends:
                    k -= 1
                best = max(best, k)
            elif i == ref:
                raise Waste('entry %d is not available as a reference' % i)
        if best < 2 and ref is None:
            return
        if keep != best:
            raise Waste('%r: %r keeps %d octets of the best entry, not %d' %
                        (name, value[:40], keep, best))
        self.uses[ref] = self.uses.get(ref, 0) + 1

    def step(self, wire):
        if not hasattr(self, 'uses'):
            self.uses = {}
        return ref_headerdiff.Ref.step(self, wire)


class Delta2(ref_delta2.Ref):
    """No field is spelled out while it is in the table, no name while it is
    in the table, and entries are switched only where the message differs from
    the previous one of the group."""
    explicit = False

    def on(self, what, *args):
        if what == 'toggles':
            self.toggles += args[0]
            return
        table = ref_delta2.STATIC + [e[1:] for e in self.lru]
        if what != 'sets':
            name, value = args
            self.fields.append((name, value))
            if (name, value) in table:
                raise Waste('%r: %r is in the table, but spelled out' %
                            (name, value[:40]))
            if what == 'spell' and name in [e[0] for e in table]:
                raise Waste('the name %r is in the table, but spelled out' %
                            name)
            return
        group, st, et = args
        if len(self.fields) != len(set(self.fields)):
            raise Waste('a field is spelled out twice')
        if self.explicit:
            # everything is referred to explicitly
            if group and not self.implicit and not self.hg_adjust:
                raise Waste('entries stay in the header group')
        elif et:
            raise Waste('a reference that does not stay in the header group')
        now = group.symmetric_difference(st).symmetric_difference(et)
        lookup = dict((e[0], e[1:]) for e in self.lru)
        for i in range(len(ref_delta2.STATIC)):
            lookup[i] = ref_delta2.STATIC[i]
        want = set(lookup[i] for i in now)
        # each entry of the group that the message does not have, and each
        # field of the message which was not in the group
        had = [lookup[i] for i in group]
        need = len([x for x in had if x not in want]) + \
            len(want.difference(had)) + len(had) - len(set(had))
        if self.toggles > need:
            raise Waste('%d entries are switched for %d differences' %
                        (self.toggles, need))

    def step(self, wire):
        self.toggles = 0
        self.fields = []
        return ref_delta2.Ref.step(self, wire)


class Delta(ref_delta.Ref):
    """No field is spelled out while it is in the table (but :path and
    referer, which are never stored) or twice, and no name while it is in the
    table."""
    NEVER = (':path', 'referer')

    def on(self, what, *args):
        if what == 'sets':
            return
        name, value = args
        if (name, value) in self.spelled:
            raise Waste('%r: %r is spelled out twice' % (name, value[:40]))
        self.spelled.append((name, value))
        if name in self.NEVER:
            if what != 'eref':
                raise Waste('%s is stored' % name)
            return
        if (name, value) in self.fields:
            raise Waste('%r: %r is in the table, but spelled out' %
                        (name, value[:40]))
        if what != 'clone' and name in self.names:
            raise Waste('the name %r is in the table, but spelled out' % name)

    def step(self, wire):
        self.spelled = []
        return ref_delta.Ref.step(self, wire)
