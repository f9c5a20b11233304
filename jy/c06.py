"""delta2 codec: every encoding is decodable by an independent decoder whose
table is bounded by max_entries and max_byte_size."""
import c05
from engine import Job
from ref_delta2 import Ref

H = 'www.example.com'
KEYS = (dict(('x-name-of-field-%04d' % i, '1') for i in range(20)), H)
VALS = (dict(('n-%d' % i, ('value %d ' % i) * 8) for i in range(20)), H)


def jobs(tier):
    out = c05.jobs(tier, c05.ref_maker)
    # Known finding: the limit in characters ignores the names, and, with
    # reference-counted values, the values too.
    for name, params, refcnt, msg in (
            ('limit in characters, names', [], False, KEYS),
            ('limit in characters, shared values', ['refcnt_vals=true'], True,
             VALS)):
        out.append(Job(
            name, c05.make(True, ['max_byte_size=100'] + params), [], 0,
            kind='list', histories=[[msg, msg]],
            monitor=lambda r=refcnt: Ref(c05.book(True), max_bytes=100,
                                         refcnt=r, strict=True)))
    return out
