"""http2 codec: every encoding is decodable by an independent decoder whose
table is bounded by buffer_size."""
import c01
from ref_http2 import Ref


def jobs(tier):
    return c01.jobs(tier, lambda is_req, limit: (lambda: Ref(is_req, limit)))
