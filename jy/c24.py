"""delta (Python): every encoding is decodable by an independent decoder whose
table is bounded by max_entries and max_byte_size."""
import c07


def jobs(tier):
    return c07.jobs(tier, c07.ref_maker)
