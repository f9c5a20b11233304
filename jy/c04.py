"""headerdiff codec: every encoding is decodable by an independent decoder
whose table is bounded by the configured buffer."""
import c03


def jobs(tier):
    return c03.jobs(tier, c03.ref_maker)
