"""Assumed model, for the lemmas: an identifier is its sixteen bytes."""


class UUID(object):
    def __init__(self, hex=None, bytes=None):
        if len(bytes) != 16:
            raise ValueError('bytes is not a 16-char string')

        self.bytes = bytes

    def __eq__(self, other):
        return isinstance(other, UUID) and self.bytes == other.bytes
