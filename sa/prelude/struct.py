from _struct import pack, unpack, calcsize, error


def unpack_from(fmt, buffer, offset=0):
    return unpack(fmt, buffer[offset:offset + calcsize(fmt)])


class Struct(object):
    def __init__(self, format):
        self.format = format
        self.size = calcsize(format)

    def pack(self, *a):
        return pack(self.format, *a)

    def unpack(self, b):
        return unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return unpack_from(self.format, b, offset)
