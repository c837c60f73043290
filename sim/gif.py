"""A small GIF decoder, written from the GIF89a specification and independent of the library that writes the files."""


class BadGif(Exception):
    pass


def lzw(data, min_size, n):
    """Decompress n pixels"""
    clear, end = 1 << min_size, (1 << min_size) + 1
    table, size = [], 0

    def reset():
        return [bytes([i]) for i in range(clear)] + [b'', b''], min_size + 1

    table, size = reset()
    out = bytearray()
    bits = acc = 0
    prev = None
    for byte in data:
        acc |= byte << bits
        bits += 8
        while bits >= size:
            code = acc & ((1 << size) - 1)
            acc >>= size
            bits -= size
            if code == clear:
                table, size = reset()
                prev = None
                continue
            if code == end:
                if len(out) != n:
                    raise BadGif('%d pixels, expected %d' % (len(out), n))
                return bytes(out)
            if prev is None:
                if code >= len(table):
                    raise BadGif('bad first code')
                entry = table[code]
            else:
                if code < len(table):
                    entry = table[code]
                elif code == len(table):
                    entry = prev + prev[:1]
                else:
                    raise BadGif('bad code')
                if len(table) < 4096:
                    table.append(prev + entry[:1])
            out += entry
            prev = entry
            if len(table) == (1 << size) and size < 12:
                size += 1
    raise BadGif('data ends before the end code')


def decode(data):
    """-> dict(size, loop, frames=[(delay in ms, [(r, g, b, a), ...]), ...]) with frames as a viewer shows them"""
    if data[:6] != b'GIF89a':
        raise BadGif('no GIF89a header')
    pos = 6

    def take(k):
        nonlocal pos
        if pos + k > len(data):
            raise BadGif('file is cut off')
        pos += k
        return data[pos-k:pos]

    def u16(b):
        return b[0] | b[1] << 8

    def blocks():
        out = b''
        while True:
            k = take(1)[0]
            if not k:
                return out
            out += take(k)

    w, h = u16(take(2)), u16(take(2))
    flags = take(3)[0]
    glob = take(3 << ((flags & 7) + 1)) if flags & 0x80 else None
    canvas = [(0, 0, 0, 0)] * (w * h)
    frames, loop = [], None
    delay, disposal, transparent = 0, 0, None
    while True:
        kind = take(1)
        if kind == b';':
            break
        if kind == b'!':
            label = take(1)[0]
            body = blocks()
            if label == 0xf9:
                disposal = body[0] >> 2 & 7
                delay = u16(body[1:3]) * 10
                transparent = body[3] if body[0] & 1 else None
            elif label == 0xff and body[:11] == b'NETSCAPE2.0' and body[11] == 1:
                loop = u16(body[12:14])
        elif kind == b',':
            x0, y0, fw, fh = (u16(take(2)) for _ in range(4))
            flags = take(1)[0]
            table = take(3 << ((flags & 7) + 1)) if flags & 0x80 else glob
            if table is None:
                raise BadGif('frame without colours')
            size = take(1)[0]
            pixels = lzw(blocks(), size, fw * fh)
            rows = list(range(fh))
            if flags & 0x40:
                rows = list(range(0, fh, 8)) + list(range(4, fh, 8)) + list(range(2, fh, 4)) + list(range(1, fh, 2))
            if x0 + fw > w or y0 + fh > h:
                raise BadGif('frame outside of the canvas')
            before = list(canvas)
            for k, row in enumerate(rows):
                base = (y0 + row) * w + x0
                for x in range(fw):
                    c = pixels[k*fw + x]
                    if c != transparent:
                        if 3*c + 3 > len(table):
                            raise BadGif('colour index out of range')
                        canvas[base + x] = (table[3*c], table[3*c+1], table[3*c+2], 255)
            frames.append((delay, list(canvas)))
            if disposal == 2:
                for row in range(y0, y0 + fh):
                    for x in range(x0, x0 + fw):
                        canvas[row*w + x] = (0, 0, 0, 0)
            elif disposal == 3:
                canvas = before
            delay, disposal, transparent = 0, 0, None
        else:
            raise BadGif('unknown block %r' % kind)
    if pos != len(data):
        raise BadGif('%d bytes after the end' % (len(data) - pos))
    return dict(size=(w, h), loop=loop, frames=frames)
