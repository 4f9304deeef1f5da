"""Independent Standard MIDI File codec, written from the specification, sharing nothing with melodia.

parse(data)  strict parser: raises Bad on anything that is not a well-formed file
encode(...)  encoder for synthetic foreign files
"""


class Bad(Exception):
    pass


def vlq(x: int) -> bytes:
    out = [x & 0x7F]
    x >>= 7
    while x:
        out.append(0x80 | (x & 0x7F))
        x >>= 7
    return bytes(reversed(out))


class _R:
    def __init__(self, data, pos=0, end=None):
        self.d, self.p, self.e = data, pos, len(data) if end is None else end

    def take(self, n):
        if self.p + n > self.e:
            raise Bad(f'needs {n} bytes at {self.p}, chunk ends at {self.e}')
        r = self.d[self.p:self.p + n]
        self.p += n
        return r

    def u8(self):
        return self.take(1)[0]

    def vlq(self, max_bytes=4):
        x, n = 0, 0
        while True:
            b = self.u8()
            n += 1
            if n > max_bytes:
                raise Bad('variable-length quantity longer than %d bytes' % max_bytes)
            if n == 1 and b == 0x80:
                raise Bad('variable-length quantity with a redundant leading byte')
            x = (x << 7) | (b & 0x7F)
            if not b & 0x80:
                return x


def parse(data: bytes, max_vlq: int = 4):
    """-> dict(format, ntrks, division, events=[(tick, kind, ...)])

    events: ('on', ch, pitch, vel) ('off', ch, pitch, vel) ('chan', status, data) ('meta', type, data)
            ('sysex', status, data); the end-of-track meta event is last and unique.
    """
    if not isinstance(data, (bytes, bytearray)):
        raise Bad('not bytes')
    if data[:4] != b'MThd':
        raise Bad('no MThd')
    if int.from_bytes(data[4:8], 'big') != 6 or len(data) < 14:
        raise Bad('header length is not 6')
    fmt, ntrks, division = (int.from_bytes(data[i:i + 2], 'big') for i in (8, 10, 12))
    if data[14:18] != b'MTrk':
        raise Bad('no MTrk after the header')
    if len(data) < 22:
        raise Bad('no track length')
    length = int.from_bytes(data[18:22], 'big')
    if 22 + length != len(data):
        raise Bad(f'track length field {length}, but {len(data) - 22} bytes follow')
    r = _R(data, 22)
    tick, events, running, ended = 0, [], None, False
    while r.p < r.e:
        if ended:
            raise Bad('data after the end-of-track event')
        tick += r.vlq(max_vlq)
        b = r.u8()
        if b == 0xFF:
            running = None
            kind = r.u8()
            if kind >= 0x80:
                raise Bad('meta type above 127')
            body = bytes(r.take(r.vlq()))
            if kind == 0x2F:
                if body:
                    raise Bad('end of track with a body')
                ended = True
            if kind == 0x51 and len(body) != 3:
                raise Bad('tempo length')
            if kind == 0x58 and len(body) != 4:
                raise Bad('time signature length')
            events.append((tick, 'meta', kind, body))
            continue
        if b in (0xF0, 0xF7):
            running = None
            events.append((tick, 'sysex', b, bytes(r.take(r.vlq()))))
            continue
        if b >= 0xF0:
            raise Bad(f'status {b:#x} is not allowed in a file')
        if b < 0x80:
            if running is None:
                raise Bad(f'data byte {b:#x} where a status is needed')
            r.p -= 1
            b = running
        running = b
        n = 1 if b >> 4 in (0xC, 0xD) else 2
        body = bytes(r.take(n))
        if any(x >= 0x80 for x in body):
            raise Bad('data byte above 127')
        if b >> 4 == 9:
            events.append((tick, 'on', b & 15, body[0], body[1]))
        elif b >> 4 == 8:
            events.append((tick, 'off', b & 15, body[0], body[1]))
        else:
            events.append((tick, 'chan', b, body))
    if not ended:
        raise Bad('no end-of-track event')
    return dict(format=fmt, ntrks=ntrks, division=division, events=events)


def pair(events):
    """[(on_tick, off_tick, channel, pitch, velocity)] for streams without overlapping equal pitches."""
    open_, out = {}, []
    for ev in events:
        if ev[1] == 'on' and ev[4] > 0:
            key = (ev[2], ev[3])
            if key not in open_:
                open_[key] = (ev[0], ev[4])
        elif ev[1] in ('on', 'off'):
            key = (ev[2], ev[3])
            if key in open_:
                t, v = open_.pop(key)
                out.append((t, ev[0], ev[2], ev[3], v))
    return out


def chunk(kind: bytes, body: bytes, length: int = None) -> bytes:
    return kind + (len(body) if length is None else length).to_bytes(4, 'big') + body


def header(fmt=0, ntrks=1, division=96, extra=b'') -> bytes:
    return chunk(b'MThd', b''.join(x.to_bytes(2, 'big') for x in (fmt, ntrks, division)) + extra)


EOT = b'\x00\xff\x2f\x00'
