"""Random inputs: buffers with small messages and DLT buffers. What is right for them is decided by the specification."""
import struct

MARK = b"DLT\x01"


def mini(rng, n):
    """n bytes in which markers and messages of the small type are frequent."""
    out = bytearray()
    while len(out) < n:
        k = rng.random()
        if k < 0.45: out += bytes([1, 2, rng.choice([1, 2, 3, 3, 3])])
        elif k < 0.55: out += bytes([1, 2])
        elif k < 0.6: out += bytes([1])
        else: out.append(rng.choice([0, 1, 2, 3, 3, 4, 255]))
    return bytes(out[:n])


def trio(rng, n):
    """n bytes in which messages with the marker 1 1 2 are frequent, also behind runs of 1."""
    out = bytearray()
    while len(out) < n:
        k = rng.random()
        if k < 0.45: out += b"\1" * rng.choice([0, 0, 1, 2, 3]) + bytes([1, 1, 2, rng.choice([0, 1, 2, 2, 3])])
        elif k < 0.6: out += b"\1" * rng.randrange(1, 5)
        elif k < 0.65: out += bytes([1, 2])
        else: out.append(rng.choice([0, 1, 2, 3, 255]))
    return bytes(out[:n])


def word(rng, n):
    """n pieces: messages with a marker of eight letters, and parts of it."""
    m, out = b"abacabad", b""
    for _ in range(n):
        k = rng.random()
        x = rng.choice([0, 1, 8, 9, 30, 200, rng.randrange(201)])
        if k < 0.4: out += m + bytes([x]) + word(rng, rng.randrange(3))[:x].ljust(x, rng.choice([b"a", b"\0", b"b"]))
        elif k < 0.5: out += m + bytes([rng.choice([201, 255, x])])
        elif k < 0.75: out += m[:rng.randrange(1, 9)]
        elif k < 0.85: out += m[rng.randrange(8):]
        elif k < 0.92: out += rng.choice([b"abacab", b"abac", b"aba"]) + m
        else: out += bytes(rng.choice(b"abcd\0\xff") for _ in range(rng.randrange(1, 12)))
    return out if rng.random() < 0.7 else out[:len(out) - rng.randrange(min(len(out), 20) + 1)]


def storage(rng, secs=None, ecu=None):
    secs = rng.choice([0, 1, 5, 1000, 0x01020304, 0xffffffff, rng.getrandbits(32)]) if secs is None else secs
    ecu = rng.choice([b"ECU1", b"ECU2", b"\0\0\0\0", b"\xff\xfe\x80A", bytes(rng.getrandbits(8) for _ in range(4))]) if ecu is None else ecu
    return MARK + struct.pack("<I", secs) + struct.pack("<I", rng.getrandbits(32)) + ecu


def message(rng, payload=None, htyp=None, length=None, secs=None, ecu=None, tmsp=None, seid=None, info=None, ecuid=None):
    """A message; `length` overrides what its length field says."""
    htyp = rng.choice([rng.getrandbits(8), 0x20 | rng.getrandbits(5), 0x3d, 0x31, 0x20]) if htyp is None else htyp
    tail = b""
    if htyp & 4: tail += ecuid if ecuid is not None else rng.choice([b"ECU1", b"EID2", bytes(rng.getrandbits(8) for _ in range(4))])
    if htyp & 8: tail += struct.pack(">I", rng.getrandbits(32))
    if htyp & 16: tail += struct.pack(">I", rng.getrandbits(32) if tmsp is None else tmsp)
    if htyp & 1: tail += bytes([rng.getrandbits(8) if info is None else info, rng.getrandbits(8)]) + b"APIDCTID"
    if payload is None: payload = rng.choice([b"", b"\0", b"Hello World", b"DLT", b"DLT\x01", bytes(rng.getrandbits(8) for _ in range(rng.randrange(40)))])
    tail += payload
    n = 4 + len(tail)
    return storage(rng, secs, ecu) + struct.pack(">BBH", htyp, rng.getrandbits(8), n if length is None else length % 65536) + tail


def dlt(rng, n, nested=True):
    """A buffer of n pieces: messages, damaged messages, other bytes."""
    out = b""
    for _ in range(n):
        k = rng.random()
        if k < 0.5: out += message(rng)
        elif k < 0.57: out += message(rng, length=rng.choice([0, 1, 3, 65535, 32768, rng.randrange(4, 60)]))
        elif k < 0.62: out += message(rng, htyp=rng.getrandbits(5), length=rng.randrange(4, 26))     # too short for its fields
        elif k < 0.69 and nested: out += message(rng, payload=bytes(rng.getrandbits(8) for _ in range(rng.randrange(5))) + message(rng) + message(rng)[:rng.randrange(30)])
        elif k < 0.76: out += message(rng)[:rng.randrange(1, 30)]
        elif k < 0.82: out += MARK[:rng.randrange(1, 5)]
        elif k < 0.86: out += MARK * rng.randrange(1, 4)
        else: out += bytes(rng.choice([0, 1, 68, 76, 84, 255, rng.getrandbits(8)]) for _ in range(rng.randrange(1, 12)))
    out = bytearray(out)
    if rng.random() < 0.3 and out:
        for _ in range(rng.randrange(1, 5)): out[rng.randrange(len(out))] = rng.choice([0, 1, 68, 255, rng.getrandbits(8)])
    if rng.random() < 0.3: out = out[:len(out) - rng.randrange(min(len(out), 20) + 1)]
    return bytes(out)


TEXTS = [b"Hello World", b"Hello", b" World", b"H", b"World", b"Hello\nWorld", b"H World", b"H\xc3\xa4llo World", b"H\xff World", b"H\xe2\x82 World",
         b"H\xe2\x82\xac World", b"HH World World", b"DL", b"T\x01", b"\x01", b"ECU", b"", b"\xf0\x9f\x98\x80", b"Hello Worl", b"LT", b"Helllo DLT"]


def text(rng):
    return b"".join(rng.choice(TEXTS) for _ in range(rng.randrange(1, 4)))


def grep(rng, n):
    """Messages with text, and text between them. A marker rarely starts inside a message."""
    out = b""
    for _ in range(n):
        k = rng.random()
        if k < 0.65: out += message(rng, payload=text(rng), htyp=rng.choice([0x20, 0x20, 0x31, 0x3d]), info=0x41, secs=rng.choice([5, 0x48, 0x57480a]))
        elif k < 0.72: out += message(rng, payload=text(rng), htyp=0x20, length=rng.choice([0, 3, 65535, 4, 7, 9]))
        elif k < 0.77: out += message(rng, payload=text(rng))[:rng.randrange(1, 40)]
        elif k < 0.82: out += MARK[:rng.randrange(1, 5)]
        else: out += text(rng)
    if rng.random() < 0.2: out = out[:len(out) - rng.randrange(min(len(out), 12) + 1)]
    return out
