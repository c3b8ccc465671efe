"""Reference models, written from the format description (ITU T.81 lossless, predictor 1, 4 interleaved
components) and from the README of the repository, not from the code under test."""

TABLE = [(0b1110, 4), (0b000, 3), (0b001, 3), (0b010, 3), (0b011, 3), (0b100, 3), (0b101, 3), (0b110, 3),
         (0b11110, 5), (0b111110, 6), (0b1111110, 7), (0b11111110, 8), (0b111111110, 9), (0b1111111110, 10),
         (0b11111111110, 11), (0b111111111110, 12), (0b1111111111110, 13)]


def predictions(pix, w, bd):
    """Predictor 1, four interleaved components: the pixel four to the left; at the start of a row the
    first pixel of the same component in the row above; in the first row half of the range."""
    out = []
    for i in range(len(pix)):
        x = i % w
        y = i // w
        if x >= 4:
            out.append(pix[i - 4])
        elif y:
            out.append(pix[(y - 1) * w + x])
        else:
            out.append(1 << (bd - 1))
    return out


def diff_of(p, q, bd):
    d = p - q
    if bd == 16:
        d = ((d + 32768) & 0xFFFF) - 32768      # T.81: modulo 2**16
    return d


def ssss_of(d):
    return abs(d).bit_length()


def code_diff(d, table):
    """(value, length) of one coded difference"""
    s = ssss_of(d)
    v, n = table[s]
    if s == 0 or s == 16:
        return v, n
    e = d if d > 0 else d + (1 << s) - 1
    return (v << s) | e, n + s


def scan_bits(pix, w, bd, table=TABLE):
    acc = []
    pr = predictions(pix, w, bd)
    for p, q in zip(pix, pr):
        v, n = code_diff(diff_of(p, q, bd), table)
        acc.append(format(v, "0%db" % n))
    return "".join(acc)


def pack(bits, wbits):
    """MSB first words, the last one padded with zeros"""
    r = len(bits) % wbits
    if r:
        bits = bits + "0" * (wbits - r)
    return [int(bits[i:i + wbits], 2) for i in range(0, len(bits), wbits)]


def decode_scan(bits, n, w, bd, table=TABLE):
    """Inverse of scan_bits, from the bit string alone."""
    rev = {}
    for s, (v, ln) in enumerate(table[:bd + 1]):
        rev[(ln, v)] = s
    pos = 0
    pix = []
    for i in range(n):
        v = 0
        ln = 0
        while True:
            if pos >= len(bits):
                raise ValueError("out of bits")
            v = v * 2 + (bits[pos] == "1")
            ln += 1
            pos += 1
            if (ln, v) in rev:
                s = rev[(ln, v)]
                break
            if ln > 16:
                raise ValueError("bad code")
        if s == 0:
            d = 0
        elif s == 16:
            d = 32768
        else:
            if pos + s > len(bits):
                raise ValueError("out of bits")
            e = int(bits[pos:pos + s], 2)
            pos += s
            d = e if e >> (s - 1) else e - (1 << s) + 1
        x = i % w
        y = i // w
        q = pix[i - 4] if x >= 4 else pix[(y - 1) * w + x] if y else 1 << (bd - 1)
        pix.append((q + d) & 0xFFFF)
    return pix, pos


def stuff(data):
    out = []
    for b in data:
        out.append(b)
        if b == 0xFF:
            out.append(0)
    return out


def unstuff(data):
    out = []
    i = 0
    while i < len(data):
        out.append(data[i])
        if data[i] == 0xFF:
            i += 1
            if i < len(data) and data[i] != 0:
                raise ValueError("0xFF not followed by 0x00")
        i += 1
    return out


def words_to_bytes(words, nb):
    out = []
    for w in words:
        for k in reversed(range(nb)):
            out.append((w >> (8 * k)) & 0xFF)
    return out


def bits_of_bytes(bs):
    return "".join(format(b, "08b") for b in bs)
