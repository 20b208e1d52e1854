"""Mutation of byte strings."""

SPECIAL = (b'"', b'\\', b',', b';', b'=', b' ', b'\t', b'(', b')', b'/', b'*', b'-', b'0', b'a',
           b"'", b'%', b':', b'@', b'[', b']', b'<', b'>', b'?', b'{', b'}', b'\x00', b'\x7f',
           b'\x80', b'\xff', b'.', b'A', b'z', b'9', b'~', b'!', b'`', b'&', b'|', b'\n', b'1', b'q')


def a_byte(g):
    if g.bool(15):
        return bytes([g.int(0, 255)])
    return g.choice(SPECIAL)


def mutate1(g, s):
    k = g.int(0, 7)
    i = g.int(0, len(s)) if s else 0
    if k == 0 or not s:
        return s[:i] + a_byte(g) + s[i:]
    i = min(i, len(s) - 1)
    if k == 1:
        return s[:i] + s[i + 1:]
    if k == 2:
        return s[:i] + a_byte(g) + s[i + 1:]
    if k == 3:
        return s[:i]
    if k == 4:
        return s[:i] + bytes([(s[i] + g.choice([1, -1])) % 256]) + s[i + 1:]
    if k == 5:
        return s[:i] + s[i:i + 1] + s[i:]
    if k == 6:
        return s[:i] + s[i:i + 1].swapcase() + s[i + 1:]
    return s + a_byte(g)


def mutate(g, s, hi=2):
    for _ in range(g.int(1, hi)):
        s = mutate1(g, s)
    return s
