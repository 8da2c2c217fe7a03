"""x-only arithmetic for choosing inputs (points of small order); decides nothing."""
ELLS = [3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107,
        109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223,
        227, 229, 233, 239, 241, 251, 257, 263, 269, 271, 277, 281, 283, 293, 307, 311, 313, 317, 331, 337,
        347, 349, 353, 359, 367, 373, 587]
P = 4
for _l in ELLS:
    P *= _l
P -= 1
R = 2**512 % P


def ladder(a, x, k):
    """affine x of [k](x), or None for infinity"""
    a24 = (a + 2) * pow(4, -1, P) % P
    def dbl(p):
        s, d = (p[0] + p[1]) ** 2 % P, (p[0] - p[1]) ** 2 % P
        c = s - d
        return s * d % P, c * (d + a24 * c) % P
    def add(p, q, d):
        u, v = (p[0] - p[1]) * (q[0] + q[1]), (p[0] + p[1]) * (q[0] - q[1])
        return d[1] * (u + v) ** 2 % P, d[0] * (u - v) ** 2 % P
    b = (x, 1)
    r, q = b, dbl(b)
    for c in bin(k)[3:]:
        if c == '1':
            r, q = add(r, q, b), dbl(q)
        else:
            q, r = add(r, q, b), dbl(r)
    return None if r[1] == 0 else r[0] * pow(r[1], -1, P) % P


def mont(x):
    return (x * R % P).to_bytes(64, 'little')


def demont(b):
    return int.from_bytes(b, 'little') * pow(R, -1, P) % P


def point_of(a, r, keep):
    """abscissa of a point whose order divides 4 times the product of keep (supersingular E_a)"""
    k = 1
    for l in ELLS:
        if l not in keep:
            k *= l
    while True:
        x = ladder(a, r.randrange(1, P), k)
        if x:
            return x
