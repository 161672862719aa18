"""Arithmetic used only to construct interesting inputs; results are judged by the specification."""
import random


def inv(a, m):
    return pow(a, -1, m)


def add(c, P, Q):
    p, a = c['p'], c['a']
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0:
            return None
        t = (3 * P[0] * P[0] + a) * inv(2 * P[1], p) % p
    else:
        t = (Q[1] - P[1]) * inv((Q[0] - P[0]) % p, p) % p
    x = (t * t - P[0] - Q[0]) % p
    return x, (t * (P[0] - x) - P[1]) % p


def mul(c, n, P):
    R = None
    while n:
        if n & 1:
            R = add(c, R, P)
        P = add(c, P, P)
        n >>= 1
    return R


def is_prime(n, k=12):
    if n < 4 or n % 2 == 0:
        return n in (2, 3)
    for s in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % s == 0:
            return n == s
    d, r = n - 1, 0
    while d % 2 == 0:
        d //= 2
        r += 1
    g = random.Random(n)
    for _ in range(k):
        x = pow(g.randrange(2, n - 1), d, n)
        if x in (1, n - 1):
            continue
        for _ in range(r - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def order_pair(rng, t, bits):
    """A prime q of the given size and p (p > q or p < q) of multiplicative order exactly t modulo q."""
    while True:
        q = rng.randrange(1 << (bits - 2), 1 << (bits - 1)) * 2 // t * t + 1
        if not is_prime(q, 4):
            continue
        for _ in range(200):
            g = pow(rng.randrange(2, q - 1), (q - 1) // t, q)
            if g == 0 or g == 1 and t > 1:
                continue
            if all(pow(g, t // f, q) != 1 for f in range(2, t + 1) if t % f == 0):
                return q, g


def sqrt(a, p):
    """Square root modulo a prime, or None."""
    a %= p
    if pow(a, (p - 1) // 2, p) not in (0, 1):
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1:
        z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1 and t != 0:
        i, u = 0, t
        while u != 1:
            u = u * u % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, r = i, b * b % p, t * b * b % p, r * b % p
    return r


def weierstrass(par):
    """Weierstrass parameters of a built-in or Edwards-only parameter set."""
    if any(par.get(k) for k in ('a', 'b', 'x', 'y')):
        return {k: par[k] for k in ('p', 'q', 'm', 'a', 'b', 'x', 'y')}
    p = par['p']
    s = (par['e'] - par['d']) * inv(4, p) % p
    t = (par['e'] + par['d']) * inv(6, p) % p
    u, v = par['u'], par['v']
    return {'p': p, 'q': par['q'], 'm': par['m'], 'a': (s * s - 3 * t * t) % p, 'b': (2 * t ** 3 - t * s * s) % p,
            'x': (s * (1 + v) * inv(1 - v, p) + t) % p, 'y': s * (1 + v) * inv((1 - v) * u, p) % p}


def isomorph(c, z, n=1):
    """The curve scaled by z (a z^4, b z^6), with n times the base point as base point."""
    p = c['p']
    P = mul(c, n, (c['x'], c['y']))
    return {'p': p, 'q': c['q'], 'm': c['m'], 'a': c['a'] * pow(z, 4, p) % p, 'b': c['b'] * pow(z, 6, p) % p,
            'x': P[0] * z * z % p, 'y': P[1] * pow(z, 3, p) % p}


def edwards_scaled(par, z):
    p = par['p']
    return {'p': p, 'q': par['q'], 'm': par['m'], 'e': par['e'] * z * z % p, 'd': par['d'] * z * z % p,
            'u': par['u'] * inv(z, p) % p, 'v': par['v']}
