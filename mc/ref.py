"""Reference number theory, from definitions; shares no code with the library."""

import functools
from bisect import bisect_right


@functools.lru_cache(None)
def spf_table(N):
    spf = list(range(N + 1))
    r = int(N ** 0.5) + 1
    for p in range(r, 1, -1):          # the smallest divisor is written last
        if p * p <= N:
            spf[p * p::p] = [p] * len(range(p * p, N + 1, p))
    # entries may hold a composite divisor written by a composite p only if no
    # smaller prime wrote after it, which cannot happen: its own prime factors did
    return spf


@functools.lru_cache(None)
def primes_upto(N):
    s = bytearray([1]) * (N + 1)
    s[0:2] = b"\0\0"[:min(2, N + 1)]
    i = 2
    while i * i <= N:
        if s[i]:
            s[i * i::i] = bytes(len(range(i * i, N + 1, i)))
        i += 1
    return [i for i in range(N + 1) if s[i]]


def pi(P, n):
    return bisect_right(P, n)


def factor(n):
    """Sorted [(p, e)] of n >= 1 by plain division."""
    out = []
    d = 2
    while d * d <= n:
        if n % d == 0:
            e = 0
            while n % d == 0:
                n //= d
                e += 1
            out.append((d, e))
        d += 1 if d == 2 else 2
    if n > 1:
        out.append((n, 1))
    return out


def is_prime(n):
    if n < 2:
        return False
    if n < 4:
        return True
    if n % 2 == 0:
        return False
    d = 3
    while d * d <= n:
        if n % d == 0:
            return False
        d += 2
    return True


def segment(a, b):
    """Primes in [a, b) by crossing out multiples of every prime <= sqrt(b)."""
    a = max(a, 2)
    if b <= a:
        return []
    r = int(b ** 0.5) + 2
    s = bytearray([1]) * (b - a)
    for p in primes_upto(r):
        st = max(p * p, (a + p - 1) // p * p)
        if st < b:
            s[st - a::p] = bytes(len(range(st, b, p)))
    return [a + i for i in range(b - a) if s[i]]


def divisors(n):
    small = [d for d in range(1, int(n ** 0.5) + 2) if d * d <= n and n % d == 0]
    return small + [n // d for d in reversed(small) if d * d != n]


def gcd(a, b):
    a, b = abs(a), abs(b)
    while b:
        a, b = b, a % b
    return a
