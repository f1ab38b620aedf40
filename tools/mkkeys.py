#!/usr/bin/env python3
"""Generates the RSA test keys of the harness (harness/data/keys.txt: bits n e d, hex). Run once; its output is committed."""
import random, sys
rng = random.Random(20240517)
def is_prime(n):
    if n < 2: return False
    for p in (2,3,5,7,11,13,17,19,23,29,31,37,41,43,47):
        if n % p == 0: return n == p
    d, r = n-1, 0
    while d % 2 == 0: d//=2; r+=1
    for _ in range(24):
        a = rng.randrange(2, n-1)
        x = pow(a, d, n)
        if x in (1, n-1): continue
        for _ in range(r-1):
            x = x*x % n
            if x == n-1: break
        else: return False
    return True
def prime(bits):
    while True:
        p = rng.getrandbits(bits) | 1 | (1 << (bits-1))
        if is_prime(p): return p
def key(bits, e):
    while True:
        a = bits//2 + 1
        p, q = prime(a), prime(bits - a + rng.choice((0, 1)))
        n = p*q
        phi = (p-1)*(q-1)
        if n.bit_length() != bits or p == q: continue
        try: d = pow(e, -1, phi)
        except ValueError: continue
        return n, e, d
sizes = [(337,65537),(344,65537),(352,3),(400,65537),(512,65537),(520,17),(767,65537),(1023,65537),(1024,65537),(1024,3),(1025,65537),(1030,65537),(1031,65537),(1032,17),(1033,65537),(1536,65537),(2041,65537),(2047,65537),(2048,65537),(2048,3),(2049,65537),(3072,65537),(4096,65537)]
for b, e in sizes:
    n, e, d = key(b, e)
    print(b, f"{n:x} {e:x} {d:x}")
