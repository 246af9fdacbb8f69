"""The ground facts about the curve that the contracts rely on, established by computation on every run (they concern
the specification's constants only; that the code's constants are these is what the contracts prove).

What is taken from textbooks and not checked here: Pocklington's criterion, Hasse's bound, associativity of the
chord-and-tangent law, bilinearity of the reduced optimal ate pairing (Vercauteren 2010)."""
import math
import time

from . import spec
from .spec import E1, E2, Q, R, U, XI, f2mul, f2neg, f2pow

# n: [(prime factor p of n-1, witness a)], the full powers of the factors listed exceed sqrt(n)
CERT = {
    21888242871839275222246405745257275088696311157297823662689037894645226208583: [(13427688667394608761327070753331941386769, 2)],
    13427688667394608761327070753331941386769: [(2480874801745591, 2), (173171039, 2)],
    2480874801745591: [(35385462869, 2)],
    35385462869: [(1263766531, 2)],
    1263766531: [(3557, 2), (911, 2)],
    173171039: [(13327, 2)],
    21888242871839275222246405745257275088548364400416034343698204186575808495617: [(13818364434197438864469338081, 2), (1670836401704629, 2)],
    13818364434197438864469338081: [(65865678001877903, 2)],
    65865678001877903: [(639533339, 2)],
    639533339: [(1637, 2), (853, 2)],
    1670836401704629: [(5156902474397, 2)],
    5156902474397: [(12048837557, 2)],
    12048837557: [(93001, 2), (661, 2)],
}


def small_prime(n):
    if n < 2:
        return False
    k = 2
    while k * k <= n:
        if n % k == 0:
            return False
        k += 1 if k == 2 else 2
    return True


def prime(n):
    """Pocklington's criterion, recursively down to trial division"""
    if n < 10**8:
        return small_prime(n)
    big = 1
    for p, a in CERT[n]:
        if not prime(p) or pow(a, n - 1, n) != 1 or math.gcd(pow(a, (n - 1) // p, n) - 1, n) != 1:
            return False
        m = n - 1
        while m % p == 0:
            m //= p
            big *= p
    return big * big > n


def multiples(k, lo, hi):
    return list(range(-(-lo // k) * k, hi + 1, k))


FACTS = {
    'q is prime': lambda: prime(Q),
    'r is prime': lambda: prime(R),
    'q = 3 mod 4, so i^2 = -1 defines Fq2': lambda: Q % 4 == 3,
    'xi is neither a square nor a cube in Fq2, so w^6 = xi defines Fq12':
        lambda: all(f2pow(XI, (Q * Q - 1) // k) != (1, 0) for k in (2, 3)),
    'b is not a cube of Fq, b\' not one of Fq2: no point has y = 0, so doubling never meets a vertical tangent':
        lambda: pow(-spec.B1 % Q, (Q - 1) // 3, Q) != 1 and f2pow(f2neg(spec.B2), (Q * Q - 1) // 3) != (1, 0),
    'G1 has exactly r points (the generator has order r; r is the only multiple of r in the Hasse interval)':
        lambda: E1.on(E1.gen) and E1.mul(E1.gen, R) is None and
        multiples(R, Q + 1 - 2 * (math.isqrt(Q) + 1), Q + 1 + 2 * (math.isqrt(Q) + 1)) == [R],
    'the r-torsion of the twist over Fq2 is cyclic, generated by the G2 generator':
        lambda: E2.on(E2.gen) and E2.mul(E2.gen, R) is None and not multiples(R * R, Q * Q + 1 - 2 * Q, Q * Q + 1 + 2 * Q),
    'the q-power Frobenius is multiplication by q on G2': lambda: spec.twist_frob(E2.gen) == E2.mul(E2.gen, Q % R),
    'the twist coefficient is 3/xi': lambda: f2mul(spec.B2, XI) == (spec.B1, 0),
    'the fixed multiple of the final exponent is prime to r': lambda: math.gcd(spec.COFACTOR, R) == 1,
    'the reduced optimal ate pairing of the generators is not one (with bilinearity: non-degenerate)':
        lambda: spec.pairing(E1.gen, E2.gen) != spec.F12_ONE,
    'the optimal ate relation: r divides 6u + 2 + q - q^2 + q^3 exactly once':
        lambda: (6 * U + 2 + Q - Q * Q + Q**3) % R == 0 != (6 * U + 2 + Q - Q * Q + Q**3) % (R * R),
    'the order-r subgroup relation: r divides q^4 - q^2 + 1': lambda: (Q**4 - Q * Q + 1) % R == 0,
}
NEEDS = {
    'C01': ['r is prime'], 'C02': ['r is prime'], 'C03': ['r is prime'], 'C04': ['r is prime', 'q is prime'], 'C05': [],
    'C06': ['q is prime', 'q = 3', 'xi is neither'],
    'C07': ['q is prime', 'q = 3', 'b is not a cube'], 'C08': ['q is prime', 'q = 3', 'b is not a cube'],
    'C09': ['q is prime', 'q = 3', 'b is not a cube'], 'C10': ['q is prime', 'r is prime'], 'C13': ['q is prime', 'r is prime', 'G1 has', 'the r-torsion'], 'C14': [],
    'C11': list(FACTS), 'C12': list(FACTS),
}
TEXTBOOK = {
    'C07': ['associativity of the chord-and-tangent law'], 'C08': ['associativity of the chord-and-tangent law'],
    'C11': ['associativity of the chord-and-tangent law', 'a function on the curve is determined up to a constant by its divisor',
            'bilinearity of the reduced optimal ate pairing (Vercauteren 2010, Theorem 4)'],
    'C12': ['associativity of the chord-and-tangent law', 'a function on the curve is determined up to a constant by its divisor'],
    'C13': ['associativity of the chord-and-tangent law'],
}


def check(pid):
    """[(fact, holds, seconds)]"""
    out = []
    for k, f in FACTS.items():
        if any(k.startswith(p) for p in NEEDS.get(pid, [])):
            t = time.time()
            out.append((k, bool(f()), time.time() - t))
    return out
