#!/usr/bin/env python3
"""Writes harness/src/selftest_data.rs: roll-up values that hashlib, openssl and Python integers
assign to fixed input families. The harness recomputes them with its own reference models, so an
error in a model is noticed before it can be used as an oracle. Authoring-time tool only."""
import base64, hashlib, subprocess, sys

M = (1 << 64) - 1
def stream(seed):
    s = seed & M
    while True:
        s = (s * 6364136223846793005 + 1442695040888963407) & M
        yield s >> 56
def take(seed, n):
    g = stream(seed)
    return bytes(next(g) for _ in range(n))

def ossl(args, data):
    r = subprocess.run(["openssl"] + args, input=data, capture_output=True)
    if r.returncode:
        sys.exit(r.stderr.decode())
    return r.stdout
def hashes(name, n):
    h = hashlib.sha256()
    for i in range(n):
        m = take(i, i)
        if name in ("md4",):
            d = ossl(["dgst", "-provider", "legacy", "-provider", "default", "-binary", "-md4"], m)
        else:
            d = hashlib.new(name, m).digest()
        h.update(d)
    return h.hexdigest()
out = []
for name, n in [("md4", 150), ("md5", 300), ("sha1", 300), ("sha224", 300), ("sha256", 300), ("sha384", 400), ("sha512", 400)]:
    out.append((name, n, hashes(name, n)))
def roll(f, n):
    h = hashlib.sha256()
    for i in range(n):
        h.update(f(i))
    return h.hexdigest()
def aes(i):
    kl = [16, 24, 32][i % 3]
    k, b = take(1000 + i, kl), take(2000 + i, 16)
    e = ossl(["enc", f"-aes-{kl*8}-ecb", "-nopad", "-K", k.hex()], b)
    d = ossl(["enc", "-d", f"-aes-{kl*8}-ecb", "-nopad", "-K", k.hex()], b)
    return e + d
out.append(("aes", 60, roll(aes, 60)))
def rc4(i):
    k = take(3000 + i, 16)
    return ossl(["enc", "-rc4", "-provider", "legacy", "-provider", "default", "-K", k.hex()], bytes(300))
out.append(("rc4", 30, roll(rc4, 30)))
def rc2(i):
    k, b = take(4000 + i, 16), take(5000 + i, 8)
    return ossl(["enc", "-rc2-ecb", "-provider", "legacy", "-provider", "default", "-nopad", "-K", k.hex()], b)
out.append(("rc2", 30, roll(rc2, 30)))
def big(i):
    a = int.from_bytes(take(6000 + i, i % 70), "big")
    b = int.from_bytes(take(7000 + i, 1 + i % 41), "big") | 1
    e = int.from_bytes(take(8000 + i, i % 9), "big")
    s = i % 90
    parts = [a + b, a * b, a % b, a // b, pow(a, e, b), a << s, a >> s, abs(a - b)]
    return b"".join(len(x := p.to_bytes((p.bit_length() + 7) // 8, "big")).to_bytes(2, "big") + x for p in parts)
out.append(("big", 400, roll(big, 400)))
out.append(("b64", 200, roll(lambda i: base64.b64encode(take(9000 + i, i)), 200)))
with open(sys.argv[1], "w") as f:
    f.write("//! Generated by tools/gen_selftest.py (hashlib, openssl and Python integers).\n")
    f.write("pub const ROLL: &[(&str, usize, &str)] = &[\n")
    for n, c, h in out:
        f.write(f'    ("{n}", {c}, "{h}"),\n')
    f.write("];\n")
