#!/usr/bin/env python3
"""Records what OpenSSL answers to the explorer's ClientHellos.

Usage: tlsmc dump-hellos | record-openssl.py > tlsmc/src/openssl.txt
The recordings are replayed by check C05: they tie the reference server and key schedule, and the
library, to an independent implementation. Only needed again when the recorded configurations change.
"""
import ssl, subprocess, sys, tempfile, os

with tempfile.TemporaryDirectory() as d:
    def make(name, san):
        subprocess.run(["openssl", "req", "-x509", "-newkey", "ec", "-pkeyopt", "ec_paramgen_curve:P-256", "-nodes",
                        "-keyout", f"{d}/{name}.key", "-out", f"{d}/{name}.pem", "-days", "36500", "-subj", "/CN=localhost",
                        "-addext", "subjectAltName=" + san], check=True, capture_output=True)
    make("small", "DNS:localhost")
    make("large", ",".join(f"DNS:host{i:05d}.example.org" for i in range(850)))
    for line in sys.stdin:
        i, hello = line.split()
        for cert in ("small", "large"):
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
            ctx.load_cert_chain(f"{d}/{cert}.pem", f"{d}/{cert}.key")
            ctx.minimum_version = ssl.TLSVersion.TLSv1_3
            ctx.set_ecdh_curve("prime256v1")
            ctx.set_alpn_protocols(["h2"])
            inb, out = ssl.MemoryBIO(), ssl.MemoryBIO()
            s = ctx.wrap_bio(inb, out, server_side=True)
            inb.write(bytes.fromhex(hello))
            try:
                s.do_handshake()
                raise SystemExit("finished?")
            except ssl.SSLWantReadError:
                pass
            print(i, hello, out.read().hex())
