#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only to keep the long texts readable)."""
import json, os

T = lambda n, w: {"name": n, "where": w}
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": mech,
                          "observe_at": observe or [], "hook_needed": hook}})

NOTLS = "The repository has no test at all for the TLS client (all 94 tests are in crylib); "
API = ["return value of turtls_connect", "turtls_get_error / turtls_get_tls_error", "bytes handed to write_fn", "close_fn calls", "turtls_app_proto"]

prop("C01", "No server input can crash, hang or corrupt the client",
 "For every byte sequence a server sends, in any arrival pattern, every connect call returns after finitely many transport calls with either success or an error code the API documents. It never aborts the process, never reads outside its buffers and never spins.",
 ["inputs", "histories"], "every server byte stream (well-formed, mutated, truncated, oversized) at every handshake stage, in plaintext and under the handshake keys",
 NOTLS + "a sampled malformed input says nothing about the next one, and panics cross the C boundary as process aborts.",
 ["src/handshake.rs", "src/record/read.rs", "src/server_hello.rs", "src/extensions.rs", "src/extensions/key_share.rs", "src/certificates.rs", "src/certificates/der.rs", "src/certificates/x509.rs"],
 [T("length checks before slicing", "src/server_hello.rs server_hello_client, src/extensions.rs ExtIter"), T("record length limit", "src/record/read.rs get_raw"), T("handshake buffer growth and limit", "src/handshake.rs ShakeBuf")], observe=API)

prop("C02", "Outcome is independent of how the transport segments and stalls",
 "For a fixed configuration, randomness and server byte stream, the bytes written, the final result, the reported alert, the negotiated protocol and the number of close callbacks do not depend on how many bytes each transport call moves nor on where it reports a temporary failure. A connect call interrupted by a failed read or write continues exactly where it stopped when called again.",
 ["schedules", "fault_sequences"], "every split of the inbound and outbound streams into transport calls and every placement of would-block answers, for each server behaviour in the catalogue",
 NOTLS + "short reads, short writes and would-block answers at each of hundreds of byte positions are schedules no unit test enumerates.",
 ["src/record/read.rs", "src/record/write.rs", "src/handshake.rs", "src/lib.rs"],
 [T("resumable read state", "src/record/read.rs ReadStatus"), T("resumable write counters", "src/record/write.rs WriteBuf"), T("resumable message reassembly", "src/handshake.rs ReadStatus")],
 observe=API)

prop("C03", "The ClientHello encodes exactly the configuration",
 "For every configuration the first flight is either one well-formed TLS 1.3 ClientHello in legal records that lists exactly the enabled cipher suites, groups, signature algorithms, server name and application protocols the library implements, or nothing is written and connect fails with an error. The hello random and the key share come from fresh randomness on every connection attempt, and a failing or unusable random source is reported as an error instead of being used.",
 ["configurations", "fault_sequences"], "all cipher-suite bytes, group and signature masks, server names and protocol lists of every length up to the protocol limits, and every answer of the random source",
 NOTLS + "the configuration is a public struct of bit masks, pointers and lengths, with interacting length computations.",
 ["src/client_hello.rs", "src/extensions.rs", "src/extensions/server_name.rs", "src/extensions/sig_algs.rs", "src/extensions/key_share.rs", "src/extensions/app_proto.rs", "src/extensions/versions.rs", "src/cipher_suites.rs", "src/handshake.rs", "src/state.rs"],
 [T("extension length computation", "src/extensions.rs TurtlsExts::len_client"), T("extension writers", "src/extensions/*.rs"), T("key generation", "src/extensions/key_share.rs GroupKeys::generate")], observe=["bytes handed to write_fn", "turtls_get_error"])

prop("C04", "A ServerHello is accepted only if it selects what was offered",
 "The client goes on after a ServerHello only if it is a well-formed TLS 1.3 ServerHello: legacy version and empty session id echoed, no compression, an offered cipher suite, version 1.3, and one key share for an offered group that is an uncompressed point on the curve, with no duplicate, unknown or malformed extension. Any other ServerHello ends the connection with a fatal alert fitting the fault, and every acceptable ServerHello is accepted.",
 ["inputs", "configurations"], "all values of every fixed-size field, all extension lists up to four extensions, all single-byte mutations and truncations, for every set of offered suites",
 NOTLS + "acceptance is a predicate over a large input space; downgrade and invalid-curve holes sit in values nobody samples.",
 ["src/server_hello.rs", "src/extensions.rs", "src/extensions/key_share.rs", "src/extensions/versions.rs", "src/cipher_suites.rs", "crylib/src/ec/point/affine.rs"],
 [T("field checks", "src/server_hello.rs server_hello_client"), T("extension dispatch", "src/extensions.rs parse_ser_hel_exts"), T("point validation", "crylib/src/ec/point/affine.rs AffinePoint::new")], observe=API)

prop("C05", "The handshake interoperates with every conforming server",
 "With a server that follows RFC 8446 the client derives the same handshake keys and accepts the server's flight, for each cipher suite, every valid key pair and random values, and every legal fragmentation, coalescing, padding, record size, change_cipher_spec placement and message size. Protected alerts the client sends decrypt under the client handshake keys.",
 ["inputs", "configurations", "histories"], "all compositions of the handshake messages into records, record sizes up to the limits, message sizes around the buffer sizes, boundary private keys, both suites, sequence numbers beyond one and two bytes",
 NOTLS + "the key schedule, record layer and reassembly are never exercised together by any test.",
 ["src/aead.rs", "src/key_schedule.rs", "src/record/read.rs", "src/handshake.rs", "src/extensions/key_share.rs", "crylib/src/hash/buf_hasher.rs", "crylib/src/hkdf.rs", "crylib/src/aead"],
 [T("key schedule", "src/aead.rs TlsAead::shake_aead, src/key_schedule.rs"), T("per-record nonce", "src/aead.rs decrypt_inline"), T("message reassembly", "src/handshake.rs ShakeBuf::read_inner"), T("transcript", "src/state.rs TranscriptHasher")], observe=API)

prop("C06", "Only authentic, in-order protected records are accepted",
 "Once the handshake keys exist, no modified, forged, replayed, reordered, dropped, truncated, reflected or unprotected record influences the handshake: the connection ends with a fatal alert instead (a well-formed change_cipher_spec is ignored). Handshake data never spans the key change, record types are never confused, and a record with more content than 2^14 bytes is refused.",
 ["inputs", "histories"], "every single-bit modification of every byte of a protected flight, every sequence of up to four records over an alphabet of authentic and forged records, every content type",
 NOTLS + "authenticity quantifies over all attacker actions on the record stream.",
 ["src/record/read.rs", "src/handshake.rs", "src/aead.rs", "crylib/src/aead.rs"],
 [T("record deprotection", "src/record/read.rs deprotect"), T("sequence numbers", "src/aead.rs read_nonce"), T("content type checks", "src/handshake.rs read_inner")], observe=API)

prop("C07", "Errors are signalled once, truthfully, to both sides",
 "Whenever the client ends a handshake because of something the server did, it sends exactly one fatal alert, protected if and only if handshake keys are in place, reports that same alert with the local-error code, and runs the close callback exactly once. Whenever the server sends an alert, exactly that alert is reported with the peer-error code, nothing more is written, and the close callback runs exactly once; transport failures while sending the alert change none of this.",
 ["inputs", "fault_sequences", "histories"], "all 256 alert codes and levels at every stage and alert length, every class of local error, with the transport failing at every write",
 NOTLS + "error paths multiply stages, error causes and transport failures.",
 ["src/handshake.rs", "src/record/write.rs", "src/record/read.rs", "src/alert.rs", "src/error.rs", "src/lib.rs"],
 [T("alert emission", "src/record/write.rs close, close_raw"), T("alert reception", "src/record/read.rs check_alert, src/alert.rs from_byte"), T("error recording", "src/handshake.rs handshake_client")], observe=API)

prop("C08", "A reused connection object behaves like a fresh one",
 "After a connection has ended, by error, by the peer or by close at any point of the handshake, the next connect on the same object with the same inputs produces exactly the observations a fresh object would: same bytes, result, alert, protocol and callbacks. Nothing of an earlier connection (buffered records, transcript, keys, counters, protocol name) shows.",
 ["histories"], "all pairs (and triples) of connection behaviours, with the first interrupted after every byte received or sent",
 NOTLS + "reuse after interruption at each of hundreds of points is a history no test builds.",
 ["src/lib.rs", "src/state.rs", "src/record.rs", "src/record/read.rs", "src/record/write.rs", "src/extensions/app_proto.rs", "crylib/src/hash/buf_hasher.rs"],
 [T("per-connection reset", "src/lib.rs turtls_connect"), T("state kept across connections", "src/state.rs GlobalState")], observe=API)

prop("C09", "The reported application protocol is exactly the server's valid choice",
 "After the server's extensions are accepted, the application protocol reported is the nul-terminated name the server selected, or empty if it selected none; a selection that is malformed, repeated, was not offered or was sent although nothing was offered ends the connection with a fatal alert. The reported name is always either empty or one of the names offered on this connection.",
 ["inputs", "configurations", "histories"], "all offer lists over a small name alphabet, all replies over that alphabet plus malformed encodings, all name lengths 1..255, across reuse",
 NOTLS + "stale bytes depend on the lengths negotiated before.",
 ["src/extensions/app_proto.rs", "src/extensions.rs", "src/state.rs"],
 [T("ALPN reply parsing", "src/extensions/app_proto.rs parse_app_proto_client"), T("name storage", "src/state.rs GlobalState::app_proto")], observe=["turtls_app_proto"])

prop("C10", "The connection life cycle fails closed",
 "Connect never reports success unless the server has been authenticated (the library cannot do that yet, so never), whatever sequence of connect, close, reconfigure and server actions happens. After a fatal error or close the old connection is never continued: the close callback has run exactly once for it, no further transport call is made for it, and the next connect starts a new handshake. Closing an unfinished connection sends the server one close_notify alert, protected if and only if handshake keys are in place, or nothing where a record was cut off in the middle; close on an idle object does nothing.",
 ["histories"], "all API call and server action sequences up to a depth bound",
 NOTLS + "life-cycle bugs need particular call sequences.",
 ["src/lib.rs", "src/handshake.rs", "src/state.rs", "src/record/write.rs"],
 [T("state machine", "src/lib.rs turtls_connect, turtls_close"), T("handshake state", "src/state.rs TlsStatus")], observe=API)

prop("C11", "Certificate chains are parsed strictly and never trusted unverified",
 "Every Certificate message ends the handshake with a fatal protected alert, because no chain can be verified; a chain whose encoding is malformed is refused as malformed, one with an unsupported version or signature algorithm as unsupported, and a well-formed supported chain is never refused as malformed. No certificate bytes crash the client.",
 ["inputs"], "every single-byte mutation and truncation of a certificate, all list framings up to three entries, all DER length forms, all signature integer lengths",
 NOTLS + "DER offers many encodings of each length; the parser slices by attacker-controlled numbers.",
 ["src/handshake.rs", "src/certificates.rs", "src/certificates/der.rs", "src/certificates/x509.rs"],
 [T("certificate list iteration", "src/certificates.rs CertIter"), T("DER iteration", "src/certificates/der.rs DerIter"), T("certificate structure", "src/certificates/x509.rs validate_cert")], observe=API)

prop("C12", "The C header describes the library that is shipped",
 "A program compiled against the public header sees the values the library uses: struct layouts, constants, error codes and alert codes agree, alert codes are those of RFC 8446, each alert has its own fixed description, and the default configuration is the documented one.",
 ["configurations", "inputs"], "all enumerators, constants and struct fields of the public header, all 256 alert codes",
 NOTLS + "the header is generated by hand-run tooling and nothing compiles against it.",
 ["include/turtls.h", "src/alert.rs", "src/error.rs", "src/config.rs", "src/extensions.rs", "src/cipher_suites.rs", "src/record.rs"],
 [T("C layout", "src/config.rs TurtlsConfig, src/record.rs TurtlsIo"), T("alert names", "src/alert.rs turtls_stringify_alert")], observe=["compiled C program"])

prop("C13", "Connections do not influence each other",
 "For any number of connection objects used in any interleaving, by one thread or by one thread each, also from inside another connection's callbacks, every object shows exactly the bytes, results, alerts, protocol name and callbacks it shows when it is the only one, and no call on one object waits for another object's call to return.",
 ["schedules", "histories"], "all merges of the calls of two and three objects, all nestings inside callbacks, all thread schedules up to a bounded number of switches at callbacks and requests for randomness",
 NOTLS + "state shared by accident (a static buffer, a cached key, a lock) only shows when two handshakes overlap in a particular order.",
 ["src/lib.rs", "src/state.rs", "src/handshake.rs", "src/record.rs", "src/record/read.rs", "src/record/write.rs", "src/extensions/key_share.rs", "src/aead.rs"],
 [T("all state lives in the connection object", "src/state.rs TurtlsConn"), T("no global mutable state", "src/, crylib/src")], observe=API)

prop("C14", "A connection's memory is bounded and released",
 "Whatever the server sends and however often the object is used again, one connection object never holds more than one mebibyte of memory, what it holds does not grow with the number of attempts, and turtls_free releases all of it, at whatever point of a handshake it is called.",
 ["inputs", "histories", "crash_points"], "every server behaviour of the catalogue cut off at every byte, every announced message size, every history of repeated attempts, freed at every point",
 NOTLS + "leaks and growth show only for particular endings, sizes and repetitions.",
 ["src/lib.rs", "src/state.rs", "src/handshake.rs", "src/extensions.rs", "src/record.rs"],
 [T("ownership of the object", "src/lib.rs turtls_new, turtls_free"), T("growth limit of the handshake buffer", "src/handshake.rs ShakeBuf"), T("copies of the configuration's strings", "src/extensions.rs")], observe=["the process's allocator"])

prop("C15", "Queries report the last connect's result and change nothing",
 "The error, alert and application-protocol queries report what the last connect call left, and go on doing so until connect is called again: closing the connection, changing the configuration, data arriving or asking repeatedly changes none of it and touches no transport. The library never modifies the configuration the application wrote, and the pointers it hands out (configuration, protocol name) stay the same for the lifetime of the object.",
 ["histories"], "all sequences of connect, close, reconfiguration, transport and server actions up to a depth bound, everything asked twice after each",
 NOTLS + "a query that goes stale or has a side effect shows only after particular histories.",
 ["src/error.rs", "src/config.rs", "src/extensions/app_proto.rs", "src/lib.rs", "src/state.rs"],
 [T("stored result", "src/error.rs FullError"), T("protocol name buffer", "src/state.rs GlobalState app_proto"), T("configuration copied at the start of a handshake", "src/state.rs ShakeState::new, src/extensions.rs OfferedExts")], observe=API)

V = "The existing tests compare a handful of published vectors; "
prop("K01", "Hashes are SHA-256/512 for every input and every update sequence",
 "SHA-256 and SHA-512 give the FIPS 180-4 digest for messages of every length, and the incremental hasher gives, at every moment and however the input was split into updates, the digest of exactly the bytes fed so far, also after reading intermediate digests or cloning.",
 ["inputs", "histories"], "all lengths across several blocks, all splits into up to three updates, all operation sequences to a depth bound",
 V + "the padding and buffering branches depend on the length and on every split point.",
 ["crylib/src/hash/sha256.rs", "crylib/src/hash/sha512.rs", "crylib/src/hash/buf_hasher.rs"],
 [T("padding", "crylib/src/hash/sha256.rs, sha512.rs"), T("buffering", "crylib/src/hash/buf_hasher.rs")])
prop("K02", "HMAC and HKDF follow RFC 2104 and RFC 5869 for every shape",
 "HMAC over either hash equals the RFC 2104 value for every key length, including keys longer than a block, and every message length; HKDF extract and expand equal the RFC 5869 values for every salt, key, info and output length the RFC allows.",
 ["inputs"], "all key, message, salt, info and output lengths up to several blocks (output up to the RFC limit)",
 V + "key-length and output-length boundaries are untested.",
 ["crylib/src/hmac.rs", "crylib/src/hkdf.rs"], [T("key block", "crylib/src/hmac.rs"), T("expand loop", "crylib/src/hkdf.rs")])
prop("K03", "AES and AES-GCM produce the standard ciphertext and tag for every shape",
 "The AES block cipher equals FIPS 197 for every key size offered, and AES-GCM encryption equals SP 800-38D for every message and associated-data length, with in-place and out-of-place use agreeing.",
 ["inputs"], "all message and associated-data lengths across several blocks, all single-bit keys, nonces and blocks",
 V + "GHASH padding depends on both lengths modulo the block size.",
 ["crylib/src/aead/gcm.rs", "crylib/src/aead/gcm/aes.rs"], [T("GHASH", "crylib/src/aead/gcm.rs"), T("key expansion", "crylib/src/aead/gcm/aes.rs")])
prop("K04", "ChaCha20, Poly1305 and their AEAD match RFC 8439 for every shape",
 "The ChaCha20 key stream, the Poly1305 tag and ChaCha20-Poly1305 sealing equal RFC 8439 for every message and associated-data length, every block counter and all carry-provoking key and message patterns.",
 ["inputs"], "all lengths across several blocks, boundary one-time keys and message blocks, all counters around the wrap",
 V + "Poly1305's final reduction and carries depend on values random vectors practically never hit.",
 ["crylib/src/aead/chacha.rs", "crylib/src/aead/chacha/chacha20.rs", "crylib/src/aead/chacha/poly1305.rs"], [T("limb arithmetic", "crylib/src/aead/chacha/poly1305.rs"), T("key stream", "crylib/src/aead/chacha/chacha20.rs")])
prop("K05", "AEAD decryption inverts encryption and rejects every modification",
 "For both AEADs decrypting what was encrypted with the same key, nonce and associated data returns the plaintext; if any bit of ciphertext, tag, nonce, key or associated data differs, or their lengths differ, decryption reports failure and releases no plaintext; decryption in place then leaves the caller's buffer as it was.",
 ["inputs"], "all message and associated-data lengths across block boundaries, all single-bit modifications of every input",
 V + "no test tampers with each bit, or looks at the buffer after a failure.",
 ["crylib/src/aead.rs", "crylib/src/aead/gcm.rs", "crylib/src/aead/chacha.rs"], [T("tag comparison before decryption", "crylib/src/aead/gcm.rs, crylib/src/aead/chacha.rs decrypt_inline")])
prop("K06", "Unsigned big-integer arithmetic is exact",
 "Every operation on fixed-width unsigned integers (addition, subtraction, multiplication, division, shifts, comparison, bit queries, conversions, hexadecimal text, resizing) returns the mathematical result reduced to the stated width, and its overflow or borrow indicator is correct.",
 ["inputs"], "all operand tuples over a limb alphabet of boundary values, for several widths, all shift amounts and bit positions",
 V + "carry chains and quotient corrections need particular limb patterns.",
 ["crylib/src/big_int.rs", "crylib/src/big_int/unsigned.rs"], [T("carry propagation", "crylib/src/big_int/unsigned.rs"), T("long division", "crylib/src/big_int/unsigned.rs div")])
prop("K07", "Signed big-integer arithmetic is exact two's complement",
 "Signed fixed-width integers behave as two's-complement numbers: addition, subtraction, multiplication, division, negation, absolute value, comparison, sign queries and resizing agree with the mathematical value reduced to the width.",
 ["inputs"], "all operand tuples over a boundary limb alphabet including the extreme negative value, for several widths",
 V + "signs and the extreme value are barely sampled.",
 ["crylib/src/big_int/signed.rs"], [T("sign handling", "crylib/src/big_int/signed.rs")])
prop("K08", "Finite-field arithmetic is exact and always fully reduced",
 "Field elements of the curve's prime field and of its group-order field obey modular arithmetic: addition, subtraction, negation, multiplication, squaring, small multiples, inversion and division give the unique result below the modulus, and construction reduces or refuses values at or above it as documented. An element prints as that value in hexadecimal.",
 ["inputs"], "all operand pairs over a boundary set (near 0, the modulus, powers of two, limb boundaries), all conversions around the modulus",
 V + "conditional final subtractions trigger for rare operands.",
 ["crylib/src/finite_field/field_element.rs", "crylib/src/ec/secp256r1.rs"], [T("reduction", "crylib/src/finite_field/field_element.rs"), T("inversion", "crylib/src/finite_field/field_element.rs inverse")])
prop("K09", "Curve points form the P-256 group in every representation",
 "Point construction accepts exactly the affine points on P-256; addition, doubling, negation, equality and conversion between affine and projective form obey the group law for all operands, including equal points, inverse points, the point at infinity and any projective scaling; a point prints as its affine coordinates.",
 ["inputs"], "all pairs of points from a set of small and boundary multiples with several projective representations each, plus infinity",
 V + "exceptional cases (doubling through addition, P + -P, infinity) are untested.",
 ["crylib/src/ec/point/affine.rs", "crylib/src/ec/point/projective.rs", "crylib/src/ec/point.rs"], [T("addition formulas", "crylib/src/ec/point/projective.rs"), T("curve membership", "crylib/src/ec/point/affine.rs new")])
prop("K10", "Scalar multiplication is correct for every scalar",
 "Multiplying any curve point by any scalar gives the repeated sum, for scalar zero, scalars near the group order and sparse or dense bit patterns, and the Diffie-Hellman results of two parties agree.",
 ["inputs"], "all small scalars, all powers of two and their neighbours, all scalars near the order, several base points including infinity",
 V + "few scalars are sampled.",
 ["crylib/src/ec/point/projective.rs", "crylib/src/ec/point/affine.rs"], [T("double-and-add", "crylib/src/ec/point/projective.rs mul_scalar")])
prop("K11", "ECDSA accepts exactly the valid signatures",
 "Signing yields a signature that verifies for that key and message, whatever the random source returns; verification accepts a signature if and only if it is valid under FIPS 186-4, for every key, message and pair of signature values including zero and out-of-range ones, and it never crashes.",
 ["inputs", "fault_sequences"], "all combinations of boundary private keys, nonces and digests, every mutation of signature components over a boundary set, every answer of the nonce source",
 V + "degenerate values and retries never occur in sampled signatures.",
 ["crylib/src/ec/ecdsa.rs"], [T("signature equation", "crylib/src/ec/ecdsa.rs sign"), T("verification equation", "crylib/src/ec/ecdsa.rs verify")])

prop("K12", "Operations documented as constant-time take the same path for all values",
 "Every integer and field operation that the library documents as constant-time executes, in an optimized build, the same sequence of instructions whatever the values of its operands (shift distances, digits and flags included); refusing a message with a wrong authentication tag takes the same path wherever the tag differs.",
 ["inputs"], "all pairs of boundary operands (zeros, ones, single deviating digits, carries through every digit), all shift distances, both flag values; every one-bit, one-byte, prefix and suffix difference of the tag",
 V + "a unit test sees results, never the path taken; a branch on secret data gives the same results.",
 ["crylib/src/big_int.rs", "crylib/src/big_int/unsigned.rs", "crylib/src/big_int/signed.rs", "crylib/src/finite_field/field_element.rs", "crylib/src/aead/gcm.rs", "crylib/src/aead/chacha.rs"],
 [T("masks instead of branches", "crylib/src/big_int/unsigned.rs and_bool_assign, shift_left_assign, shift_right_assign"), T("carry chains", "crylib/src/big_int.rs carry_add, carry_sub, carry_mul"), T("tag comparison", "crylib/src/aead/gcm.rs and chacha.rs decrypt_inline")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
