"""Digest and hash properties decided on LLVM IR."""
import os
import time

from common import Broken

IR_NOTE = ("IR of harness/digest_api.cc, which instantiates every public digest, HMAC, keyed/XOF/KDF mode, hash and stream "
           "operation against the current sources.")


def h04(ctx):
    bc = ctx.ir("digest_api.cc", "d.bc")
    r = ctx.tool("vpir", ["pure", bc, "vp_dig_final", "vp_dig_sfinal", "vp_hmac_final", "vp_hmac_sfinal", "vp_hs_final", "vp_hs_sfinal"])
    ctx.take(r)
    s = r["stats"]
    if s["entries"] < 50 or s["state_types"] < 15:
        raise Broken("too few finalize entries: %s" % s)
    ctx.coverage.update(s, samples=r["items"][:3])
    return (IR_NOTE + " Rule: after inlining everything, no store, memory intrinsic, atomic or escaping call in any finalize operation "
            "may write memory reachable from the stream argument, and no stream state contains a pointer (copies share nothing).")


def h05(ctx):
    bc = ctx.ir("digest_api.cc", "d.bc")
    r = ctx.tool("vpir", ["effects", bc])
    ctx.take(r)
    s = r["stats"]
    if s["entries"] < 200 or s["functions"] < 400:
        raise Broken("too few functions reached: %s" % s)
    ctx.coverage.update({k: v for k, v in s.items() if k not in ("tables", "externals")}, externals=s["externals"],
                        samples=s["tables"][:5])
    return (IR_NOTE + " Rule (effect analysis over the closed call graph): no reference to mutable or thread-local static storage, "
            "no atomic/volatile access, no inline assembly, no call or intrinsic outside a fixed list of pure library functions, "
            "and no use of an object's address as a number except in a difference of two addresses.")


def _dual(ctx, mode, flags, what, minimum):
    a = ctx.ir("digest_api.cc", "a.bc")
    b = ctx.ir("digest_api.cc", "b.bc", flags)
    r = ctx.tool("vpir", ["dual", mode, a, b])
    ctx.take(r)
    s = r["stats"]
    if s["functions_identical"] + s["functions_compared"] < minimum:
        raise Broken("too few functions compared: %s" % s)
    ctx.coverage.update(s, samples=r["items"][:8])
    return IR_NOTE + " " + what


def h06(ctx):
    return _dual(ctx, "ce", ["-D__builtin_is_constant_evaluated()=true"],
                 "The sources are compiled once with the run-time arm and once with the compile-time arm of every "
                 "constant-evaluation test; functions with equal IR need no argument, every function that differs must be shown equal "
                 "by bit provenance (each result bit traced to the input bit it comes from) for its whole defined domain, or be "
                 "identical after simplification; otherwise its callers are compared, and an entry point that cannot be shown equal "
                 "is a violation.", 500)


def h07(ctx):
    return _dual(ctx, "endian", ["-U__BYTE_ORDER__", "-D__BYTE_ORDER__=__ORDER_BIG_ENDIAN__"],
                 "The sources are compiled for little- and for big-endian byte order (loads in the second build are interpreted "
                 "big-endian); functions that differ must be shown equal by bit provenance, and outside those functions no memory may "
                 "be read or written at two widths (bytes as wider integers or the reverse).", 500)


def h08(ctx):
    return _dual(ctx, "mul", ["-U__SIZEOF_INT128__"],
                 "The sources are compiled with and without a 128-bit integer type; functions that differ must compute the exact "
                 "128-bit product (or the fold of its halves), shown as a polynomial identity over the integers with the carries as "
                 "floor-division terms and overflow excluded by interval bounds.", 500)


DIGESTS = ["blake3", "sha512", "sha384", "sha512_256", "sha512_224", "sha3_512", "sha3_384", "shake128", "sha3_256", "shake256", "sha3_224",
           "sha256", "sha224", "sha1", "md5", "blake2b", "blake2b_256"]
HASHSTREAMS = ["mumbo", "jumbo", "siphash", "xxh64"]
HASHES = ["dumbo", "xxh3", "murmur3", "rapidhash", "fambo", "mumbo", "jumbo", "siphash", "fnv1a", "xxh64", "h64_tembo_2_3", "h64_tembo_3_5",
          "h64_tembo_4_8", "h64_tembo_7_9", "h64_tembo_8_8", "h64_tembo_16_17", "sip24", "sip13"]
SPEC_NOTE = ("IR of harness/digest_spec.cc: the public operations of the current sources beside the framing the standards prescribe. ")
ABS_NOTE = ("Abstract interpretation of the IR: lengths, positions and buffer contents are symbolic (polyhedra over the dimensions, one "
            "partition per path), values are hash-consed terms over message bytes, keys and state words, block functions stay "
            "uninterpreted (equal arguments give equal results); after any number of whole blocks the state is an inferred form "
            "(affine counters, chaining words folded over the blocks) checked to be preserved by a step. No solver, nothing is run. ")
STREAM_ASSUME = ["the total length is below 2^61 bytes", "the data handed in does not overlap the stream object or the output",
                 "block functions and hash steps are compared as the same function of the same arguments, not computed"]


def _totals(ctx, res):
    tot = {}
    for _, r in res:
        for k, v in (r or {}).get("stats", {}).items():
            if isinstance(v, int) and k not in ("inductive_unit", "chaining_words"):
                tot[k] = tot.get(k, 0) + v
    tot["algorithms"] = sum(1 for _, r in res if r)
    ctx.coverage.update(tot, samples=[{"job": " ".join(a[2:]), **{k: v for k, v in r["stats"].items()}} for a, r in res if r][:40])
    return tot


def is_bounds(rule):
    return rule.endswith("bounds") or rule.startswith(("write-to", "read-", "stale", "shift", "division")) or "outside" in rule or "uninit" in rule


PARTS = {"xxh3": 8, "fnv1a": 4, "siphash": 3, "dumbo": 3}


def _stream(ctx, jobs, rules, timeout, src="digest_spec.cc", bcname="s.bc"):
    bc = ctx.ir(src, bcname)
    more = ["thorough"] if ctx.tier == "thorough" else []
    lists = []
    for k, n, mode in jobs:
        if k != "fn":
            lists.append(["stream", bc, k, n, mode] + more)
            continue
        parts = PARTS.get(n, 2 if n in ALL64 else 1)
        lists += [["hashfn", bc, n, "part=%d/%d" % (i, parts)] + (["only=" + mode] if mode else []) + more for i in range(parts)]
    os.environ["VP_BUDGET"], os.environ["VP_EACH"] = ("250", "30") if ctx.tier != "thorough" else ("740", "200")
    os.environ["VP_DEADLINE"] = str(int(time.time()) + (500 if ctx.tier != "thorough" else 780))
    res = ctx.jobs("vpir", lists, timeout)
    for _, r in res:
        if r:
            ctx.take(r, rules)
    ctx.assumptions += STREAM_ASSUME
    return _totals(ctx, res)


def h01(ctx):
    jobs = [("dig", a, "chunk") for a in DIGESTS] + [("hs", a, "chunk") for a in HASHSTREAMS]
    _stream(ctx, jobs, lambda r: r in ("chunking", "one-shot", "streamer"), 800 if ctx.tier == "thorough" else 280)
    return (SPEC_NOTE + ABS_NOTE + "Rule: two updates of any lengths give the same result term as one update of the joined data, from "
            "the fresh stream and from the state after any number of whole blocks; the one-shot function and the Streamer class give "
            "the stream's result; all splits of lengths around block, buffer and chunk limits. A violation is a definite pair of "
            "lengths with different result terms.")


def h02(ctx):
    jobs = [("dig", a, "spec") for a in DIGESTS] + [("dig", a, "keyed") for a in ("blake3", "shake128", "shake256", "blake2b", "blake2b_256")]
    _stream(ctx, jobs, lambda r: r in ("framing", "keyed", "xof"), 800 if ctx.tier == "thorough" else 280)
    return (SPEC_NOTE + ABS_NOTE + "Rule: for every message length the sequence of block-function calls (chaining value, message bytes "
            "with padding, counters, lengths, flags) and the output serialisation equal those of the standard's framing; the initial "
            "values are compared as constants; keyed, derive-key and extendable-output modes likewise.")


def h03(ctx):
    jobs = [("dig", a, "bounds") for a in DIGESTS] + [("hs", a, "bounds") for a in HASHSTREAMS] + [("fn", a, "") for a in HASHES]
    jobs += [("dig", "md5", "hmac"), ("dig", "blake3", "keyed"), ("dig", "shake256", "keyed"), ("dig", "blake2b", "keyed")]
    order = {"dumbo": 0, "sha512": 1, "xxh3": 2, "sha384": 3, "blake3": 4}
    jobs.sort(key=lambda j: order.get(j[1], 9))
    _stream(ctx, jobs, lambda r: r not in ("chunking", "one-shot", "streamer", "framing", "hmac", "keyed", "xof", "facade"),
            800 if ctx.tier == "thorough" else 280)
    return (SPEC_NOTE + ABS_NOTE + "Rule: every load, store and memory intrinsic lies inside the object it addresses (message, seed, key, "
            "output array, stream state, tables, locals) and never writes the message; a violation is an access whose offset is outside "
            "for a definite length, fill state and path.")


def h09(ctx):
    names = DIGESTS if ctx.tier == "thorough" else ["sha3_256", "blake2b", "blake3", "sha256", "sha1", "md5"]
    _stream(ctx, [("dig", a, "hmac") for a in names], lambda r: r == "hmac", 800 if ctx.tier == "thorough" else 280)
    return (SPEC_NOTE + ABS_NOTE + "Rule: HMAC's result term equals RFC 2104's (key hashed when longer than a block, padded, inner and "
            "outer pad) for keys shorter than, as long as and longer than a block, for any message length, one-shot, streamed and "
            "through HmacStreamer.")


FACADES = ["fold128", "native32", "functor", "mfunctor", "gethash", "free64", "free128", "free32", "comb", "to64", "to32"]
ALL64 = ["fnv1a", "siphash", "murmur3", "xxh64", "rapidhash", "xxh3", "dumbo", "fambo", "mumbo", "jumbo", "h64_tembo_2_3", "h64_tembo_3_5"]
HASH_NOTE = "IR of harness/hash_spec.cc: the public hash operations of the current sources beside the documented derivations. "


def h10(ctx):
    _stream(ctx, [("fn", a, "facade") for a in ALL64 + FACADES], lambda r: r in ("facade", "completion"),
            800 if ctx.tier == "thorough" else 280, "hash_spec.cc", "h.bc")
    return (HASH_NOTE + ABS_NOTE + "Rule: Hasher<Algorithm>, Hasher32/64/128, the free functions, the functors and the combination helpers "
            "give, for every length, the value term the documentation derives from the algorithm's own 64- or 128-bit result.")


def h11(ctx):
    _stream(ctx, [("fn", a, "canonical") for a in ("fnv1a", "sip24", "sip13", "siphash", "murmur3", "xxh64", "rapidhash", "xxh3")],
            lambda r: r == "canonical", 800 if ctx.tier == "thorough" else 280, "hash_spec.cc", "h.bc")
    return (HASH_NOTE + "The harness carries a second, independent writing of the published FNV-1a, SipHash-2-4/1-3, MurmurHash3, XXH64, "
            "rapidhash and XXH3 algorithms. " + ABS_NOTE + "Rule: for every length (inductively where the algorithm folds over "
            "stripes, else each length up to a cap) the library's value term equals the published one's after normalisation.")


def h12(ctx):
    t = _stream(ctx, [("dig", a, "block") for a in DIGESTS], lambda r: r == "block", 800 if ctx.tier == "thorough" else 280, "block_spec.cc", "k.bc")
    if t.get("scenarios", 0) < len(DIGESTS):
        raise Broken("too few algorithms analysed: %s" % t)
    ctx.assumptions = ["the message does not overlap the output", "framing for other lengths is H02's subject; here messages of fixed lengths are "
                       "followed through the complete block function with all bytes symbolic"]
    return ("IR of harness/block_spec.cc: the public one-shot digests of the current sources beside the block functions written from the "
            "standards (RFC 1321, FIPS 180-4, FIPS 202, RFC 7693, BLAKE3). Abstract interpretation with message bytes as free variables "
            "builds the result of each as a hash-consed term in normal form (bitwise sums flattened, constants collected, bytes and words "
            "unified). Rule: equal terms for every message content of that length; terms in different normal form are a violation only "
            "when an assignment of their variables gives them different values, else undecided. Nothing is run, no solver.")


PROPS = {"H12": h12, "H04": h04, "H05": h05, "H06": h06, "H07": h07, "H08": h08, "H01": h01, "H02": h02, "H03": h03, "H09": h09, "H10": h10, "H11": h11}
