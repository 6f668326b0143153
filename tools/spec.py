#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run it after editing)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe=None, technique=None, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe or ["the public API of the packages in files"], hook_needed=None,
                               **({"state": state} if state else {})),
                  _technique=technique, _note=note))

H = "domain/hash/adapter.go"
SIG = "domain/cryptography/keys/signature/"
LX = "domain/languages/lexers/"

prop("C01", "Digests are SHA-512 of exactly the given bytes",
  "Hashing bytes gives their SHA-512 digest, except that a 64-byte input is taken verbatim as an already computed hash; hashing a sequence of byte strings gives the SHA-512 digest of their concatenation whatever its length, and hashing hexadecimal text equals hashing the decoded bytes, malformed hexadecimal being refused. "
  "The text form of a hash is 128 lowercase hexadecimal digits that decode to the same hash, and two hashes are equal exactly when all 64 bytes are. Inputs are never altered and results never alias them.",
  ["inputs"], "all byte strings, all splits of them, all texts",
  "No test exercises the hash package; a wrong length boundary (63/64/65 bytes) or a byte dropped by the comparison would go unnoticed.",
  [H, "domain/hash/hash.go"], [("digest", H), ("comparison", "domain/hash/hash.go")],
  technique="online monitor: SHA-512 reference oracle over generated inputs",
  note="every call is compared with crypto/sha512 on the same bytes; inputs and results are checked for mutation and aliasing")
prop("C02", "Ledger record hashes commit to every field",
  "For every hashed ledger record (rings, genesis units and genesis, genesis privates, transactions and their lists, secrets, receipts, private transactions, blocks, chains) two records with equal content have equal hashes, whatever the order in which their fields were given or the time zone of their timestamps. "
  "Changing any field, list element, list order or membership, or the presence of an optional part changes the hash. Timestamps count with a resolution of one nanosecond in a genesis and its units, one second elsewhere.",
  ["inputs", "histories"], "all records and all single edits anywhere inside them, including digits moved between neighbouring fields",
  "No test exists for these packages, and a hash that forgets a field or concatenates ambiguously looks right on any single example.",
  ["domain/genesis", "domain/transactions", "domain/chains", "domain/rings", "domain/receipts", H],
  [("hash over the fields in Now()", "domain/genesis/unitcontent_builder.go"), ("hash over the fields in Now()", "domain/transactions/secrets/secret_builder.go"), ("hash over the fields in Now()", "domain/chains/block_builder.go")],
  technique="edit-and-compare monitor with a run-wide hash collision table",
  note="records are plain data trees built by reflection through the public builders; content equality of the trees must coincide with hash equality")
prop("C03", "A Merkle head binds the blocks, their order and their number",
  "The head, leaves, length and height of a hash tree equal those of the standard Merkle construction over the SHA-512 digests of the blocks padded with empty blocks to a power of two of at least two. "
  "Two lists that give trees of the same length have the same head exactly when they are equal up to trailing empty blocks, an empty list is refused, and building or observing a tree never alters the caller's data or the tree.",
  ["inputs"], "all non-empty block lists, empty, repeated, 64-byte and digest-valued blocks included",
  "The tests build a handful of fixed lists and never compare heads with an independent computation.",
  ["domain/hashtree"], [("padding and leaf digests", "domain/hashtree/block.go"), ("pairing", "domain/hashtree/leaves.go")],
  technique="reference-model monitor over generated block lists and their neighbours",
  note="independent Merkle implementation; neighbours (flip, swap, drop, append, replace by digest, moved border) must change the head")
prop("C04", "Shuffled blocks are put back in the order of their tree",
  "Ordering any permutation of the blocks of a hash tree gives them back in the order they had when the tree was built, repeated and empty blocks included, and some of its blocks are put in that same order. "
  "Data holding a block that the tree does not have, or more copies of it than the tree has, is refused.",
  ["inputs"], "all block lists and permutations, one foreign or surplus block",
  "The tests shuffle one list of distinct blocks.",
  ["domain/hashtree/hashtree.go"], [("Order", "domain/hashtree/hashtree.go")],
  technique="conservation monitor (permutation and multiset oracle)", note="multiset oracle on inputs and outputs of Order")
prop("C05", "Password encryption round-trips and never repeats itself",
  "Whatever is encrypted with a password is decrypted to the same bytes by any instance made from the same password, whichever way it was constructed, and not by another password. "
  "Two encryptions never share an initialization vector, the text never contains the message, and malformed or too short texts are refused without altering anything.",
  ["inputs"], "all passwords and messages, empty ones included", "No test covers this package.",
  ["domain/cryptography"], [("AES-CFB with a random IV", "domain/cryptography/encryption.go")],
  technique="round-trip monitor with IV-uniqueness log", note="IVs of the whole run are kept and must be unique")
prop("C06", "RSA messages reach only the owner of the key",
  "Every message up to the size the key allows is encrypted and decrypted unchanged by the matching private key, never by another key and never after the cipher was altered, and longer messages are refused. "
  "Keys survive their byte and text encodings, whichever other keys are decoded in between, and the hash of a public key is the digest of its encoding.",
  ["inputs", "histories"], "all keys, message lengths and interleavings of encodings", "No test covers this package.",
  ["domain/cryptography/keys/encryption"], [("OAEP", "domain/cryptography/keys/encryption/privatekey.go"), ("codec", "domain/cryptography/keys/encryption/adapter.go")],
  technique="round-trip and rejection monitor over generated keys", note="every message length class, altered and cross-key ciphers, interleaved key codecs")
prop("C07", "A signature identifies its signer and its message",
  "A signature verifies, survives its text form, and gives back the public key of its signer when asked with the signed message; with another message, or after its text was altered, it never gives that key. "
  "Private and public keys survive their text forms, and public keys are equal exactly when they are the same point.",
  ["inputs"], "all keys and messages", "The tests sign one message with one key.",
  [SIG], [("Schnorr signature", SIG + "privatekey.go"), ("key recovery", SIG + "signature.go")],
  technique="signature oracle monitor over generated keys, messages and altered forms", note="public keys are recomputed by the harness on the curve")
prop("C08", "Ring signatures prove membership and nothing else verifies",
  "Any member of a ring, at any position and in a ring of any size, can sign, and the signature verifies for that message and ring, before and after its text encoding; a key outside the ring cannot sign. "
  "With another message, or after any key, scalar or challenge of the signature was replaced, swapped, removed or added, it no longer verifies or is refused.",
  ["inputs"], "all ring sizes and positions, all messages, all single-component alterations", "The tests use one ring of two keys.",
  [SIG], [("ring closing", SIG + "privatekey.go"), ("verification loop", SIG + "ringsignature.go"), ("decoding", SIG + "ringsignature_adapter.go")],
  technique="soundness and completeness monitor with component-wise tampering", note="13 kinds of alteration applied on the text form")
prop("C09", "A ring is accepted only against exactly its own key hashes",
  "Checking a ring signature against a list of public key hashes succeeds exactly when the signature verifies for the message and the list holds the hashes of the ring's keys, all of them, in order. "
  "A permuted, truncated, extended, missing or modified list, or another message, is refused.",
  ["inputs"], "all rings and lists", "The test checks a single exact list.",
  [SIG + "ringsignature_adapter.go"], [("ToVerification", SIG + "ringsignature_adapter.go")],
  technique="acceptance monitor over exact and edited hash lists", note="hashes are recomputed by the harness")
prop("C10", "Hostile texts never crash a decoder nor pass for a valid value",
  "Decoding any text as a key, signature, ring signature, cipher, hash or peer returns an error or a usable value, and never crashes. "
  "An accepted value survives its own encoding unchanged, and an accepted ring signature has at least one key and does not verify arbitrary messages.",
  ["inputs"], "all byte strings, in particular valid texts altered at text level and below their encoding", "The tests decode valid texts only.",
  [SIG, "domain/cryptography", "domain/peers", H], [("decoders", SIG + "helper.go"), ("decoders", SIG + "ringsignature_adapter.go")],
  technique="robustness monitor: structured mutation of valid encodings", note="9 decoders; crash, acceptance and re-encoding oracles")
prop("C11", "Genesis units and activation never precede creation",
  "A genesis unit is accepted exactly when its activation instant is not before its creation instant, to the nanosecond and whatever their time zones. "
  "A genesis is accepted exactly when none of its units, at any position, was created before it.",
  ["inputs"], "all instants and unit positions", "No test covers the genesis package.",
  ["domain/genesis"], [("time checks in Now()", "domain/genesis/builder.go"), ("time checks in Now()", "domain/genesis/unitcontent_builder.go")],
  technique="boundary monitor over generated instants", note="offsets down to 1 ns on both sides of equality")
prop("C12", "A ring never has fewer or more keys than its bounds",
  "A ring is accepted exactly when a list of hashes was given and its size lies between the minimum and the maximum, both included. An accepted ring holds exactly the given hashes in order.",
  ["inputs"], "all bounds and sizes", "No test covers the rings package.",
  ["domain/rings/ring_builder.go"], [("bounds in Now()", "domain/rings/ring_builder.go")],
  technique="boundary monitor, exhaustive on a small grid", note="grid 0..5 x 0..5 x 0..6 enumerated completely plus random larger bounds")
prop("C13", "Incomplete ledger records, keys and peers are never built",
  "For every builder of ledger records, identities, peers, keys and hash trees, building succeeds exactly when all mandatory parts were given; parts left empty (no text, no amount, no height, empty list) count as missing. "
  "A builder made from another one starts blank, siblings never share what they were given, and building twice gives the same record.",
  ["inputs", "histories"], "all subsets and orders of the setters of 28 builders, and re-use histories", "No test covers these builders.",
  ["domain/genesis", "domain/transactions", "domain/chains", "domain/rings", "domain/receipts", "domain/identities", "domain/peers", "domain/cryptography", "domain/hashtree"],
  [("mandatory checks in Now()", "domain/transactions/content_builder.go"), ("Create()", "domain/chains/block_builder.go")],
  technique="exhaustive subset monitor on builders (reflection driven)", note="every subset of setters of every builder is run")
prop("C14", "Peers are written and read back exactly",
  "A peer is written as its host, the delimiter and its port, and that text is read back as the same host and port for every host without the delimiter and every port. "
  "Texts without exactly one delimiter, without a host, or whose port is not a non-negative decimal number that fits are refused.",
  ["inputs"], "all hosts, ports, delimiters and texts", "No test covers the peers package.",
  ["domain/peers"], [("text form", "domain/peers/peer.go"), ("parsing", "domain/peers/peer_builder.go")],
  technique="round-trip and rejection monitor", note="15 malformed shapes per host")
prop("C15", "Ledger records give back exactly what they were built from",
  "Every part given to a ledger record, identity or peer is read back unchanged, at any nesting depth, and optional parts are reported present exactly when they were given. Reading does not alter the record.",
  ["inputs"], "all records", "No test covers these packages.",
  ["domain/genesis", "domain/transactions", "domain/chains", "domain/rings", "domain/receipts", "domain/identities", "domain/peers"],
  [("constructors", "domain/transactions/secrets/secret.go"), ("getters", "domain/identities/transactions.go")],
  technique="recursive read-back monitor (reflection driven)", note="23 kinds of record")
prop("C16", "Signing never gives the private key away",
  "Whatever messages and rings a key signs, plainly or in rings, related messages and repeated ones included, the published signatures never allow computing the private key. "
  "In particular no two signatures over different challenges share their secret nonce, and no published scalar is the nonce of another signature.",
  ["histories"], "all histories of plain and ring signatures by one key", "The tests look at one signature at a time; the leak needs two.",
  [SIG + "privatekey.go", SIG + "helper.go"], [("choice of the nonces", SIG + "privatekey.go")],
  technique="attack-playing history monitor", note="all pairs of signature equations and all published scalars are combined into key-recovery attempts")
prop("C17", "Shared adapters, keys and trees are safe for concurrent use",
  "Hash, key, signature and peer adapters, factories, keys, signatures, encryption instances, hash trees and ledger records can be used by many goroutines at once without a data race, and every result is the one obtained alone.",
  ["schedules"], "all interleavings of the listed operations on shared instances", "The tests are sequential.",
  ["domain/cryptography", "domain/hash", "domain/hashtree", "domain/peers"], [("stateless adapters", "domain/cryptography/keys/encryption/adapter.go")],
  technique="Go race detector plus result oracle under concurrent stress", note="8 goroutines, 11 operations on shared instances; 23 kinds of records, keys, signatures and trees of which nothing was asked yet, read and built by all")
prop("C18", "A ring signature does not tell which of its keys signed",
  "Whichever key of a ring signs, what is published is alike: the ring is shown in the order it was given, and no scalar or challenge of a signature repeats another one, can be computed by anyone from the message and the ring, "
  "or has bits that depend on its distance to the signer, however often the keys of the ring sign the same or other messages.",
  ["histories"], "all histories of ring signatures over a ring by each of its keys", "The tests only verify ring signatures; anonymity is a relation between several of them.",
  [SIG + "privatekey.go", SIG + "ringsignature.go"], [("decoy scalars", SIG + "privatekey.go")],
  technique="distinguisher-playing history monitor", note="every value published in the whole history is kept and compared; bit frequencies by distance to the signer, seven standard deviations")

from spec_lang import add
add(prop, LX)

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    built = set()
    hd = os.path.join(HERE, "harness")
    for fn in os.listdir(hd):
        if fn.endswith(".go"):
            src = open(os.path.join(hd, fn)).read()
            for p in P:
                if 'ID: "%s"' % p["id"] in src or 'ID:   "%s"' % p["id"] in src or ('"%s"' % p["id"]) in src:
                    built.add(p["id"])
    checks, na = [], []
    for p in P:
        if p["id"] in built:
            checks.append(dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
                               technique=p["_technique"], level="exploration", level_note=p["_note"]))
        else:
            na.append(dict(property=p["id"], reason="no check yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks, not built:", [x["property"] for x in na])

main()
