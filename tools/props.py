#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
LN = "every obligation generated from /repo's current SSA is discharged by SMT for all inputs and iterations; assumed: contracts on the standard library and third-party packages (specs/00_extern.spec), unbounded integers, no data races; a bounded replay of the compiled code validates the assumed contracts and is not counted as proof"
def prop(id, title, statement, over, text, why, files, mech, state=None, level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, note=level_note, na=na))

M, T, U, R, F, C = ("metadata/metadata.go", "metadata/trustedmetadata/trustedmetadata.go", "metadata/updater/updater.go",
    "metadata/multirepo/multirepo.go", "metadata/fetcher/fetcher.go", "metadata/config/config.go")
MA, K, TY, E = "metadata/marshal.go", "metadata/keys.go", "metadata/types.go", "metadata/errors.go"

prop("C01", "A role is accepted only with a threshold of valid authorised signatures",
 "Whenever a delegating root or targets metadata accepts another metadata object for a role, the delegator really delegates to that role, and at least as many distinct key identifiers as the role's threshold, all listed for that role and present in the delegator's key store, each have a signature on the object, carrying that identifier, that is cryptographically valid for that key over the canonical encoding of the object's signed part. A key counts once however often it is listed or signs, and keys, roles or signatures that are not authorised for the role never count. Snapshot and timestamp metadata never vouch for anything.",
 ["inputs"], "every delegator, key store, list of key identifiers, threshold, signature list and delegated object of the four metadata types",
 "The tests try a handful of fixture files with one to three keys; they cannot cover every combination of repeated identifiers, missing, swapped, repeated or foreign signatures and thresholds.",
 [M, K], [("collection of authorised keys, verification loop and set of verified key identifiers", M+": VerifyDelegate"), ("conversion of the stored key", K+": ToPublicKey")])
prop("C02", "The trusted root changes only by a doubly verified successor version",
 "A set of trusted metadata comes into being only from root metadata that a threshold of its own root keys signed. Afterwards the trusted root is replaced only by root metadata whose version is exactly one higher and that is signed by a threshold of the old root's keys and by a threshold of its own; in every other case, including every failure and once timestamp metadata has been loaded, root updates report an error and the trusted root stays exactly the same.",
 ["inputs", "histories"], "every initial root, every candidate document and every sequence of update calls",
 "The tests replay a few fixture roots; the guarantee is about every candidate document in every state of the trusted set, including what is left untouched on failure.",
 [T, M], [("initial root", T+": loadTrustedRoot"), ("root chain", T+": UpdateRoot")], [dict(name="trusted.Root", meaning="the current trust anchor", where=T)])
prop("C03", "Timestamp metadata is authenticated and never rolls back",
 "Timestamp metadata becomes trusted only if no snapshot is loaded yet, the trusted root is not expired, the timestamp is signed by a threshold of the root's timestamp keys and states a snapshot version; if one was trusted before, the new one has a strictly higher version and does not lower the snapshot version. Success is reported only if the now trusted timestamp is also unexpired; on every other error the previously trusted timestamp stays in place, except that an expired but otherwise acceptable one is kept for rollback protection while the expiry is reported.",
 ["inputs", "histories"], "every candidate document against every reachable trusted state",
 "The tests sample a few versions and expiry dates; the claim quantifies over all version pairs, documents and preceding histories.",
 [T], [("timestamp update and checks", T+": UpdateTimestamp, checkFinalTimestamp")], [dict(name="trusted.Timestamp", meaning="the trusted timestamp", where=T)])
prop("C04", "Snapshot metadata matches the timestamp and never rolls back",
 "Snapshot metadata becomes trusted only if an unexpired timestamp is trusted and no targets are loaded, the document matches the length and hashes the timestamp records (unless it was loaded from the local cache as already verified), and it is signed by a threshold of the root's snapshot keys; relative to a previously trusted snapshot no recorded file disappears or goes down in version. Success is reported only if the now trusted snapshot is unexpired and its version is the one the timestamp states; on any other error the trusted snapshot is unchanged, except that one failing only these two last checks is kept for rollback protection while the error is reported.",
 ["inputs", "histories"], "every candidate document against every reachable trusted state",
 "The tests cover a few fixture documents; the claim is about every set of recorded files and versions, old and new, and every failing step.",
 [T], [("snapshot update and checks", T+": UpdateSnapshot, checkFinalSnapshot")], [dict(name="trusted.Snapshot", meaning="the trusted snapshot", where=T)])
prop("C05", "Targets metadata is verified against its delegator and the snapshot",
 "Targets metadata, top-level or delegated, becomes trusted for a role only if a final (unexpired, timestamp-matching) snapshot is trusted, the delegator is trusted already, the document matches the length and hashes and has exactly the version that the snapshot records for that role, it is signed by a threshold of the keys the delegator assigns to that role, and it is unexpired. On every error no trusted metadata changes, and success changes only the entry of that role.",
 ["inputs", "histories"], "every role name, delegator, candidate document and reachable trusted state",
 "Fixture-based tests cover two roles and a few corruptions; the claim quantifies over role names, delegators, versions, recorded hashes and histories.",
 [T], [("delegated targets update", T+": UpdateTargets, UpdateDelegatedTargets")], [dict(name="trusted.Targets", meaning="trusted targets metadata by role", where=T)])
prop("C06", "No metadata document, however malformed, crashes the client",
 "Loading any byte string as metadata of any role, and feeding any such document to the verification workflow of a client in any state (root, timestamp, snapshot, targets and delegated targets updates, signature verification, expiry, length, hash and path checks), either succeeds or reports an error; it never panics.",
 ["inputs", "histories"], "every byte string for every role, in every reachable state of the trusted set",
 "Repository content is attacker controlled: tests sample a few malformed files, a crash needs only one document nobody thought of (null entries, missing parts, bad key sizes, unrecognised types).",
 [M, MA, T, K], [("decoding with null and range checks", MA), ("type checks", M+": checkType, fromBytes"), ("workflow", T)])
prop("C08", "Decoding accepts only the expected type and leaves the receiver alone on error",
 "Loading a document as metadata of a role succeeds only if the signed part declares exactly that role's type and no two signatures carry the same key identifier; the loaded object then has that type. If loading fails, from bytes or from a file, the receiving object keeps all of its previous content.",
 ["inputs"], "every byte string, file content, role type and previous content of the receiver",
 "Tests check a few wrong-type and duplicate-signature fixtures; the claim covers every document, including duplicate or case-variant members, and the absence of partial updates.",
 [M, MA], [("type check, decoding, uniqueness check before assignment", M+": FromBytes, FromFile, fromBytes, checkType, checkDecodedType, checkUniqueSignatures")])
prop("C09", "Recorded lengths and hashes are enforced and computed exactly",
 "Content is accepted against the recorded facts of a target file exactly when its length equals the recorded length and every recorded hash is a supported algorithm's digest of that content; for metadata files a recorded length of zero means unconstrained and otherwise the same holds. Facts computed from content, in memory or from a file, record its true length, path and true digests, one for each requested algorithm; two records compare equal exactly when the lengths agree, they share an algorithm and all shared algorithms agree.",
 ["inputs"], "every content, length, hash set and list of requested algorithms",
 "Tests check one or two files; the claim covers all contents, all combinations of recorded algorithms and every near miss.",
 [M], [("length and hash checks", M+": VerifyLengthHashes, verifyLength, verifyHashes"), ("computation", M+": TargetFiles.FromBytes, FromFile"), ("comparison", M+": Hashes.Equal, TargetFiles.Equal")])
prop("C10", "A target is returned, cached or found only if its content verifies",
 "Whenever downloading a target succeeds, the returned bytes have exactly the recorded length and hashes, and unless caching is disabled precisely these bytes were stored under the returned path; when it fails, no bytes and no path are returned, and a failed fetch or verification stores nothing (only a failing write may leave a partial file). A locally cached target is reported only if caching is enabled and the bytes returned are those in the file under the returned path and match the recorded length and hashes; looking for one never contacts the network or writes.",
 ["inputs", "fault_sequences"], "every recorded target file, every server response or fetch failure, every local file content and configuration",
 "Tests download one fixture target; the guarantee must hold for every response a malicious mirror can send and every state of the local cache.",
 [U, M], [("download, verification, then writing", U+": DownloadTarget"), ("cache lookup", U+": FindCachedTarget")])
prop("C11", "A delegated role is consulted only for the paths it is trusted with",
 "A role delegated by path patterns is responsible for a target exactly when one of its patterns has the same number of slash-separated parts as the target path and each part matches the corresponding glob part; a role delegated by hash prefixes exactly when the encoded SHA-256 digest of the path starts with one of the prefixes; a role with neither is responsible for nothing. The roles returned for a target are exactly the responsible ones, with their terminating flags.",
 ["inputs"], "every pattern list, prefix list and target path",
 "The tests list a few dozen pattern pairs; wildcard semantics and the exactness of the returned set need every pattern and path.",
 [M], [("responsibility of a role", M+": IsDelegatedPath, isTargetInPathPattern"), ("selection of roles", M+": GetRolesForTarget")])
prop("C12", "Succinct delegations partition the target space into well-named bins",
 "For every bit length from 1 to 32, each target path belongs to exactly one bin, determined by the leading bits of the SHA-256 digest of the path; its role name is the prefix, a dash and the bin number in lower-case hexadecimal of fixed width. Exactly 2 to the bit length names are recognised as delegated, namely the listed ones, and every bin computed for a path is among them.",
 ["inputs"], "every target path, name prefix, bit length and candidate role name",
 "The tests check a few bit lengths and names; the claim is about all names, including near misses, and all bit lengths up to 32.",
 [M, MA], [("bin of a path, list of bins, membership", M+": SuccinctRoles.GetRolesForTarget, GetRoles, GetSuffixLen, IsDelegatedRole")])
prop("C13", "Target lookup follows delegations in order, terminating and bounded",
 "Looking up a target inspects roles in pre-order depth-first order of appearance starting at the top-level targets role, visits no role twice, does not go beyond a matching terminating delegation, and returns the record of the first role in this order that lists the target. At most the configured number of delegations is followed, and every visited role is loaded through its delegator and matches the path.",
 ["inputs", "histories"], "every delegation graph, target path and delegation limit",
 "The updater tests are not even part of the reliable suite and use one small graph; order, cycles, limits and termination need arbitrary graphs.",
 [U, M], [("walk", U+": preOrderDepthFirstWalk, rolesInOrder"), ("entry", U+": GetTargetInfo")],
 level_note=LN+"; proved about every look-up: it starts at the top, visits no role twice and at most limit+1 roles, visits only roles their delegator picks for the path, siblings in order and nested, nothing beyond a terminating delegation, and returns the record of the last role visited, no earlier one listing the target; that no eligible role is skipped is decided only by the bounded replay")
prop("C14", "Local metadata is written whole, only after verification, under its role",
 "With caching enabled, every metadata file the client writes is the complete document that was just verified and became trusted for that role, placed by renaming a finished temporary file to the escaped role name inside the metadata directory; no other file of that directory changes and no temporary file is left behind on success or on a reported write or rename failure. With caching disabled nothing is written. Metadata stored this way is what the client reads for that role next time.",
 ["inputs", "histories", "fault_sequences"], "every role name, document, configuration and failing file-system step",
 "Tests never fail a write or rename and use plain role names; the claim is about every role name (slashes, dots, percent signs) and every failing step.",
 [U], [("persisting", U+": persistMetadata"), ("loading", U+": loadTimestamp, loadSnapshot, loadTargets, loadRoot, loadLocalMetadata")])
prop("C15", "Root updates walk versions one by one and stop cleanly",
 "Refreshing asks for root versions consecutively, starting right after the trusted version, at most the configured number of them, each only after the previous one was verified, became trusted and, with caching enabled, was stored. It stops without an error only when the next version is reported missing or forbidden, or at the limit; any other fetch failure, verification failure or storage failure is reported and ends the refresh.",
 ["inputs", "histories", "fault_sequences"], "every sequence of server answers and every rotation limit",
 "Tests rotate a few fixture roots and never inject other HTTP failures or storage faults at each step.",
 [U], [("root loop", U+": loadRoot")])
prop("C16", "Local-only mode refreshes without any network access",
 "When the unsafe local mode is set, refreshing loads timestamp, snapshot and top-level targets only from the local metadata directory with the usual verification, fetches nothing and writes nothing; it succeeds only if all of them verify and otherwise reports an error.",
 ["inputs", "configurations"], "every configuration, cached content and trusted state",
 "Tests check one complete and one incomplete cache directory; no test can show the absence of a fetch on every path.",
 [U], [("local refresh", U+": Refresh, unsafeLocalRefresh")])
prop("C17", "A download never exceeds its limit and needs status 200",
 "The default fetcher returns content only for an answer with status 200, and then the complete body, which is no longer than the limit, whatever length the server announces; it never reads more than one byte beyond the limit. Such an answer whose body and announced length are within the limit is not refused. Any other status is reported as an error carrying that status, and transport, read and header failures are reported as errors with no content.",
 ["inputs", "fault_sequences"], "every status, header, body length (announced or not) and limit",
 "The fetcher's own test needs the network and is not part of the reliable suite; bodies of every length around the limit with lying headers cannot be sampled enough.",
 [F], [("status, announced length, limited read and final length check", F+": DownloadFile")])
prop("C18", "Requests go to the right place with the right bounds",
 "Every metadata request addresses the configured metadata location, followed by the role's escaped name, prefixed by the version the trusted metadata states exactly when the trusted root enables consistent snapshots (always for root); its size limit is the length recorded by the trusted metadata, or the configured maximum when none is recorded. Every target request addresses the given or configured target location and the target's path, with a digest of the target prepended to the last path element exactly when consistent snapshots and hash prefixes are both enabled, bounded by the target's recorded length.",
 ["inputs", "configurations"], "every role name, target path, configuration and trusted state",
 "Only a few URLs are compared in tests outside the reliable suite; bounds are never checked; the claim is about every path, prefix option and recorded length.",
 [U], [("URL and limit", U+": downloadMetadata, loadSnapshot, loadTargets, loadTimestamp, loadRoot, DownloadTarget")])
prop("C19", "Adding and revoking keys changes exactly the key and role named",
 "After adding a key to a role, the role lists its identifier, appended once if it was not listed before, and the key store holds the key; after revoking, the role no longer lists it, and the key stays in the store exactly if another role still uses it. Other roles, other keys, thresholds and the order of remaining identifiers are untouched; an unknown role or unused key is an error that changes nothing.",
 ["inputs", "histories"], "every role set, key store and sequence of additions and revocations",
 "Tests add and revoke one or two keys on fixture files; sharing between roles, repeated additions and error paths need all histories.",
 [M], [("root keys", M+": RootType.AddKey, RevokeKey"), ("delegation keys", M+": TargetsType.AddKey, RevokeKey")])
prop("C20", "Serialisation loses nothing, recognised or not",
 "Serialising a metadata object emits every recognised member of every part that is set under its specified name with its value, and every unrecognised member that was decoded with that part; decoding stores the recognised members in their places and the remaining ones as unrecognised for that part. Decoding and then serialising a document whose recognised members are as specified therefore reproduces it, and serialising does not change the object.",
 ["inputs"], "every metadata object and decoded document, every part that can carry unrecognised members",
 "Round-trip tests use a few fixtures; loss of one member breaks signatures of every repository that uses it.",
 [MA, TY], [("one encoder and one decoder per part", MA), ("whole documents", "metadata/metadata.go: ToBytes, ToFile, FromBytes, FromFile")],
 level_note=LN+"; encoding/json is assumed to write a map as an object with its members, to call the encoder and decoder of every part, and to decode each member into the field with its name; values of unrecognised members are as encoding/json decodes them (three known findings: large integers twice, case variants of recognised names)")
prop("C21", "Hexadecimal bytes decode strictly and encode canonically",
 "Hexadecimal fields are encoded as a JSON string of lower-case digits, two per byte; decoding accepts exactly quoted hexadecimal of even length, yields exactly the bytes it denotes, and otherwise reports an error and leaves the value unchanged.",
 ["inputs"], "every byte string and every JSON text",
 "Tests decode a few samples; odd lengths, unquoted or truncated input need all inputs.",
 [MA], [("hex encoding", MA+": HexBytes.MarshalJSON, UnmarshalJSON, String")])
prop("C22", "Key conversion and key identifiers are faithful",
 "Converting a supported public key to its metadata form and back yields the same key with the type and scheme of its algorithm; unsupported keys and key material of the wrong kind or size are errors. The identifier of a key is the hexadecimal SHA-256 digest of its canonical encoding, the same on every call.",
 ["inputs"], "every public key and every stored key object",
 "Tests convert one key of each kind; malformed, mismatched and foreign keys need all inputs.",
 [K], [("conversion", K+": KeyFromPublicKey, ToPublicKey"), ("identifier", K+": ID")])
prop("C23", "A multi-repository lookup returns only targets enough repositories agree on",
 "When a multi-repository client returns a target, the returned record was reported by at least the mapping's threshold of that mapping's repositories with equal length and hashes, and this mapping is the first whose patterns match the target and that is either satisfied or terminating. If a terminating mapping is not satisfied, no later mapping is consulted and an error is reported; if none is satisfied, an error is reported. If two different records each have the threshold of that mapping's repositories behind them, an error is reported and neither is returned.",
 ["inputs", "configurations"], "every map of repositories, thresholds, patterns and every answer of the repositories",
 "There is no test of the multi-repository client at all in the suite.",
 [R], [("consensus", R+": GetTargetInfo, findRepoUpdaterForTarget")])
prop("C24", "Multi-repository configuration is validated before it is used",
 "A multi-repository client is only created if each repository it names has a trusted root and a non-empty list of locations, with unambiguous names that cannot leave the configured local directories, and each mapping refers to known repositories; otherwise an error is reported. Each repository gets its own metadata directory named after it, below the configured one, and its own updater rooted in its own trusted root.",
 ["inputs", "configurations"], "every map file, set of trusted roots and configuration",
 "No test covers this package; names with path separators, missing roots and empty lists must all be refused.",
 [R], [("construction", R+": New, initTUFClients, NewConfig")])
prop("C26", "Errors belong to their documented families",
 "Every error type of the library is recognised as itself, the specific repository, length or hash, version and expiry errors are recognised as repository errors, the download errors as download errors, and no error is recognised as belonging to a family it is not documented to be in.",
 ["inputs"], "every pair of error kinds, with every message",
 "Callers decide on these relations (for example to fall back to remote metadata); tests sample none of the negative pairs.",
 [E], [("family relations", E+": Is methods")])
prop("C27", "Expiry is exactly the passing of the stated time",
 "Metadata of each role is expired at a reference time exactly when the reference time is strictly after its stated expiry, and the workflow judges all metadata of one session against the single reference time taken when the session started.",
 ["inputs", "histories"], "every expiry date, reference time and sequence of updates",
 "Tests use one date in the past and one in the future.",
 [M, T], [("comparison", M+": IsExpired"), ("reference time", T+": New, RefTime")])
prop("C28", "Signing appends one verifiable signature and changes nothing else",
 "Signing a metadata object either fails and leaves it unchanged, or appends exactly one signature that was made over the canonical encoding of the signed part and carries the identifier of the signer's public key, keeping all earlier signatures in order and the signed part as it is; clearing removes all signatures and nothing else.",
 ["inputs", "histories"], "every metadata object, signer and sequence of signing operations",
 "Tests sign a few fixtures once; failing signers and repeated signing with several keys need all histories.",
 [M], [("signing", M+": Sign, ClearSignatures")])
prop("C29", "The repository container stores and returns each role's metadata unchanged",
 "The repository container returns for each role exactly the metadata object last set for that role and nothing for a role never set, and setting one role affects no other.",
 ["histories"], "every sequence of set operations and every role name",
 "The test sets each role once.",
 ["metadata/repository/repository.go"], [("accessors", "metadata/repository/repository.go")])
prop("C30", "Newly created metadata is well formed",
 "Every newly created metadata object has the type of its role, the library's specification version, version 1, the given expiry and no signatures; new root metadata has an empty key store and exactly the four top-level roles without keys and with threshold 1, and new snapshot and timestamp metadata refer to version 1 of targets and snapshot.",
 ["inputs", "histories"], "every expiry and every history of previously created and modified objects",
 "Tests create one of each; sharing of mutable state between created objects only shows in longer histories.",
 [M], [("constructors", M+": Root, Snapshot, Timestamp, Targets, MetaFile, TargetFile")])

CLAIMED = open(os.path.join(HERE, "tools", "claimed")).read().split()
LEVEL_NOTE = LN
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = p["state"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "contract-based deductive verification with vcg (in /verif/vcg): contracts in /verif/specs are checked against the Go SSA of /repo on every run; see DESIGN.md"}
for p in P:
    if p["id"] in CLAIMED:
        m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
            "technique": "contract-based deductive verification (function contracts and loop invariants, SMT)", "level": "proof",
            "level_note": p["note"] or LEVEL_NOTE, "evidence_file": "evidence/%s.json" % p["id"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "not claimed: no check built yet"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
