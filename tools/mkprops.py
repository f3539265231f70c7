#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the wording and anchors are edited in one place).
import json, os
R = "reference/src/"
T = R + "taimpl/src/"
I = R + "taimpl/src/internal/"
C = R + "clientimpl/src/"
def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why, "anchors": a}
L = []
L.append(P("P01", "A key is used only as its rights allow, on every single use",
 "An operation that uses a key succeeds only if the key's rights permit that very use: the usage flag for that kind of operation is set, the current time lies in the key's validity window (start inclusive, end exclusive), the calling application is on the key's list, the current analog and digital output protection satisfies the rights, and, when content is encrypted or decrypted, the clear or protected destination is permitted. The check is made afresh on every use: a cipher context opened earlier stops processing as soon as the time, the outputs or the destination no longer qualify, and works again when they do. A use that the rights permit and whose arguments are valid is not refused.",
 ["inputs", "histories", "configurations"],
 "every combination of usage flags, validity window, allowed-caller list, clock value, output state, caller, destination and operation, and every history of changes of clock and outputs between the calls on one context",
 "The tests set one flag wrong per operation with one clock and one fixed output state; they cannot change the outputs or let time pass while a context is open, and sample a handful of the flag combinations.",
 [I+"rights.c", I+"key_store.c", I+"cipher_store.c", T+"ta_sa_crypto_cipher_init.c", T+"ta_sa_crypto_cipher_process.c", T+"ta_sa_crypto_sign.c", T+"ta_sa_key_derive.c", T+"ta_sa_key_exchange.c", T+"ta_sa_key_unwrap.c", T+"ta_sa_crypto_mac_init.c", T+"porting/video_output.c", T+"porting/transport.c"],
 [("rights_allowed_*", I+"rights.c"), ("key_store_unwrap (time, caller, outputs)", I+"key_store.c"), ("cipher_store rights re-check", I+"cipher_store.c")],
 ["status of ta_sa_* / sa_* calls", "output buffers"],
 [("key rights", "usage flags, window, callers", I+"stored_key.c"), ("cipher rights", "copy of the key's rights kept by an open cipher", I+"cipher_store.c")]))
L.append(P("P02", "A key made from another key never gains permissions",
 "A key that is derived, agreed or unwrapped with a parent key carries exactly the rights the caller asked for, except that permissions the parent does not grant are removed: output-protection permissions (including the permission for clear memory) the parent lacks are dropped, or, when unwrapping is the parent's only key usage and it states usage for its children, key-usage flags outside that statement are dropped. No chain of such operations, and no export and import in between, yields a key that may be used in a way forbidden by this rule at any step. Everything else in the requested rights is preserved unchanged.",
 ["inputs", "histories"],
 "every pair of parent rights and requested rights, every creating operation and algorithm, and every chain of creating operations",
 "The tests use a few fixed rights pairs for some of the creating operations and mostly look at the status, not at the resulting rights; chains of operations are not explored.",
 [I+"stored_key.c", I+"kdf.c", I+"unwrap.c", I+"dh.c", I+"ec.c", I+"netflix.c", T+"ta_sa_key_derive.c", T+"ta_sa_key_exchange.c", T+"ta_sa_key_unwrap.c"],
 [("restrict_child_rights", I+"stored_key.c")], ["key header", "status of later uses of the child key"]))
L.append(P("P03", "Sessions and callers are isolated from each other",
 "A handle to a key, cipher, MAC or protected buffer can be used only within the session that created it and only by the application identity that created it; any other use is refused and leaves the object unchanged. Closing a session destroys all objects of that session, frees its place for a new session that starts empty, and changes nothing in any other session. Operations on a session that is not open are refused.",
 ["histories", "inputs"],
 "every interleaving of operations of several sessions and application identities, with any handle values, including sessions opened and closed in any order",
 "The client library opens one process-wide session with one identity, so no public test can have two sessions or two identities; unit tests of the stores use a single owner.",
 [I+"client_store.c", I+"object_store.c", T+"ta_sa_init.c", T+"ta_sa_close.c", I+"key_store.c", I+"cipher_store.c", I+"mac_store.c", I+"svp_store.c"],
 [("owner uuid check", I+"object_store.c"), ("per-session stores", I+"client_store.c")], ["status of ta_sa_* calls with foreign handles, identities and sessions"],
 [("client store", "open sessions and their stores", I+"client_store.c")]))
L.append(P("P04", "A handle names exactly one live object until it is released",
 "A handle returned by a successful creating call differs from every live handle of its kind in the session, and every use of it until its release acts on that same object; after release it is refused until a later creation returns it again. When the capacity is exhausted a creating call is refused, the existing objects stay intact, and each release makes exactly one more creation possible. Objects that were created from another object (a cipher or MAC from a key) keep working after that object is released.",
 ["histories", "inputs"],
 "every sequence of creations, uses and releases of every kind of object, up to and beyond capacity, and arbitrary handle values",
 "Tests create and release one or two objects in a fixed order; filling the stores, releasing in other orders and reusing stale handles is not explored.",
 [I+"slots.c", I+"object_store.c", I+"key_store.c", I+"cipher_store.c", I+"mac_store.c", I+"svp_store.c", T+"ta_sa_key_release.c", T+"ta_sa_crypto_cipher_release.c", T+"ta_sa_crypto_mac_release.c", T+"ta_sa_svp_buffer_release.c"],
 [("slot bitmap", I+"slots.c"), ("reference counted object table", I+"object_store.c")], ["returned handles", "status and results of uses"],
 [("slot table", "which handles are live", I+"slots.c")]))
L.append(P("P05", "A call that fails leaves no trace",
 "A call that returns an error (bad arguments, missing permission, capacity, exhausted memory at any point, or a failing crypto primitive at any point) creates no object, changes no existing object or caller-visible position, keeps no memory or slot, and leaves nothing locked: every later call behaves as if the failed call had not been made (only a cipher or MAC context whose verification or crypto primitive failed in the middle of its stream may be left good for release alone). When a step inside a call fails, the call reports an error and never success. No argument or failure makes a call crash, hang or touch memory outside its buffers.",
 ["inputs", "fault_sequences", "histories"],
 "every call of the interface, every invalid argument combination, every single failing memory allocation or crypto-library step inside the call, and every state from which it is made",
 "No test injects failing allocations or crypto failures, and tests of invalid arguments look at the returned status only, not at what the failing call left behind.",
 [T+"ta_sa_crypto_cipher_process.c", T+"ta_sa_crypto_cipher_process_last.c", T+"ta_sa_crypto_cipher_init.c", T+"ta_sa_crypto_sign.c", T+"ta_sa_key_import.c", T+"ta_sa_key_unwrap.c", T+"ta_sa_key_derive.c", I+"stored_key.c", I+"unwrap.c", I+"rsa.c", I+"ec.c", I+"symmetric.c", I+"svp_store.c", C+"sa_key_import.c"],
 [("single exit with release of acquired references", T), ("allocation wrappers", T+"porting/memory.c")], ["status", "balance of allocations", "later behaviour", "progress"]))
L.append(P("P06", "Exported keys come back identical, and only cacheable keys leave",
 "A key can be exported only if its rights mark it cacheable, and importing what was exported yields a key with the same value, type, size, parameters and rights, in any session of the device and as often as wanted. An exported blob that is altered, truncated, extended or mixed with another one anywhere is refused and creates no key. The blob does not show the key value.",
 ["inputs", "histories"],
 "every key type, size and rights, every caller-supplied mixin, every chain of export and import, and every altered byte or length of a blob",
 "Tests round-trip a few keys and flip no bytes of the blob; which parts of a blob are authenticated is never explored.",
 [I+"stored_key.c", I+"key_store.c", T+"ta_sa_key_export.c", T+"ta_sa_key_import.c", T+"porting/otp.c"],
 [("encrypt-then-MAC under device root key and mixin", I+"key_store.c")], ["status, header, digest and use of the re-imported key"]))
L.append(P("P07", "A cipher's result does not depend on how the data is cut up",
 "For every algorithm, mode, key and initialisation value, the concatenated output of a cipher context equals the standard algorithm applied in one piece to the concatenated input, however the input is divided over calls, including empty pieces, in-place use (except where removal of padding holds a block back), changes of the initialisation vector and interleaving with other contexts; buffer positions advance by exactly what was consumed and produced. A call that is out of order, ill-sized, or after the end of the stream is refused and changes nothing. Authenticated decryption reports success only if the tag matches.",
 ["inputs", "histories"],
 "every cut of every message into pieces, every order of init, process, last, set-iv and release calls, all algorithms, key sizes, tag lengths and padding contents",
 "Tests cut messages at one or two fixed points and mostly make calls in the right order; combinations of cut, padding, tag and call order are not covered.",
 [I+"symmetric.c", I+"cipher_store.c", I+"pad.c", T+"ta_sa_crypto_cipher_process.c", T+"ta_sa_crypto_cipher_process_last.c", T+"ta_sa_crypto_cipher_update_iv.c", I+"buffer.c", C+"sa_crypto_cipher_process.c", C+"sa_crypto_cipher_process_last.c"],
 [("symmetric_context", I+"symmetric.c"), ("cipher state machine", I+"cipher_store.c")], ["output bytes, lengths, offsets, status"],
 [("cipher context", "key copy, chaining state, done flag", I+"cipher_store.c")]))
L.append(P("P08", "A MAC equals the standard MAC of everything fed to it, once",
 "The value computed by a MAC context equals the standard HMAC or CMAC, under the key it was opened with, of all data and key values fed to it in order, however they are cut into pieces and interleaved with other contexts. After the value was produced the context accepts no more data and produces no second value, and a refused or too-small request for the value does not consume it. The result is never produced for a key that does not fit the algorithm.",
 ["inputs", "histories"],
 "every sequence of feeding data, feeding keys, asking for the length, computing and releasing, every algorithm and digest and key size",
 "Tests feed one or two fixed pieces; orders of calls, pieces around block boundaries and repeated computation are sampled only.",
 [I+"mac_store.c", I+"hmac_context.c", I+"cmac_context.c", T+"ta_sa_crypto_mac_compute.c", T+"ta_sa_crypto_mac_process.c", T+"ta_sa_crypto_mac_process_key.c", T+"ta_sa_crypto_mac_init.c"],
 [("hmac/cmac contexts", I+"hmac_context.c")], ["MAC value, length, status"]))
L.append(P("P09", "Protected buffers keep content in and reject every access out of bounds",
 "Content placed in a protected buffer, and the output of a key that requires protected output, never reaches memory the client can read through any call or sequence of calls. Every copy, write, decryption or check touches exactly the requested bytes of the buffer; a range that does not fit entirely inside the buffer, for any offset and length including ones whose sum wraps around, is refused and changes no byte. The check calls report success only when the content really matches.",
 ["inputs", "histories"],
 "every operation on protected buffers, every combination of offsets and lengths (including near the largest integers), and every sequence of copies between buffers",
 "Tests use small in-range offsets and one too-large length; wrap-around, multi-range copies that fail half-way, and the content outside the touched range are not examined.",
 [I+"svp_store.c", I+"buffer.c", T+"porting/svp.c", T+"porting/overflow.c", T+"ta_sa_svp_buffer_copy.c", T+"ta_sa_svp_buffer_write.c", T+"ta_sa_svp_buffer_check.c", T+"ta_sa_svp_key_check.c", T+"ta_sa_crypto_cipher_process.c", T+"ta_sa_process_common_encryption.c"],
 [("svp_write/svp_copy range checks", T+"porting/svp.c"), ("convert_buffer", I+"buffer.c"), ("rights_allowed_* with output type", I+"rights.c")], ["status", "whole content of the protected buffer by digest", "client memory"]))
L.append(P("P10", "Common-encryption samples decrypt exactly as the pattern prescribes",
 "Processing a sample returns the sample with exactly the bytes that its subsample map and encryption pattern mark as protected replaced by their decryption in the scheme's mode with the sample's initialisation vector, and every other byte unchanged, for every subsample layout, skip and crypt counts, data alignment, clear or protected buffers, and counter value including carry and wrap-around of the counter. The buffer positions advance by exactly the sample sizes. A set of samples that is inconsistent or does not fit its buffers is refused before any byte is decrypted.",
 ["inputs", "histories"],
 "every subsample map, pattern, number of samples, initialisation vector, alignment and destination kind",
 "Tests use a fixed list of subsample sizes and patterns and random vectors, so partial blocks that straddle subsamples, counter wrap-around inside a subsample and failing later samples are not reached.",
 [I+"cenc.c", T+"ta_sa_process_common_encryption.c", C+"sa_process_common_encryption.c", I+"buffer.c"],
 [("cenc_process_sample", I+"cenc.c")], ["output bytes, offsets, status"]))
L.append(P("P11", "Key containers are accepted only when authentic and well formed",
 "Importing a key from a signed or device-specific key container succeeds only if every authenticated field is exactly as issued and every field is well formed; the resulting key then has exactly the value, type, size and rights the container states. Any altered, missing, mistyped, oversized, truncated or otherwise malformed container, and any container under a wrong key, is refused with an error, creates no key and does not disturb the device: no crash, no hang, no access outside its buffers.",
 ["inputs"],
 "every container: all versions, key types, algorithms and rights; every single- and multi-field mutation of a valid one; arbitrary bytes",
 "Tests import well-formed containers and a fixed list of bad values; mutation of each field in every context, length extremes and unauthenticated parser paths are not explored.",
 [I+"typej.c", I+"soc_key_container.c", I+"json.c", I+"unwrap.c", T+"ta_sa_key_import.c", C+"sa_key_import.c"],
 [("signature check before use", I+"typej.c"), ("AAD + GCM tag", I+"soc_key_container.c")], ["status, header and digest of the imported key, memory safety"]))
L.append(P("P12", "Derived, agreed, unwrapped and generated keys have the standard value",
 "The value of a key produced by derivation, key agreement or unwrapping equals the result of the published algorithm on the parent's value and the given parameters, for every digest, size and parameter; keys of the device ladders depend on exactly the given inputs and the device root. Parameters outside the algorithm's range, or a parent of the wrong kind, are refused and create nothing; in particular a wrong padding or tag or length of a wrapped key never yields a key. Freshly generated keys have the requested type and size and a new value each time.",
 ["inputs", "histories"],
 "every algorithm, digest, parent size, requested size and optional parameter, and every wrapped input, valid or not",
 "Tests check a few sizes per algorithm; limits of the length parameters, block boundaries of the expansion step and malformed wrapped keys are sampled sparsely.",
 [I+"kdf.c", I+"dh.c", I+"ec.c", I+"netflix.c", I+"unwrap.c", I+"rsa.c", I+"pad.c", T+"porting/otp.c", T+"ta_sa_key_derive.c", T+"ta_sa_key_exchange.c", T+"ta_sa_key_unwrap.c", T+"ta_sa_key_generate.c"],
 [("kdf_*", I+"kdf.c"), ("unwrap_*", I+"unwrap.c")], ["digest, header and use of the created key, status"]))
L.append(P("P13", "Concurrent calls act as if made one after the other, and always finish",
 "However calls of several threads on the same or different sessions and objects interleave, their results and the final state are those of some order of the same calls made one at a time that respects real time. Every call finishes: no interleaving deadlocks, livelocks or blocks forever. No object is used after it was released or destroyed, and none is leaked.",
 ["schedules", "histories"],
 "every interleaving of concurrent calls, including use during release, two releases, session close and copying between two protected buffers in opposite directions",
 "The threaded tests run independent work whose interleaving is up to the operating system; use-versus-release and opposite-order locking windows are practically never hit.",
 [I+"object_store.c", I+"client_store.c", I+"key_store.c", I+"cipher_store.c", I+"mac_store.c", I+"svp_store.c", T+"ta_sa_svp_buffer_copy.c", T+"ta_sa_crypto_cipher_process.c", C+"internal/client.c"],
 [("store mutex and reference counts", I+"object_store.c"), ("per-object mutex", I+"cipher_store.c")], ["history of calls and results", "progress", "memory safety"],
 [("reference counts", "uses in progress", I+"object_store.c")]))
L.append(P("P14", "The secure side trusts nothing it is sent",
 "A command sent to the secure application is carried out only if its command number, parameter kinds, parameter sizes and session are well formed; anything else is refused with an error and has no effect, and no command content makes the secure side crash, hang, or read or write outside the buffers it was given. A well-formed command has the same effect and result as the corresponding client call, and the client library passes every argument and result through unchanged and frees everything it allocated.",
 ["inputs", "histories"],
 "every command number with every combination of parameter kinds, sizes and contents, from every state, and every public call with every argument combination",
 "Tests go through the client library only, which always builds well-formed commands; malformed commands are never sent.",
 [I+"ta.c", R+"taimpl/include/ta.h", C+"porting/ta_client.c", C+"internal/client.c", C+"sa_key_import.c", C+"sa_crypto_cipher_process.c"],
 [("CHECK_NOT_TA_PARAM_* and command dispatch", I+"ta.c")], ["status, outputs, memory safety"]))
L.append(P("P15", "Through the OpenSSL provider, results are those of OpenSSL itself",
 "A cipher, digest, MAC, signature, key derivation, key agreement or asymmetric decryption done through the library's OpenSSL provider with keys held in the secure application gives the same result as OpenSSL's own implementation with the same key, for every division of the data into updates, padding setting, parameter order, context copy and reuse. Provider errors are reported as errors, and provider objects free everything they hold.",
 ["inputs", "histories"],
 "every order of init, update, final, parameter and duplicate calls on provider objects and all supported algorithms",
 "Provider tests make one fixed call sequence per algorithm; chunking around block boundaries, padding switches and context reuse are not covered.",
 [R+"client/src/sa_provider_cipher.c", R+"client/src/sa_provider_digest.c", R+"client/src/sa_provider_mac.c", R+"client/src/sa_provider_signature.c", R+"client/src/sa_provider_kdf.c", R+"client/src/sa_provider_keyexch.c", R+"client/src/sa_provider_asym_cipher.c", R+"client/src/sa_provider_keymgt.c"],
 [("provider dispatch tables", R+"client/src/sa_provider.c")], ["EVP results and status"]))
L.append(P("P16", "Asking for an output size, then asking for the output, always works",
 "For every call that returns variable-length output, a request without an output buffer has no effect and, whenever the real request would be acceptable, succeeds and reports a length; a buffer of at least that length then suffices, the call reports exactly the length it produced, and writes nothing beyond it. A buffer smaller than what would be produced is refused, no byte of it is written, and the operation can be repeated with a larger one with the same result. The reported length is never smaller than what is produced.",
 ["inputs", "histories"],
 "every call with variable-length output, every buffer size from zero to more than needed, and repeated size requests at any point in a history",
 "Tests ask for the size and then provide exactly that; off-by-one buffers and state effects of size requests in the middle of a stream are not explored.",
 [T+"ta_sa_crypto_cipher_process.c", T+"ta_sa_crypto_cipher_process_last.c", T+"ta_sa_crypto_sign.c", T+"ta_sa_crypto_mac_compute.c", T+"ta_sa_key_export.c", T+"ta_sa_key_digest.c", T+"ta_sa_key_get_public.c", T+"ta_sa_get_name.c"],
 [("length negotiation in each call", T)], ["reported length, guard bytes around the buffer, repeated results"]))
L.append(P("P17", "What is reported about a key is true of that key",
 "The reported header of a key states exactly its type, size, parameters and rights, its reported digest is the digest of its value under the named algorithm, and its reported public part corresponds to its private part, for keys of every origin (imported, generated, derived, agreed, unwrapped, re-imported). Reporting needs no usage permission and changes nothing. Requests that make no sense for the kind of key are refused.",
 ["inputs", "histories"],
 "keys of every type, size, curve and origin, and every reporting call at any time",
 "Tests check headers for some imports; digest and public part of keys that went through several operations are not compared.",
 [I+"stored_key.c", I+"digest.c", T+"ta_sa_key_header.c", T+"ta_sa_key_digest.c", T+"ta_sa_key_get_public.c", I+"rsa.c", I+"ec.c", I+"dh.c"],
 [("stored_key header", I+"stored_key.c")], ["header fields, digest, public key"]))
L.append(P("P18", "A signature or asymmetric decryption that succeeds is correct",
 "When signing reports success the output is a valid signature of exactly the given message, digest choice and parameters under the key's public part, and asymmetric decryption that reports success returns exactly what was encrypted to the key. Inputs of the wrong size, wrong padding, wrong key kind or unsupported parameters are refused, never answered with success and unwritten or wrong output. Deterministic schemes always give the same result for the same input.",
 ["inputs"],
 "every key size and curve, digest and mask digest, salt length, precomputed or not, message size, label, and ciphertext valid or not",
 "Tests verify a few parameter combinations; limits of salt and digest sizes against small keys and malformed ciphertexts are not explored.",
 [I+"rsa.c", I+"ec.c", T+"ta_sa_crypto_sign.c", T+"ta_sa_crypto_cipher_process.c", T+"ta_sa_crypto_cipher_process_last.c"],
 [("rsa_sign_*, ec_sign_*", I+"rsa.c")], ["signature verified by independent OpenSSL, plaintext, status"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in L: f.write(json.dumps(p) + "\n")
