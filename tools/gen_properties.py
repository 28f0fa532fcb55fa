#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script because the JSON is long)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"),s)) for s in state],
            mechanism=[dict(zip(("name","where"),m)) for m in mech], observe_at=observe, hook_needed=hook)))
M="src/messages/"; S=M+"structures/"; C="src/client.rs"; K="src/crypto"
WIRE="wire access hook (src/verif.rs: encode/encode_into/decode), because the codec trait is crate-private"

p("C01","Decoding untrusted bytes is total and bounded",
 "Decoding any byte string as any NTLM message or nested structure ends with either a value or an error: it never panics, aborts, reads outside the input or loops, in debug and release builds, with and without strict mode. The memory it allocates is bounded by a small multiple of the input length.",
 ["inputs","configurations"],"every byte string up to about 70 kB x {NEGOTIATE, CHALLENGE, AUTHENTICATE, every nested structure} x {debug assertions on/off} x {default, strict}",
 "The tests decode eight well-formed messages; nothing truncated, contradictory or hostile, although every decoded byte comes from the network.",
 [M+"field.rs",M+"challenge.rs",M+"authenticate.rs",M+"negotiate.rs",S+"avid.rs",S+"nt_challenge.rs",M+"unicode_string.rs",S+"filetime.rs"],
 [("range check of payload fields",M+"field.rs get_data"),("whole-value check of AV pairs",S+"avid.rs"),("nom combinators",M+"*")],
 ["return value, panics, signals, heap growth of a decode"],WIRE)
p("C02","A decoded message says exactly what its bytes say",
 "When decoding succeeds, every value is the one MS-NLMP assigns to the bytes: little-endian integers, variable fields taken from exactly the range their header designates wherever it lies in the message, names as the UTF-16LE (NEGOTIATE: OEM) text up to the first NUL or undecodable unit, the target-information pairs complete and in order up to their terminator, LM/NT responses and keys verbatim. A bad signature or type, a truncated header, a non-empty field designated outside the message, a malformed version, AV pair or NT response, or an unterminated target-information list makes the decode fail instead of yielding a partial value; the encrypted session key is taken only when key exchange is flagged, the version only when flagged.",
 ["inputs"],"all byte strings: well-formed messages with permuted, gapped, overlapping or shared payload ranges, and every kind of single or multiple corruption of them",
 "Five decode tests use canonical vectors with the payload in header order, ASCII names and all lengths correct; which bytes a field is read from is never varied.",
 [M+"challenge.rs",M+"authenticate.rs",M+"negotiate.rs",M+"field.rs",M+"unicode_string.rs",S+"avid.rs",S+"nt_challenge.rs",S+"lm_challenge.rs",S+"version.rs",S+"single_host_data.rs",S+"signature.rs"],
 [("field header -> byte range",M+"field.rs get_range/get_data_if/get_many_if"),("signature and type tags",M+"{negotiate,challenge,authenticate}.rs"),("terminator check",M+"challenge.rs"),("LMv1/LMv2 and NTLMv1/NTLMv2 discrimination",M+"authenticate.rs, "+S+"nt_challenge.rs")],
 ["decoded values against an independent reference decoder"],WIRE)
p("C03","Encoding then decoding gives the value back",
 "Every message or structure whose presence flags match its contents and whose names have no NUL, encoded and decoded again, compares equal to the original, with nothing left over; absent and empty names are the same thing. Re-encoding a message that was decoded from any bytes gives a message that decodes to the same value.",
 ["inputs"],"all consistent NEGOTIATE, CHALLENGE, AUTHENTICATE messages and nested structures: any combination of optional fields, any Unicode names up to the 16-bit length limit, any AV pair lists, all integer values",
 "The tests round-trip three fixed messages with short ASCII names.",
 [M+"challenge.rs",M+"authenticate.rs",M+"negotiate.rs",S+"avid.rs",S+"nt_challenge.rs",M+"unicode_string.rs"],
 [("paired serialize/deserialize",M+"*")],["decode(encode(v)) compared with v; decode(encode(decode(b))) with decode(b)"],WIRE)
p("C04","Encoded messages are well-formed NTLM messages",
 "Every message encoded by the library starts with the NTLMSSP signature and its type, and each present field's header gives len = maxlen and an offset such that its bytes lie behind the fixed header (and version/MIC) and inside the message, without overlap or unaccounted bytes, and hold the field's standard encoding; absent fields have length zero. Reserved bytes are zero, integers are little-endian, names are UTF-16LE without terminator (NEGOTIATE: OEM), and the size the encoder reports is the number of bytes it wrote.",
 ["inputs"],"all messages built through the public constructors and setters, sizes up to the 16-bit limits",
 "Only one hard-coded byte vector is compared, and that test fails at the pinned commit; round trips cannot see errors that the decoder mirrors.",
 [M+"field.rs",M+"utils.rs",M+"challenge.rs",M+"authenticate.rs",M+"negotiate.rs",S+"avid.rs",S+"version.rs",S+"single_host_data.rs",S+"signature.rs",S+"nt_challenge.rs"],
 [("payload offsets",M+"field.rs append/append_many"),("PAYLOAD_OFFSET layout",M+"{negotiate,challenge,authenticate}.rs"),("integer writers",M+"utils.rs")],
 ["bytes produced, through an independent auditor that shares no code with the crate"],WIRE)
p("C05","Message builders keep flags and contents in step",
 "After any sequence of the public setters on a message where this holds, such as a new one, the flag announcing an optional field (target name, target information, domain, workstation, encrypted session key) is set exactly when that field is present, and no other flag changed. A target-information list is either empty or holds the added pairs in the order they were added followed by exactly one terminator.",
 ["histories"],"all sequences of setter calls (set, clear, overwrite, add in any order and number) starting from a fresh or a decoded message",
 "The tests build one CHALLENGE with one call chain and never unset or overwrite anything.",
 ["src/messages.rs",M+"challenge.rs",M+"negotiate.rs",M+"authenticate.rs",M+"flags.rs"],
 [("generate_setter_getter","src/messages.rs"),("add_target_info",M+"challenge.rs"),("set_domain_name/set_workstation",M+"negotiate.rs"),("set_encrypted_random_session_key",M+"authenticate.rs")],
 ["public getters and flags after every call, against a model"],None)
p("C06","Flag words behave as 32 independent bits",
 "For every 32-bit flag word and every flag, setting, clearing and testing affects and reports that bit alone, a word is encoded and decoded unchanged, and its debug rendering names each set flag once and no other. Each named flag is the bit MS-NLMP 2.2.2.5 assigns to it.",
 ["inputs"],"all 2^32 words x 32 bits (sampled words, all bits and all bit pairs exhaustively)",
 "Two words are decoded; set and clear are only used in passing.",
 [M+"flags.rs"],[("has_flag/set_flag/clear_flag/Debug",M+"flags.rs"),("flag constants",M+"flags.rs")],["flag word after each operation, Debug text"],WIRE)
p("C07","Strict mode rejects exactly the forbidden flag words",
 "With the strict feature, a message is rejected when its flag word has a reserved bit, announces both target types, announces neither character set, or announces LM key together with extended session security, or when the reserved field of a CHALLENGE is not zero; nothing else changes. Without the feature all of these are accepted.",
 ["inputs","configurations"],"all flag words and reserved values in all three messages, with the feature on and off",
 "The test suite never runs with the feature on, and no test decodes a forbidden word.",
 [M+"flags.rs",M+"challenge.rs"],[("Flags::validate",M+"flags.rs"),("reserved field check",M+"challenge.rs")],["decode verdict per build configuration against the rule"],WIRE)
p("C08","NTLMv1 responses are the ones the server computes",
 "At compatibility levels 0 to 2, for every password, server challenge and negotiated flag word, the LM and NT responses in the AUTHENTICATE message are those of MS-NLMP 3.3.1: with extended session security the NT response answers MD5(server challenge, client challenge) and the LM response carries that client challenge followed by zeros; without it the NT response answers the server challenge and the LM response is the LM-hash response at level 0 and a copy of the NT response at levels 1 and 2.",
 ["inputs"],"all passwords (LM part: ASCII; the first 14 characters, case-insensitive), all 8-byte challenges, all flag words, levels 0-2",
 "One password and one challenge are tested, below the client; how the client selects and combines the parts is only covered by a test that fails at the pinned commit.",
 [C,K+"/ntlmv1.rs",K+"/des.rs",K+"/lm.rs",K+"/nt.rs",K+".rs",S+"lm_challenge.rs"],
 [("ntlmv1::compute_response",K+"/ntlmv1.rs"),("desl, DES key expansion",K+".rs, "+K+"/des.rs"),("lmowfv1, ntowfv1",K+"/lm.rs, "+K+"/nt.rs")],
 ["AUTHENTICATE bytes against an independent implementation of the server's computation"],None)
p("C09","NTLMv2 responses verify at the server",
 "At compatibility levels 3 to 5, for every user, password, domain and challenge, a server that knows only the user's NT hash accepts the response: the NT response is NTProofStr followed by the data it authenticates, which repeats the challenge's target information pair for pair, carries the server's timestamp when the challenge has one and the current time otherwise; the LM response is LMv2 over the same client challenge. The proof depends on the upper-cased user name and on the domain as given.",
 ["inputs"],"all user/domain/password strings, server challenges, target-information lists, with and without timestamp, levels 3-5",
 "The tests check one vector of the inner computation with an all-zero time; no test looks at the response a client sends, which at the pinned commit lacked the proof.",
 [C,K+"/ntlmv2.rs",K+"/nt.rs",S+"nt_challenge.rs",S+"lm_challenge.rs",S+"avid.rs",S+"filetime.rs"],
 [("ntlmv2::compute_response",K+"/ntlmv2.rs"),("ntowfv2",K+"/nt.rs"),("NTLMv2_RESPONSE encoding",S+"nt_challenge.rs"),("timestamp selection",C+" send_authenticate_ntlmv2")],
 ["AUTHENTICATE bytes, verified by a reference server"],None)
p("C10","Client and server agree on the session key",
 "For every level and negotiated flag word, the session key the client ends up with is the one a server derives from the AUTHENTICATE message and the password hash per MS-NLMP 3.4.5: key exchange key by the negotiated derivation, then the transmitted random key decrypted with it when key exchange and signing or sealing are negotiated. Otherwise the session key is the key exchange key itself and no encrypted key is sent or announced.",
 ["inputs"],"all combinations of the flags that select a derivation (extended session security, LM key, non-NT key, key exchange, sign, seal) x levels 0-5 x passwords and challenges",
 "The derivations are tested separately on one vector each; that the client picks the right one for the negotiated flags is not tested.",
 [C,K+".rs",K+"/ntlmv1.rs",K+"/ntlmv2.rs"],
 [("kxkey, encrypt_random_session_key",K+".rs"),("selection by flags",C)],
 ["encrypted session key in the AUTHENTICATE bytes and the key remembered by the client"],"client state accessor (src/client/verif.rs) for the session key",
 [("exported_session_key","session key of the last AUTHENTICATE message","src/messages/authenticate.rs")])
p("C11","The integrity code covers the messages actually exchanged",
 "At levels 3 to 5 the MIC in the AUTHENTICATE message equals HMAC-MD5 under the session key over the NEGOTIATE message the client sent, the CHALLENGE message it accepted (as this library encodes it) and the AUTHENTICATE message it sends with the MIC zeroed, byte for byte. At levels 0 to 2 the MIC is zero.",
 ["inputs","histories"],"all handshakes: credentials, flag words, target information, workstation and version present or absent, repeated and restarted handshakes",
 "No test computes a MIC; at the pinned commit it was computed before the message was complete.",
 [C,M+"authenticate.rs",M+"negotiate.rs",M+"challenge.rs"],
 [("compute_mic",M+"authenticate.rs"),("MIC as the last modification",C+" send_authenticate")],["the three messages on the wire"],None)
p("C12","Challenges and session keys are fresh and unpredictable",
 "Every client challenge, random session key and random server challenge is drawn anew from the operating system's generator: no value repeats across handshakes, clients, threads, forked or separately started processes, and every bit of every value takes both values about equally often, independently of credentials and challenges.",
 ["histories","schedules"],"all sequences of handshakes in one or many clients, threads and processes started at the same time, repeated sends of the same AUTHENTICATE included",
 "Tests replace the random values by constants or do not look at them; a repeated or biased value needs many samples and several processes to show.",
 [M+"structures.rs",C,K+".rs"],[("OsRng in random()",M+"structures.rs"),("drawing per AUTHENTICATE message",C+" send_authenticate, "+K+".rs encrypt_random_session_key")],
 ["client challenge in the responses, session key from the client state, across processes"],"client state accessor for the session key")
p("C13","Secrets stay inside and the library stays quiet",
 "No message, log record or output produced during a handshake contains the password (in any encoding), its LM, NT or NTLMv2 hash, the session base key, the key exchange key or the session key, raw or as hexadecimal text; a message only carries one-way responses and the encrypted session key. The library itself writes nothing to standard output or standard error.",
 ["inputs","histories"],"all credentials, levels, flag words and call sequences, logging at every level",
 "No test looks at what else is written; whether a key leaks depends on the negotiated flags.",
 [C,K+".rs",M+"authenticate.rs",M+"field.rs",M+"flags.rs"],[("responses instead of hashes",K+"/*"),("RC4 encryption of the session key",K+".rs"),("log::warn! of lengths and names only",M+"field.rs")],
 ["wire bytes, captured log records, captured file descriptors 1 and 2"],"client state accessor for the session key")
p("C14","Client operations succeed for all credentials and challenges",
 "For every user name, domain and password (any Unicode text, empty included, up to the protocol's 16-bit length fields) and every CHALLENGE the library can decode, or build from names without NUL, creating a client and carrying out the handshake at any level from 0 to 5 completes without panic and yields decodable messages.",
 ["inputs"],"all Unicode credentials up to 32767 UTF-16 units, all decodable challenges; debug and release builds",
 "The tests use User/Password/Domain; at the pinned commit a password such as 'aaaaaa\u00e9' panicked.",
 [C,K+"/lm.rs",K+"/nt.rs",M+"field.rs",M+"unicode_string.rs"],[("byte-wise LM password preparation",K+"/lm.rs"),("length conversion",M+"field.rs append")],["panics and returned messages"],None)
p("C15","Messages carry the identity that was given",
 "A client created from DOMAIN\\user, user@domain or a bare user name authenticates as exactly that user and domain (first separator decides, backslash before at sign), unchanged in case and content: the AUTHENTICATE message holds user, domain and workstation as UTF-16, the NEGOTIATE message holds the domain when it is not empty. Both ways of creating a client from the same parts yield the same messages and proofs.",
 ["inputs"],"all user-name strings with any number and position of separators, any Unicode",
 "The tests only use the constructor that takes the parts already separated.",
 [C,M+"negotiate.rs",M+"authenticate.rs",M+"unicode_string.rs"],[("Client::new",C),("set_domain_name",M+"negotiate.rs")],["NEGOTIATE and AUTHENTICATE bytes through an independent parser"],None)
p("C16","The handshake only advances in order",
 "A client yields an AUTHENTICATE message only after it sent NEGOTIATE and then received a CHALLENGE, and it answers the first CHALLENGE received since the last NEGOTIATE: challenges arriving before NEGOTIATE, or after one was accepted, are ignored. Sending NEGOTIATE again restarts the handshake from any state; a refused call changes nothing.",
 ["histories"],"all sequences of send-negotiate / receive-challenge / send-authenticate calls with distinct challenges, refused calls included",
 "The tests follow the one correct order once.",
 [C],[("ClientState transitions",C+" recv_challenge, get_challenge, set_authenticated_state")],["which challenge each AUTHENTICATE message answers, refusals"],None,
 [("state","position in the handshake","src/client.rs")])
p("C17","Handshakes do not influence one another",
 "The messages of a handshake depend only on that client's credentials, its level, the challenge it answers and fresh random values: not on earlier handshakes of the same client (longer names, other challenges, refused calls), nor on other clients, in the same thread or running concurrently in others. Concurrent use of distinct clients is free of data races.",
 ["histories","schedules"],"all interleavings of handshakes of several clients in several threads and all histories of one client",
 "The tests run one handshake per client, in isolation.",
 [C,K+"/*",M+"*"],[("no shared state; buffer cleared before each message",C)],["messages of every handshake verified by the reference server; race detectors"],None,
 [("buffer","output buffer reused by both messages","src/client.rs")])
p("C18","The NEGOTIATE offer is fixed by the level",
 "Every NEGOTIATE message offers Unicode and OEM, signing (also always-sign), sealing, 128-bit keys, a target request and target type server; in addition level 0 offers NTLM, LM key and key exchange, level 1 NTLM and extended session security, levels 2 to 5 extended session security, key exchange and target information; a domain flag exactly when a domain is carried, a version flag exactly when a version is carried, and nothing else. LM key and extended session security are never offered together, and a level above 5 yields no message.",
 ["inputs","configurations","histories"],"levels 0-5 and beyond, all domains, version set or not, first and later NEGOTIATE messages of a client",
 "The flags the client offers are not asserted by any test.",
 [C,M+"negotiate.rs"],[("send_negociate",C)],["NEGOTIATE bytes"],"client hook to set a version")
p("C19","A client never answers below its level",
 "Whatever flags and target information the server's CHALLENGE contains, a client at level 3 or above never sends an LM, NTLMv1 or extended-session-security response, and a client at level 1 or above never sends a response computed from the LM hash.",
 ["inputs"],"all challenges (hostile flag words in particular) x levels 1-5 x passwords",
 "No test sends a challenge that asks for less than the client's level.",
 [C,K+"/ntlmv1.rs"],[("dispatch on the level",C+" send_authenticate"),("lm_response_ntlm_v1",K+"/ntlmv1.rs")],["AUTHENTICATE bytes against all weaker responses computed from the password"],None)
p("C20","Timestamps are FILETIMEs",
 "Converting a system time to a FILETIME counts 100-nanosecond intervals since January 1, 1601 UTC, whole intervals kept, and converting back gives the same instant to that precision; every 64-bit FILETIME round-trips exactly, and order is preserved. The current time is the system clock's, and times outside the FILETIME range are an error, not a wrong value.",
 ["inputs"],"all 64-bit FILETIMEs and all system times, before 1970 included",
 "No test converts a time; at the pinned commit the unit and the epoch were wrong.",
 [S+"filetime.rs"],[("TryFrom<SystemTime>, to_system_time, as_u64, now",S+"filetime.rs")],["conversions against 128-bit integer arithmetic"],None)
p("C21","No undefined behaviour or memory error",
 "No input makes the library execute undefined behaviour or access memory outside of live objects: hashing of any (also empty) password and name, encoding of any name, decoding of any bytes, on any allowed call sequence, from any number of threads.",
 ["inputs","schedules"],"all inputs to the public API and the codecs; executions sampled under Miri (undefined behaviour, alignment, provenance, data races) and AddressSanitizer",
 "The tests run without a checker, so an access outside of an object goes unnoticed unless it crashes.",
 [K+"/nt.rs",S+"avid.rs"],[("from_raw_parts over UTF-16 buffers",K+"/nt.rs, "+S+"avid.rs encode_string")],["Miri and AddressSanitizer reports"],WIRE)
p("C22","Environment-derived names are taken over faithfully",
 "The workstation sent is COMPUTERNAME when that is set to Unicode text, else the first line of /etc/hostname up to its first dot, trimmed and upper-cased, else absent; an unreadable, missing, empty or non-text file or variable never makes creating a client fail. A CHALLENGE filled from the environment contains, for each of the four variables that is set to text, the corresponding pair (NetBIOS names upper-cased, DNS names unchanged) and nothing for the others.",
 ["configurations","fault_sequences"],"all contents of the four environment variables and of /etc/hostname, including invalid UTF-8, empty, missing and unreadable",
 "Tests run in one environment, with the variables unset and a normal hostname file.",
 [C,M+"challenge.rs"],[("get_workstation_name",C),("fill_from_env",M+"challenge.rs")],["workstation field of the AUTHENTICATE message, target information of the CHALLENGE"],WIRE)
p("C23","Encoding to any sink is all or error",
 "Encoding to a writer that accepts only part of each write, or is interrupted, delivers the same bytes as encoding to memory and reports their number; when the writer fails the encoder returns that error, having written only a prefix of the right bytes, and never panics or reports success.",
 ["fault_sequences","inputs"],"all sequences of short writes, interruptions, zero-length writes and errors at every byte position, for every message and structure",
 "The tests only encode to vectors, which never fail or write short.",
 [M+"utils.rs",S+"avid.rs",M+"challenge.rs",M+"authenticate.rs",M+"negotiate.rs",M+"structures.rs"],[("write_all everywhere",M+"*"),("error propagation with ?",M+"*")],
 ["byte stream received by a fault-injecting writer, returned count or error"],WIRE)
p("C24","AUTHENTICATE flags describe the message and the agreement",
 "The flag word of every AUTHENTICATE message is the one of the answered CHALLENGE, except that Unicode, target request and target information are set, OEM and target type server are cleared, key exchange is set exactly when an encrypted session key is carried and version exactly when a version is carried.",
 ["inputs"],"all challenge flag words x levels 0-5 x version set or not",
 "The flags of a sent message are only compared in a test that fails at the pinned commit.",
 [C,M+"authenticate.rs"],[("flag adjustments",C+" send_authenticate"),("set_encrypted_random_session_key",M+"authenticate.rs")],["AUTHENTICATE bytes"],"client hook to set a version")
p("C25","The Windows client passes tokens through and reports failures",
 "Against any sequence of SSPI results, the Windows client hands SSPI the peer's token unchanged, returns exactly the token bytes SSPI produced, completes the token when asked to, and turns every SSPI failure into an error without exposing bytes SSPI did not write. Each credential and context handle acquired is used only while valid and released exactly once.",
 ["fault_sequences","histories"],"all sequences of SSPI return codes and token sizes for acquire/initialize/complete, and all call histories of the client",
 "The file is not compiled on this platform and its tests need Windows; failures of SSPI are not tested at all.",
 ["src/win.rs"],[("initialize_security_context","src/win.rs")],["calls received by a stand-in SSPI, buffers returned"],None)
p("C26","A server built on this library verifies its clients",
 "A server that decodes the client's messages with this library gets from them what it needs to verify the client: user, domain and workstation (up to a NUL, absent when empty), the responses and the encrypted key. For every handshake the proof verifies over the decoded NTLMv2 response encoded again; Lmv2Challenge::from_server_challenge and Lmv1Challenge::from_client_challenge give the LM response that was sent, and for whatever challenges and key HMAC-MD5 over both challenges followed by the client's, and the client's challenge followed by 16 zeros; where all names are non-empty and free of NUL the decoded messages encode to the bytes received and recomputing the MIC on the decoded AUTHENTICATE message gives the MIC received. Authenticate::compute_mic is HMAC-MD5 under the session key over the three messages as encoded with the MIC zeroed, whatever MIC the message held before; it changes nothing else, and nothing at all without a session key.",
 ["inputs","histories"],"all handshakes (levels 0-5, credentials, challenges) read back by the library, and compute_mic on all triples of messages",
 "No test reads a message of the client back, recomputes a MIC or calls these constructors.",
 [M+"authenticate.rs",S+"lm_challenge.rs",S+"nt_challenge.rs",M+"negotiate.rs",M+"challenge.rs",M+"field.rs"],
 [("compute_mic",M+"authenticate.rs"),("from_server_challenge, from_client_challenge",S+"lm_challenge.rs"),("decoding of NTLMv2_RESPONSE",S+"nt_challenge.rs")],
 ["decoded messages, recomputed proof, LM response and MIC"],WIRE+"; client state accessor for the session key")
p("C27","Nothing is cut off to make it fit",
 "A name, AV pair, target-information list or response that is too large for the 16-bit length in front of it is refused (by an error or a panic): no encoder and no client ever returns a message that holds less of it, or other content, because of its size. Whatever is returned decodes to exactly the value that was encoded, and everything that just fits is encoded in full.",
 ["inputs"],"all messages, nested structures and client identities with names, lists and responses of any size, in particular around multiples of 2^16 bytes, of characters of any length",
 "No test encodes anything longer than a few dozen bytes; lengths that wrap look like valid messages to their sender.",
 [M+"field.rs",S+"avid.rs",M+"unicode_string.rs",C,M+"authenticate.rs"],
 [("length conversion",M+"field.rs append"),("length conversion of AV pairs",S+"avid.rs encode_string")],
 ["return value, panics and bytes of encoders and client calls"],WIRE)
p("C28","Encoding and decoding depend on nothing but their argument",
 "The same bytes always decode to equal values (or fail) and the same value always encodes to the same bytes, wherever the bytes lie in memory and whatever was encoded, decoded, refused or logged before, whatever the environment and log level are, and in any number of threads at the same time. Encoding leaves the value unchanged, a clone equals and encodes as its original, and changing one does not change the other.",
 ["inputs","histories","schedules"],"all values and byte strings x all histories of unrelated calls x all interleavings of threads sharing the value",
 "Each test encodes or decodes one thing once in a fresh process.",
 [M+"field.rs",M+"unicode_string.rs",M+"challenge.rs",M+"authenticate.rs",M+"negotiate.rs",S+"nt_challenge.rs"],
 [("Wire::serialize/deserialize",M+"*"),("derived Clone, PartialEq",M+"*")],
 ["bytes, values and Debug texts of repeated calls"],WIRE)
p("C30","Values are what they were made from",
 "Every byte-array type holds exactly the bytes it was made from, gives them back through slices and its encoding, takes changes of single bytes, shows two hexadecimal digits per byte in Debug output and is all zeros by default; texts give back, display and compare as the string they were made from; keys, versions, times and responses keep their contents through conversions (a Version made from three numbers has revision 15, the default responses are version 2). Two values of any message or structure type are equal exactly if all their contents are; cloning preserves contents.",
 ["inputs"],"all byte contents, texts, numbers and messages; all pairs of values that differ in one bit, one field, or not at all",
 "The conversions and comparisons are only used in passing, with one value each.",
 [S[:-1]+".rs",M+"unicode_string.rs",S+"version.rs",S+"filetime.rs",S+"lm_challenge.rs",S+"nt_challenge.rs"],
 [("buffer_aliases!",S[:-1]+".rs"),("impl_string!",M+"unicode_string.rs"),("derived PartialEq",M+"*")],
 ["contents, equality, texts and encodings of values"],WIRE)
p("C31","Nothing is left behind",
 "Once a decode, an encode or a client's life is over, successful or refused, and its values are dropped, all memory it allocated is free again and no file or thread remains; doing the same again, or many different things, does not make the process larger, and a client does not grow with the number of its handshakes.",
 ["histories","inputs"],"all sequences of decodes, encodes and client calls, including the ones that fail or panic",
 "No test looks at memory, and a leak per request shows only after days.",
 [C,M+"challenge.rs",M+"authenticate.rs",M+"field.rs",K+"/ntlmv2.rs"],
 [("client buffers",C),("workstation name",C)],
 ["bytes allocated, /proc/self/fd and /proc/self/task before and after"],WIRE)
if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
