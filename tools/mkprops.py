#!/usr/bin/env python3
# Source of properties.jsonl (run from /verif: python3 tools/mkprops.py > properties.jsonl)
import json, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})
CL="src/client.rs"; A="src/messages/authenticate.rs"; C="src/messages/challenge.rs"; N="src/messages/negotiate.rs"
F="src/messages/field.rs"; U="src/messages/unicode_string.rs"; AV="src/messages/structures/avid.rs"
FT="src/messages/structures/filetime.rs"; FL="src/messages/flags.rs"; ST="src/messages/structures.rs"
CR=["src/crypto.rs","src/crypto/des.rs","src/crypto/lm.rs","src/crypto/nt.rs","src/crypto/ntlmv1.rs","src/crypto/ntlmv2.rs"]
WIRE="cfg(http_ntlm_sim): encode/decode of the crate-private wire trait"
p("C01","Clean exchanges authenticate under every interleaving",
 "For every authentication level 0 to 5, every account and password text that fits the protocol's length fields (not both empty, which means anonymous; non-ASCII included, account given as user, DOMAIN\\user or user@domain), and every challenge a conformant Unicode server sends, the authenticate message a client emits is accepted by an independent MS-NLMP verifier as proof of that password for exactly that account and that server challenge, by its NT response and by its LM response alike (the LM response constructors used on their own agree with it), and echoes the server's target information; with a wrong password it is not accepted. This holds for each of any number of sessions whose steps interleave in one process in any order. Constructing a client never fails for any such text.",
 ["inputs","schedules","configurations"],"all credentials, levels, challenge contents and layouts; all interleavings of several sessions' steps, with message delays and reordering across connections",
 "The tests use the MS-NLMP sample account and two or three flag sets, never run level 3-5 through the client, and never verify a complete AUTHENTICATE independently.",
 [CL,A,C]+CR,[("compute_response (v1, v1 with extended session security, v2)","src/crypto/ntlmv1.rs, src/crypto/ntlmv2.rs"),("one-way functions","src/crypto/lm.rs, src/crypto/nt.rs"),("response assembly","src/client.rs send_authenticate*")],
 [("Client.nt_hash/lm_hash/ntlmv2_hash","password-derived response keys","src/client.rs")],["bytes returned by the client","reference server verdict"],WIRE)
p("C02","Both ends derive the same session key",
 "After every exchange, the session key the client exports equals the one an independent server derives from the authenticate message it receives, using the flags carried in that message, for every level and every combination of negotiated flags a conformant server selects (key exchange, sign, seal, extended session security, LM key, non-NT session key). When key exchange applies, the key is carried encrypted and decrypts to the client's key; when it does not apply, the message does not claim it.",
 ["inputs","schedules","configurations"],"all levels x negotiated flag combinations x accounts x interleavings",
 "The unit tests check the key functions on three fixed flag sets with fixed keys, not the flags and keys the client actually puts on the wire.",
 [CL,"src/crypto.rs",A],[("kxkey, encrypt_random_session_key","src/crypto.rs"),("flag/key coupling","src/messages/authenticate.rs set_encrypted_random_session_key")],
 [("exported_session_key","client-side session key","src/messages/authenticate.rs")],["exported key through the hook; encrypted key on the wire"],"cfg(http_ntlm_sim): read the last Authenticate kept by the client")
p("C03","The integrity code covers the three messages as exchanged",
 "At levels 3 to 5 the integrity code inside the emitted authenticate message equals HMAC-MD5, keyed by the session key, over the negotiate message as sent, the challenge as received and the authenticate message exactly as emitted with that code zeroed, at the position MS-NLMP assigns to it. Computed again on a message that already carries a code, it covers the content of that moment in the same way. So a server that keeps its own copies detects any change made in transit to any of the three messages.",
 ["inputs","schedules","fault_sequences"],"all levels 3-5 exchanges; all in-flight modifications of any of the three messages; any earlier handshakes on the same client",
 "No test computes or checks the integrity code at all.",
 [CL,A],[("compute_mic","src/messages/authenticate.rs"),("final assembly order","src/client.rs send_authenticate")],
 [("Authenticate.mic","integrity code","src/messages/authenticate.rs")],["bytes on the simulated wire"],WIRE)
p("C04","Every response uses fresh operating-system entropy",
 "Each authenticate message uses a new client nonce and, where a session key is transported, a new random key; every byte of both comes from the operating system's random source, none repeats across messages, sessions or threads, and none is a function of time, account or server input. If the random source is interrupted or returns short reads the values are still complete; if it fails, no authenticate message is emitted. The same holds of every random value the message types generate on request (a server's challenge, pads, keys).",
 ["schedules","histories","fault_sequences"],"all histories of repeated calls on one or several clients; all faults of the random source (EINTR, short reads, hard errors)",
 "Freshness and behaviour under random-source failure are not expressible as sample outputs; no test touches them.",
 [ST,CL,"src/crypto.rs"],[("random()","src/messages/structures.rs"),("ExportedSessionKey::random","src/crypto.rs")],[],["nonce and key fields on the wire across a run"],None)
p("C05","A response answers the first challenge of the current handshake",
 "For every order of starting handshakes, receiving challenges (duplicated, delayed from an earlier handshake or connection, unsolicited) and asking for authenticate messages, each authenticate message answers the first challenge received since the most recent negotiate message; later challenges in that handshake change nothing, and asking again yields another valid answer to the same challenge. Before a challenge has been received in the current handshake no authenticate message is ever produced, and a refused call leaves the client able to continue.",
 ["histories","schedules","fault_sequences"],"all sequences of API calls and message deliveries, with duplication, reordering and cross-connection delivery",
 "Tests run one in-order exchange; out-of-order, duplicate and repeated deliveries are a space of histories.",
 [CL],[("ClientState transitions","src/client.rs send_negociate, recv_challenge, set_authenticated_state")],[("Client.state","handshake state","src/client.rs")],["which challenge the emitted proof verifies against"],WIRE)
p("C06","Hostile or damaged bytes never crash a peer",
 "Decoding any byte string as any of the three messages or their parts returns a value or an error: it never panics, never loops, and never uses memory out of proportion to the input. Whatever challenge is accepted, handing it to a client in any state and asking for the response does not crash the client.",
 ["inputs","fault_sequences","histories"],"all byte strings, in particular valid messages with bits flipped, cut, spliced, re-ordered and with lengths and offsets rewritten",
 "The tests decode five well-formed messages.",
 [F,A,C,N,AV,U]+["src/messages/structures/nt_challenge.rs"],[("bounds of payload fields","src/messages/field.rs get_data_if/get_many_if"),("nested decoders","src/messages/structures/avid.rs")],[],["return value, panic, allocation accounting"],WIRE)
p("C07","Messages survive transit losslessly and torn ones are never misread",
 "Every well-formed negotiate, challenge and authenticate message (and signature block), however its payload is laid out by a conformant sender, decodes to exactly the content sent, including all names (Unicode in challenges and authenticate messages; without null characters) and target information; and encoding then decoding any well-formed message gives back equal content. A message that arrives cut short at any byte is rejected or read as exactly the same content, never as a different one.",
 ["inputs","crash_points","fault_sequences"],"all well-formed messages and payload layouts (names without U+0000) x every cut point",
 "Round trips are tested for one Negotiate and one Challenge value; no cut, no foreign layout, no non-BMP name.",
 [A,C,N,F,U,AV,"src/messages/structures/nt_challenge.rs","src/messages/structures/version.rs","src/messages/structures/single_host_data.rs","src/messages/structures/signature.rs"],[("Field::append / get_data","src/messages/field.rs"),("string and AV pair codecs","src/messages/unicode_string.rs, src/messages/structures/avid.rs")],[],["decoded values versus sent values"],WIRE)
p("C08","Encoding to a faulty writer is complete or an error",
 "Encoding any message or message part to a writer that accepts partial writes, is interrupted, stalls, fills up or fails at any point either reports success, with exactly the canonical bytes delivered and their exact count returned, or reports the error, with what was delivered being a prefix of the canonical bytes. It never reports success for missing bytes and never panics.",
 ["fault_sequences","crash_points","inputs"],"all messages and parts x all sequences of writer behaviours (short, EINTR, zero, would-block, disk full, broken pipe)",
 "All tests write into a Vec, which never fails or writes short.",
 [A,C,N,F,AV,"src/messages/utils.rs",ST],[("write_all use and size accounting","src/messages/utils.rs, src/messages/structures/*.rs")],[],["bytes accepted by the simulated writer and the returned result"],WIRE)
p("C09","Response timestamps are right under any clock",
 "At levels 3 to 5 the timestamp in the response is exactly the server's when the challenge carries one, and otherwise the client's current clock as a Windows FILETIME (100 ns units since 1601-01-01 UTC, to within one second), whatever the clock's skew, jumps between calls, or position before 1970; no clock setting makes the client crash. Conversion between FILETIME and system time round-trips to within one second over the years 1601 to 9999.",
 ["inputs","fault_sequences","histories"],"all clock readings, jumps and skews during a handshake; challenges with and without timestamp",
 "Tests pass a fixed zero timestamp; no test reads the clock.",
 [FT,"src/crypto/ntlmv2.rs",CL],[("FileTime conversions","src/messages/structures/filetime.rs"),("timestamp selection","src/client.rs send_authenticate_ntlmv2")],[],["timestamp bytes in the response"],None)
p("C10","Host environment faults never break a client",
 "A client can be built and complete a handshake whatever the state of the host: host name file missing, unreadable, empty, not text, failing or interrupted in mid-read; environment variable absent or not Unicode; standard error closed or failing. The workstation sent is the computer name from the environment verbatim when it is set, else the upper-cased first label (blanks around it dropped) of the first line of the host name file, else absent (a name too long for the protocol's length field counts as absent), as of the construction of the client.",
 ["fault_sequences","configurations"],"all file contents and I/O faults, environment states, stderr faults",
 "Tests run on one healthy host and overwrite the workstation field.",
 [CL],[("get_workstation_name","src/client.rs")],[("Client.workstation","name captured at construction","src/client.rs")],["workstation field on the wire"],None)
p("C11","A client recovers as soon as faults stop",
 "After any history of lost, duplicated, delayed, cut, corrupted or forged messages, server restarts, clock jumps, random-source failures and refused calls, the next complete fault-free exchange on the same client object (one negotiate, one challenge, one authenticate) is accepted by the server, with the same session key at both ends and a correct integrity code at levels 3 to 5. No history leaves a client permanently unable to authenticate.",
 ["histories","fault_sequences","crash_points"],"all fault histories of bounded length, then one clean exchange",
 "No test reuses a client or injects any fault.",
 [CL],[("state reset in send_negociate; buffer reuse","src/client.rs")],[("Client.state, Client.buffer","survive between handshakes","src/client.rs")],["server verdict on the clean exchange"],WIRE)
p("C12","A hostile server cannot downgrade the response",
 "Whatever flags, names and target information a challenge carries, a client at level 3 to 5 emits only NTLMv2/LMv2 responses, and a client at level 1 or above never emits a response computed from the LM password hash; a client below level 3 uses extended session security whenever the challenge selects it.",
 ["inputs","fault_sequences","histories"],"all challenges, including forged, damaged and contradictory ones, at any point of any history",
 "Tests never drive the client with hostile flags.",
 [CL,"src/crypto/ntlmv1.rs"],[("level dispatch","src/client.rs send_authenticate"),("NoLMResponseNTLMv1","src/crypto/ntlmv1.rs compute_response")],[],["LM and NT response fields on the wire"],WIRE)
p("C13","Secrets never appear on the wire",
 "No message a client emits, under any server behaviour, fault or history, contains the password in any encoding, any of the password-derived hashes, the key-exchange or session base key, or the plain session key.",
 ["inputs","histories","fault_sequences"],"all emitted messages of all runs, hostile servers included",
 "A property of all outputs; tests check a few expected outputs only.",
 [CL,"src/crypto.rs",A],[("RC4 wrapping of the session key","src/crypto.rs encrypt_random_session_key")],[],["every emitted byte string"],"cfg(http_ntlm_sim): read the last Authenticate kept by the client")
p("C14","Message builders keep content, terminator and flags consistent",
 "For every sequence of builder calls on a challenge (target name set or cleared, target information added in any order and number, values taken from the environment), a negotiate message (domain and workstation set or cleared) or an authenticate message (session key set or cleared), the encoded message as read by a peer carries exactly the resulting content: target information in the order added, terminated by exactly one end marker, and each presence flag set exactly when its content is present. Setting, clearing or testing one flag of a flag set concerns that flag alone.",
 ["histories","inputs","fault_sequences"],"all sequences of builder calls and environment states (absent, non-Unicode variables)",
 "One test calls five builder methods once each.",
 [C,N,A,"src/messages.rs"],[("add_target_info, generate_setter_getter, set_domain_name, set_workstation, set_encrypted_random_session_key","src/messages/*.rs")],[("negotiate_flags versus content","presence flags","src/messages/*.rs")],["encoded bytes read by an independent decoder"],WIRE)
p("C15","Sessions on concurrent threads do not interfere",
 "Clients used on different threads at the same time, or handed from thread to thread between calls, behave as if each ran alone: under every thread schedule each session's messages verify for its own account, challenge, host and clock, no session blocks another, and no value of one session (name, nonce, key, challenge, buffer content) appears in another's messages.",
 ["schedules"],"all preemptions, at any memory access, basic block, allocation or system call inside library calls, of 2 to 4 concurrent sessions",
 "All tests are single-client; the test runner's threads share nothing by construction.",
 [CL,ST,"src/crypto.rs"],[("no shared mutable state","src/client.rs")],[],["each session's messages against the reference model"],WIRE)
p("C16","Strict builds reject damaged flags and reserved fields",
 "Built with the strict option, a message whose flags have any reserved bit set, name both target types, neither character set, or both extended session security and LM key, or a challenge whose reserved field is not zero, is rejected, while without the option such a message is still read; every well-formed message and every message of a conformant exchange is accepted by strict builds at both ends.",
 ["configurations","fault_sequences","inputs"],"all messages x bit damage in flags and reserved fields x both build options",
 "No test is built with the strict option.",
 [FL,C],[("Flags::validate","src/messages/flags.rs"),("strict reserved check","src/messages/challenge.rs")],[],["accept/reject verdicts of both builds"],WIRE)
p("C17","Every negotiate message offers exactly the policy of its level",
 "Whatever happened before on a client (completed, failed, abandoned or hostile handshakes), each new negotiate message is byte-for-byte the one a fresh client of the same level and account would send: always Unicode, OEM, sign, always-sign, seal, 128-bit and target request; LM key only at level 0; extended session security at levels 1 to 5; NTLMv1 session security at levels 0 and 1 only; key exchange at level 0 and levels 2 to 5; target information at levels 2 to 5; the account's domain exactly when there is one.",
 ["histories","fault_sequences","configurations"],"all histories x levels x accounts",
 "No test inspects a client's negotiate message.",
 [CL,N,FL],[("send_negociate","src/client.rs")],[("Client.buffer","reused output buffer","src/client.rs")],["negotiate bytes on the wire, parsed independently"],None)
p("C18","Diagnostics show what a message carries, or fail visibly",
 "Rendering a flag set for diagnostics names each flag that is set, by its name, and no other. Rendering any decoded message or message part never panics and gives a text that shows its flags and byte fields in full and that differs whenever the contents differ. Rendered into a sink that fails at any point, it reports the failure after delivering a prefix of that text, never success for missing text, and a later rendering is unaffected.",
 ["inputs","fault_sequences"],"all 2^32 flag values, all decodable messages and parts x all points at which the sink fails",
 "No test renders flags or looks at diagnostic text.",
 [FL,ST,A,C],[("Debug for Flags","src/messages/flags.rs"),("Debug of byte buffers","src/messages/structures.rs")],[],["diagnostic text as it arrives at the sink"],None)
p("C19","The Windows platform client completes the platform handshake",
 "On Windows, the platform-credential client returns the platform's negotiate token and, for the server's challenge, the platform's authenticate token, without exposing unwritten buffer memory.",
 ["inputs","fault_sequences"],"all results of the platform calls","The tests need a Windows host.",
 ["src/win.rs"],[("initialize_security_context","src/win.rs")])
p("C20","Library calls leave the host alone and keep secrets out of logs",
 "Whatever the history, faults and log level, a library call does nothing to its process or host beyond reading the clock, the random source, the environment and the host name file and handing records to the application's logger: it prints nothing, opens or writes no other file, makes no connection, starts no thread or process, changes no environment or signal setting, does not sleep, and leaves no descriptor open. No log record or panic message contains the password, a password-derived hash or a key, and switching logging on or off changes no message the library emits or accepts.",
 ["histories","fault_sequences","configurations","inputs"],"all scenarios of the other properties, with the application's logger on or off",
 "Tests capture output and never look at logs, descriptors or system calls; a leftover debug print went unnoticed.",
 [CL,"src/messages/field.rs",FL],[("log statements","src/messages/field.rs, src/messages/flags.rs"),("get_workstation_name","src/client.rs")],[],["every system-call entry point and log record of every run"],None)
p("C21","A long-lived client's cost does not grow",
 "Repeating a handshake on one client any number of times, refused calls, rejected or hostile challenges and random-source failures included, does not increase the memory the client holds or the work one handshake takes. Dropping a client releases all memory and descriptors it acquired, also when host faults met its construction.",
 ["histories","fault_sequences"],"all cycles of operations x number of repetitions x host faults",
 "Tests perform one handshake per client and measure nothing.",
 [CL],[("state replaced per handshake; buffer cleared and reused","src/client.rs")],[("Client.state, Client.buffer","survive between handshakes","src/client.rs")],["memory held by library allocations and basic blocks executed, per cycle"],None)
for x in P: print(json.dumps(x, ensure_ascii=False))
