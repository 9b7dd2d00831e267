#!/usr/bin/env python3
# Source of MANIFEST.json (run from /verif: python3 tools/mkmanifest.py > MANIFEST.json)
import json
TECH = "deterministic simulation with fault injection (seeded search)"
NOTES = {
"C01": "Several simulated clients and servers exchange messages over a simulated network with delays and interleavings; every authenticate message is judged by an independent MS-NLMP server that also tries wrong passwords. Assurance is that of sampling: a clean batch is evidence over the seeds run.",
"C02": "As C01, over every flag combination a conformant server selects; the key exported by the client is compared with the one the reference server derives from the wire.",
"C03": "The integrity code is recomputed over the bytes the network carried, with in-transit modification of any message. One known finding (codes over a re-encoded challenge) is told apart by its exact signature.",
"C04": "The operating system's random source is simulated (short reads, EINTR, hard errors); every nonce and key byte must come from it, each byte used once.",
"C05": "Histories of starting handshakes, duplicated, delayed, crossed and unsolicited challenges and repeated requests, against a four-state reference model; some runs are one client in service for up to 66,000 handshakes.",
"C06": "Bit flips, cuts, splices and rewritten lengths and offsets of valid messages, decoded under panic, memory and CPU accounting, in debug and release builds; accepted challenges are handed to clients of all levels. Work is bounded per call by counting basic blocks (compiler probes).",
"C07": "Messages laid out by a reference encoder are carried by a simulated network that cuts them at any byte, and compared after decoding; encode-decode round trips.",
"C08": "A simulated writer with short, interrupted, zero, would-block, full and broken behaviour at drawn points; result, count and delivered bytes compared with the canonical encoding.",
"C09": "The clock is simulated (skew, jumps, before 1970, extreme dates); response timestamps and conversions compared with the reference arithmetic.",
"C10": "Host name file, environment and standard error are simulated with their faults; the workstation sent is compared with the reference rule.",
"C11": "Random fault histories followed by one clean exchange on the same client, judged by the reference server. Progress is bounded: one exchange.",
"C12": "Forged, contradictory and damaged challenges at any point of a history; the reference looks for any response weaker than the level allows.",
"C13": "Every emitted byte string of faulty and hostile runs is searched for all secrets of the run (8-byte windows of keys and hashes, password in UTF-8/UTF-16/OEM and cases).",
"C14": "Sequences of builder calls under a simulated environment, read back by the independent decoder.",
"C15": "Two to four real threads released one at a time by the simulator, which may switch at any memory access, basic block, allocation or system call inside the library (compiler probes); each session is judged alone.",
"C16": "Messages damaged in flags and reserved fields go to strict and default builds of the crate; verdicts are compared with the reference policy, and conformant exchanges run on strict builds.",
"C17": "Negotiate messages of clients with arbitrary pasts are compared byte for byte with the reference policy of the level.",
"C18": "Flag sets, byte buffers and decoded messages, well-formed and damaged, are rendered into simulated sinks that fail or tear at drawn points; texts are parsed back for flag names and byte fields, and compared with those of slightly different messages.",
"C20": "All scenarios of the other checks under an interposed libc and a simulated logger, with logging on or off: any write, open, socket, process, thread, sleep, environment or signal change made by library code is caught and refused, and all log text is searched for the run's secrets in raw, hex and list form.",
"C21": "One cycle of operations, with refused calls, hostile challenges and entropy failures, repeated up to 40 times (in some runs up to 4,500) on one client and over several client lives; bytes held (counting allocator) and basic blocks executed (compiler probes) per cycle are compared.",
}
ASSUME = " Trusts: the reference implementation (self-tested on the MS-NLMP examples before every check), the libc-level seams, the sampling of the input space."
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --build",
 "hooks": {"guard": "rustc cfg http_ntlm_sim", "enable": "RUSTFLAGS='--cfg http_ntlm_sim' (set by check.py when it builds /verif/sim against /repo)",
           "source_commits": ["6981fd376984cedf7635e45898a39ec326fe914b"]},
 "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
             "evidence_file": "evidence/%s.json" % p, "technique": TECH, "level": "exploration", "level_note": n + ASSUME} for p, n in NOTES.items()],
 "not_applicable": [
  {"property": "C19", "reason": "src/win.rs compiles and runs only on Windows (it calls the platform's SSPI); the sandbox has neither the target nor the platform library, so the real code cannot run under the simulator."},
 ],
 "notes": "Known findings: /verif/known_findings.json. Replay: python3 check.py --replay FILE.",
}
print(json.dumps(m, indent=1))
