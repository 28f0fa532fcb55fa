#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "decoding hostile bytes under a panic guard, an allocation meter and a processor time limit; debug and release, default and strict builds",
 "C02": "differential monitor: every decode compared with an independent reference decoder",
 "C03": "round-trip oracle over generated values and over everything decodable that was generated",
 "C04": "byte-level auditor of every encoded message against an independently computed layout",
 "C05": "model-based monitor of the public state after every setter call",
 "C06": "runtime assertions over all 2^32 flag words (exhaustive execution)",
 "C07": "verdict monitor in strict and default builds against the rule, all combinations of the relevant bits",
 "C08": "trace monitor: reference server with independent cryptography judges every NTLMv1 response sent",
 "C09": "trace monitor: reference server with independent cryptography verifies every NTLMv2 response sent",
 "C10": "trace monitor: server-side key derivation compared with the client's hooked session key and the wire",
 "C11": "offline checker over the three recorded messages of every handshake",
 "C12": "interposed random generator with taint by value, and statistics over many threads, forks and processes",
 "C13": "leak scanner over wire bytes, captured log records and file descriptors",
 "C14": "panic monitor over handshakes with hostile credentials and challenges, debug and release builds",
 "C15": "trace monitor over recorded messages, with differential runs of both constructors",
 "C16": "online checker of a state-machine specification over call histories",
 "C17": "interference monitor: each handshake of a history or of concurrent threads judged and compared with an isolated twin; ThreadSanitizer and Miri for data races",
 "C18": "trace monitor over recorded NEGOTIATE messages",
 "C19": "trace monitor comparing every response with all weaker responses computable from the password",
 "C20": "differential monitor against 128-bit arithmetic with an interposed clock",
 "C21": "Miri, AddressSanitizer and MemorySanitizer over the workloads of all monitors",
 "C22": "interposed environment and file system: injected contents and faults, messages compared with a model",
 "C23": "fault-injecting writers with a stream monitor",
 "C24": "trace monitor over recorded AUTHENTICATE flag words",
 "C26": "trace monitor: the client's recorded messages are decoded, verified and re-encoded with the library's own types, against independent cryptography; differential monitor of compute_mic",
 "C27": "monitor of refusals and of complete encodings, through an independent decoder and auditor, with exact sizes around 2^16",
 "C28": "repeat-execution monitor: bytes, values and texts before and after unrelated activity and in other threads compared; ThreadSanitizer and Miri on shared values",
 "C30": "runtime assertions over all public conversions, comparisons and accessors of the value types",
 "C31": "allocation, file and thread meter around repeated executions",
 "C25": "stand-in SSPI: recorded calls checked against a handle-lifetime and token-transfer specification, under AddressSanitizer and Miri",
}
NOTE = {
 "C06": "Every word, every bit: exhaustive for test, set and clear; encoding for every 8th and rendering for every 512th word.",
 "C25": "The real file over a stand-in SSPI; what Windows itself does is not observed. Assumes SSPI behaves as documented.",
 "C21": "No undefined behaviour or memory error was reported on the executions made; assumes the detectors are complete for what was executed.",
 "C12": "The values are the generator's output on every execution observed; assumes the kernel's generator.",
}
DEFAULT = "No execution among those generated violated the property; the oracle shares no code with the crate and checks every message or value it sees. Assumes the reference model in /verif/harness and x86_64 Linux."
SKIP = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 check.py setup",
    hooks=dict(guard="--cfg http_ntlm_verif (rustc cfg; http_ntlm_verif_no_client leaves the client part out; http_ntlm_verif_win compiles src/win.rs on other systems)",
        enable="RUSTFLAGS='--cfg http_ntlm_verif' when building /verif/harness, which has a path dependency on /repo; additionally '--cfg http_ntlm_verif_win' for /verif/win, which compiles /repo/src with the Windows bindings",
        source_commits=["db99acb257d7ba1e78619c37a9afcfeb641c34be", "b3da7b02ed13b58d6a1b39b7a6053da5499f249b"]),
    checks=[dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
        evidence_file=f"evidence/{i}.json", technique=T[i], level="exploration", level_note=NOTE.get(i, DEFAULT)) for i in ids if i not in SKIP],
    not_applicable=[dict(property=i, reason=r) for i, r in SKIP.items()],
    notes="See DESIGN.md. check.py replay <file> repeats a recorded violation.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
