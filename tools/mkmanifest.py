"""Writes MANIFEST.json.  Run after changing which properties are claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "explicit-state exploration of an executable sponge-automaton model, every trace replayed on the real code"
EX = "exhaustive bounded enumeration of calls on the real code"
C = {
 "C01": (MC, "model_checking", "The encryption of every program equals the model on every trace of the bounded space (all length pairs of a grid, length ladders, every bit and byte value of key and nonce). The model was written from the specification and reproduces the known-answer files. Trusts compilers and qemu."),
 "C02": (MC, "model_checking", "Round trip, lengths and opening of the model's ciphertexts on the same space as C01."),
 "C03": (EX + ": all tamperings of model-made ciphertexts within stated classes", "exploration", "All single-bit and single-byte tag errors, all pairs and subsets of wrong tag bytes, every bit of every other input, truncations, extensions and boundary shifts. Probability of chance collisions is 2^-128 per case."),
 "C04": (EX + ", forged inputs decrypted into a write-protected buffer (every store is observed)", "exploration", "Observes any store to the plaintext buffer in a call that rejects, also a temporary one."),
 "C05": (EX + " between unmapped pages, and under AddressSanitizer", "exploration", "Every length pair of a grid with each buffer flush against an unmapped page on either side; internal arrays by AddressSanitizer (x86)."),
 "C06": (EX, "exploration", "Every ciphertext length below 16 with every associated data length up to the bound."),
 "C07": (EX + ": all placements of the buffers within bounds", "exploration", "All pairs of offsets, adjacent orders, overlaps and address boundaries."),
 "C08": ("exhaustive exploration of all call histories up to a depth on the real code (de Bruijn enumeration)", "model_checking", "Every history of 2 (3, 4 for smaller alphabets) consecutive operations gives each operation's first-call result; plus long repetitions."),
 "C10": (MC, "model_checking", "Every digest equals the model on every trace of the bounded space."),
 "C12": (MC + "; fault probes of declared lengths up to 2^46; runs beyond 2^32 bytes", "model_checking", "Length ladders across 2^16..2^22, probes that a declared length is honoured up to 2^46, complete runs beyond 2^32 bytes on fast programs."),
 "C13": (MC + "; outcomes of all programs of an instance compared call by call", "model_checking", "All programs of an instance agree on every honest and forged call of the space; other instances refuse."),
 "C15": (MC + ", with all choices of null, unmapped and valid pointers for empty buffers", "model_checking", "All combinations of empty inputs and pointers on the ladder of lengths."),
 "C16": (EX + " on a painted stack, with heap interposition and with system calls made fatal", "exploration", "Stack high-water mark, heap and system calls for every length up to a bound."),
 "C09": ("stateless model checking: all thread interleavings of the real code up to a preemption bound under a controlled scheduler", "model_checking", "Two concurrent calls of every pair of operations; scheduling points are all accesses to memory that is not private to the call; preemption bound 2."),
 "C11": ("exhaustive enumeration of secrets within bounds, comparing instruction and address traces of the real code", "exploration", "Traces are recorded by compiler instrumentation and confirmed on the unmodified optimised program."),
 "C18": (EX + " through a trampoline that fills scratch registers with junk and checks preserved ones", "exploration", "Every length pair of a grid under three register fillings in several builds; callee-saved registers, stack, flags, control words and results compared."),
 "C14": (MC + ", for every compiler configuration of a matrix", "model_checking", "The same traces replayed under every configuration."),
}
ORDER = sorted(C)
import re
have = set(re.findall(r"^def (C\d\d)\(", open(os.path.join(V, "check.py")).read(), re.M))
checks = [{"property": i, "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
           "evidence_file": f"evidence/{i}.json", "technique": C[i][0], "level": C[i][1], "level_note": C[i][2]} for i in ORDER if i in have]
na = [{"property": "C17", "reason": "a statement about physical leakage (power, electromagnetic) of devices: it needs a leakage model and measurements, and is not visible in any execution or state of the code that could be enumerated"}]
na += [{"property": i, "reason": "check under construction"} for i in ORDER if i not in have]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Known findings: known_findings.txt. python3 check.py --replay FILE runs a recorded violation again."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
