#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = "Seeded search, not exhaustive: assurance grows with runs. Trusts the Rust reference model in sim/src, the simulator's runtime (sim/rt) and the cryptographic library's decryption; most runs use reduced ring/LWE dimensions of the same code path, a share uses the production parameters. "
T = {
"C01": ("deterministic simulation: seeded programs and worker schedules, decrypted state compared with an RV32I reference model every cycle", "Programs of up to tens of instructions over all RV32I encodings and operand corners."),
"C02": ("deterministic simulation: the same machine replayed under different schedules, thread counts, clocks, hash seeds and allocator contents, ciphertexts compared bit for bit", "Keys and initial encryption are pinned; everything after them varies."),
"C03": ("deterministic simulation: seeded load/store histories under seeded schedules, whole decrypted RAM compared with a byte-array model every cycle", "RAM sizes from one word to several polynomials."),
"C04": ("deterministic simulation: seeded control-flow programs under seeded schedules, decrypted pc and links compared with the reference model every cycle", "Targets inside the program's address space."),
"C05": ("deterministic simulation with fault injection: thread-creation, allocation, output, wait and stall faults at seeded points; outcome must be exact or loud", "Fault points are counted per run and faults placed on seeded points."),
"C06": ("deterministic simulation: host configuration, environment, clock jumps, debug and timing modes varied by seed and results compared", "CPU discovery, environment, clocks and standard output are simulated."),
"C07": ("deterministic simulation of storage damage: seeded images, truncated, torn, zeroed and bit-flipped, loaded and compared with an independent ELF reading", "The oracle is an independent ELF32 reader."),
"C08": ("deterministic simulation with fault injection of the build tool and the file system: spawn errors, exits, kills, short/torn/failed reads at seeded points", "The build tool is a stand-in script-free child; /repo's build wrapper runs for real."),
"C09": ("deterministic simulation: the same image and tape on the plaintext and the encrypted machine in lock step, both against the reference model", "RV32M on the plaintext machine only, as the encrypted machine does not accept it."),
"C10": ("deterministic simulation: seeded region layouts and tapes through load, execute and read-back on both machines", "Includes reuse of one loaded program for several inputs."),
"C11": ("deterministic simulation: several machines in one process under seeded interleavings and faults, each compared bit for bit with its solo run", "Up to a handful of machines."),
"C12": ("deterministic simulation of the operating system's entropy source: seeded entropy, short reads, interruptions and outages; secrets compared across machines", "Statistical and equality checks on secrets and ciphertexts; not a cryptographic proof."),
"C13": ("deterministic simulation: exact noise of every cell measured with the secret key every cycle along seeded histories, against a bound", "Bounds are measured maxima plus a margin; production-parameter runs are short and extrapolated by the square-root law that the reduced runs verify."),
"C14": ("deterministic simulation: executions of equal size but different programs, inputs and keys under the same simulated schedule and host; their traces of host-visible actions and encrypted operations must be identical cycle by cycle", "Traces contain scheduling points, memory requests with sizes, output bytes, clock readings, thread creations and the calls of the machine's and the encrypted operations' routines; addresses accessed and instruction timing are not observed."),
"C15": ("deterministic simulation: Rust guests (allocator histories, computations, the repository's examples) built by the real build driver and run to their end on the reference, the plaintext and, under seeded schedules and faults, the encrypted machine; tapes and allocation histories judged against native execution and an allocator model", "Eight computations, one allocator guest and five examples of the repository, over seeded inputs; encrypted runs cover up to 240 cycles of a guest."),
"C16": ("deterministic simulation with fault injection: stale and misplaced ciphertexts injected into the state of a machine in debug mode, and timing reports compared with the simulated clock's readings under seeded schedules, stalls and clock jumps", "Damage is whole ciphertexts of program, registers, RAM or pc that are stale, exchanged or misplaced; the assignment of a duration to its label is checked by nesting and by being a difference of two clock readings."),
}
M = {"version": 1, "setup_cmd": "sim/build.sh",
 "hooks": {"guard": "phantom_sim", "enable": "RUSTFLAGS --cfg phantom_sim (set by /verif/sim/build.sh)", "source_commits": ["971a581", "db28253", "18119a2", "5958229"]},
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k}", "thorough_cmd": f"./check.sh {k}", "evidence_file": f"evidence/{k}.json", "technique": t, "level": "exploration", "level_note": COMMON + n} for k, (t, n) in T.items()],
 "not_applicable": [
  {"property": "N01", "reason": "A statement about the hardness of a lattice problem for fixed parameters: no schedule, fault, clock or I/O influences it, and no execution can refute it; it needs a lattice estimator."},
  {"property": "N02", "reason": "A real-time performance statement; simulated time says nothing about it."}],
 "notes": "See DESIGN.md."}
json.dump(M, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
