import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":"compared with the oracle","where":files[0]}]
    if observe: a["observe_at"]=[observe]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Encrypted execution computes exactly what RV32I prescribes",
"For every RV32I program whose instruction fetches stay inside the program and whose loads and stores are naturally aligned and inside RAM, running the encrypted machine for any number of cycles and decrypting yields exactly the registers, RAM and program counter that a RISC-V RV32I processor would hold after that many instructions. This holds for every operand value and encoding (including sub-word loads and stores at every byte offset, shift amounts, sign extension, negative immediates), every choice of keys and encryption randomness, every positive worker-thread count and every interleaving of those workers.",
["programs","inputs","schedules","configurations"],
"all RV32I programs and register/RAM contents, all cycle counts, all key and noise seeds, all thread counts and worker interleavings",
"The unit tests evaluate single operations on a handful of random operands, and the only multi-cycle test (one fixed program) is not among the stable tests; none explores operand corners, instruction sequences, thread counts or interleavings.",
["fhevm/src/interpreter.rs","fhevm/src/rd_update.rs","fhevm/src/ram_update.rs","fhevm/src/instructions/mod.rs","fhevm/src/prepare.rs","fhevm/src/ram_offset.rs","fhevm/src/codegen/*"],
[("cycle: fetch, operand read, address, evaluate all ops, blind select, refresh, write back","fhevm/src/interpreter.rs cycle_internal"),("per-operation homomorphic evaluation","fhevm/src/rd_update.rs, fhevm/src/ram_update.rs"),("instruction decoding to operand/opcode planes","fhevm/src/instructions/*.rs"),("multi-threaded preparation of operand bits","fhevm/src/prepare.rs")],
"encrypted pc, registers, RAM","after each cycle, decrypted","fhevm/src/sim.rs: read-only access to pc and registers, reduced lattice dimensions")
p("C02","Threads and timing never change a single ciphertext bit",
"Given the same keys and the same encrypted program, registers and memory, the encrypted state after every cycle is bit-for-bit identical whatever the number of worker threads, however the workers are interleaved, delayed or spuriously woken, whatever the process's hash seeds, the clock readings or the prior contents of freshly allocated memory during the execution.",
["schedules","configurations","histories"],
"all thread counts, all interleavings of the workers of every parallel section, all hash seeds, clocks and allocator contents",
"No test compares two executions; each runs once under whatever schedule the host produced, with one thread count.",
["fhevm/src/memory.rs","fhevm/src/prepare.rs","fhevm/src/interpreter.rs","fhevm/src/pc_update.rs"],
[("bit planes split over scoped threads in chunks","fhevm/src/memory.rs"),("operand preparation split over scoped threads","fhevm/src/prepare.rs"),("result maps keyed by op id (hash order)","fhevm/src/interpreter.rs update_registers/update_ram")],
"raw ciphertext coefficients of pc, registers, RAM","after each cycle","fhevm/src/sim.rs sim_ciphertext")
p("C03","Encrypted memory behaves as a plain byte-addressed memory",
"Across any history of byte, half-word and word loads and stores interleaved with other instructions, each load returns the most recently stored value of exactly the addressed bytes and every store changes exactly the addressed bytes, in RAM of any size and at any address in it including its first and last word. Cycles that do not store leave the whole RAM unchanged, even though they touch it obliviously.",
["histories","inputs","configurations","schedules"],
"all load/store histories, RAM sizes (within one polynomial, spanning several, not a power of two), addresses, widths, thread counts and interleavings",
"The memory unit test makes a few reads and writes at one size with one value each; it checks neither bystander cells over a history, nor sub-word merging through the cycle, nor sizes that are not powers of two.",
["fhevm/src/memory.rs","fhevm/src/ram_update.rs","fhevm/src/ram_offset.rs","fhevm/src/interpreter.rs"],
[("oblivious stateful read followed by reverse write-back","fhevm/src/memory.rs read_statefull/read_statefull_rev"),("byte/half-word splice selected by the low address bits","fhevm/src/ram_update.rs"),("address = rs1 + imm - RAM base","fhevm/src/ram_offset.rs")],
"encrypted RAM","whole RAM after each cycle, decrypted")
p("C04","Control flow, links and the zero register follow the ISA",
"For every sequence of branches, jumps and pc-relative instructions inside the program's address space the encrypted program counter takes exactly the path the ISA prescribes: each condition is decided correctly for all operand pairs, targets with forward and backward offsets are exact in all 32 bits, indirect jumps clear the lowest target bit, and link registers hold the address of the next instruction. The zero register reads as zero at all times whatever is written to it.",
["programs","inputs","schedules","configurations"],
"all control-flow graphs, ROM sizes, operand pairs, offsets and link/zero register uses, under all thread counts and interleavings",
"The pc tests apply one update at a time to a few random operands; loops, calls, returns, aliasing of link and source registers and large ROMs are never exercised.",
["fhevm/src/pc_update.rs","fhevm/src/codegen/codegen_pc_update.rs","fhevm/src/codegen/codegen_jalr.rs","fhevm/src/codegen/codegen_auipc.rs","fhevm/src/instructions/b_type.rs","fhevm/src/instructions/j_type.rs"],
[("pc update circuit","fhevm/src/pc_update.rs, fhevm/src/codegen/codegen_pc_update.rs"),("link/auipc circuits","fhevm/src/rd_update.rs"),("x0 cleared after each write-back","fhevm/src/interpreter.rs update_registers")],
"encrypted pc and registers","after each cycle, decrypted","fhevm/src/sim.rs sim_pc")
p("C05","Resource faults stop the machine loudly, never corrupt it",
"When threads cannot be created, memory cannot be allocated, output streams fail, waits are interrupted or workers are stalled, an encrypted execution either completes with the exact result or terminates with a panic or abort; it never returns a wrong result and never deadlocks. Faults that only delay (spurious wake-ups, stalled workers, interrupted waits) never prevent completion.",
["fault_sequences","schedules","crash_points"],
"all placements of thread-creation failures, allocation failures, output errors, interrupted and spurious waits and stalls, under all interleavings",
"No test injects any fault.",
["fhevm/src/memory.rs","fhevm/src/prepare.rs","fhevm/src/interpreter.rs","compiler/src/interpreter.rs"],
[("scoped worker threads joined before use of their results","fhevm/src/memory.rs, fhevm/src/prepare.rs"),("cycle loop with progress output","compiler/src/interpreter.rs EncryptedVM::execute")],
"process outcome, decrypted state","end of run")
p("C06","Observation and host configuration never alter the computation",
"Timing output, debug mode, environment settings (including malformed ones), the number of CPUs reported by the host, clock jumps, pausing and resuming, reading the output part-way, and changing the worker-thread count between cycles never change what the encrypted machine computes or when it stops. Debug mode never reports a discrepancy on a correct execution.",
["configurations","histories","fault_sequences","schedules"],
"all settings of the timing/debug/thread knobs and malformed values of them, all reported CPU topologies, all clock behaviours, all ways to split a run",
"Tests run with one configuration on one host and never compare configurations.",
["compiler/src/interpreter.rs","fhevm/src/interpreter.rs","fhevm/src/debug.rs","fhevm/src/measurements.rs"],
[("environment knobs","compiler/src/interpreter.rs encrypted_vm"),("debug mirror machine with assertions","fhevm/src/debug.rs"),("timing measurements","fhevm/src/interpreter.rs, fhevm/src/measurements.rs")],
"decrypted state and raw ciphertexts","after each run segment","compiler sim_interpreter accessor")
p("C07","The loader boots exactly what the image says, or rejects it",
"Loading a guest image produces exactly the program and initial memory the image describes: every initialised byte at its address, zero elsewhere (including the uninitialised tail of a segment), and the declared input and output regions. An image that was truncated or torn in storage so that bytes it declares are missing is rejected rather than booted with altered contents.",
["inputs","fault_sequences","crash_points"],
"all segment layouts (any number and order, partially initialised segments, any region placement) and all truncation, torn-write and lost-sector damage to the stored image",
"Tests load a few well-formed images produced by one linker; damaged or unusual images are never loaded.",
["compiler/src/interpreter.rs","compiler/src/lib.rs"],
[("segment and section parsing into boot memories","compiler/src/interpreter.rs Phantom::from_elf"),("image read from storage","compiler/src/lib.rs")],
"boot ROM/RAM, input/output regions","after loading; first instructions of both machines")
p("C08","A guest build yields the artifact of a successful build, or fails",
"Requesting a guest build returns exactly the bytes of the artifact that the build tool produced for the requested program when that tool exited successfully. If the tool cannot be started, fails, is killed at any point, or its artifact cannot be read completely, the request fails loudly and never returns stale, partial or foreign bytes.",
["fault_sequences","crash_points","histories"],
"all build-tool exit codes, kill points relative to writing the artifact, stale artifacts from earlier builds, output volumes and read faults",
"The stable tests never invoke a guest build.",
["compiler/src/lib.rs"],
[("child build process and artifact read-back","compiler/src/lib.rs CompileOpts::build")],
"returned bytes","return of the build request")
p("C09","The plaintext test machine and the encrypted machine agree",
"For every RV32I program and input tape within the supported subset, the plaintext test machine and the encrypted machine have the same memory and produce the same output tape after every number of cycles, and both equal the RISC-V specification. The plaintext machine also follows the specification for the multiply/divide instructions it accepts, including division by zero and overflow.",
["programs","inputs","schedules"],
"all programs, inputs and cycle counts; all thread counts and interleavings on the encrypted side",
"The plaintext machine has no unit tests of its own, and no stable test runs both machines on the same program.",
["compiler/src/interpreter/testvm.rs","compiler/src/interpreter.rs","fhevm/src/interpreter.rs"],
[("plaintext decoder and executor","compiler/src/interpreter/testvm.rs"),("encrypted execution through the public API","compiler/src/interpreter.rs")],
"RAM, output tape","after each cycle count")
p("C10","Input and output tapes are carried faithfully",
"Every byte of the input tape appears in the guest's declared input region before the first cycle and no other memory byte is affected, and the output tape is exactly the bytes of the declared output region when execution stops, for any size, alignment and placement of the two regions and on both machines. A tape of the wrong length is rejected, and reusing a loaded program with another input carries nothing over from earlier runs.",
["inputs","histories","configurations","schedules"],
"all region placements and sizes (empty, unaligned, adjacent, at either end of RAM), tape contents, tape lengths and sequences of runs from one loaded program",
"The example tests use two fixed layouts with aligned regions and one input each.",
["compiler/src/interpreter.rs","compiler/src/interpreter/testvm.rs"],
[("input copied over boot RAM, bytes packed to words","compiler/src/interpreter.rs encrypted_vm"),("output extracted from decrypted RAM","compiler/src/interpreter.rs output_tape")],
"RAM, tapes","start and end of run")
p("C11","Machines in one process do not influence each other",
"Any number of machines, created and executed successively or concurrently on different threads of one process, each behave bit-for-bit as if they ran alone: neither their interleaving nor the failure of one of them changes the results of another.",
["schedules","histories","fault_sequences"],
"all sets of machines, all interleavings of their cycles and worker threads, all crash points of a peer",
"No test runs two machines at once or compares a machine with a solo run.",
["compiler/src/interpreter.rs","fhevm/src/interpreter.rs","fhevm/src/memory.rs"],
[("all state owned by the machine; no process-wide mutable state","fhevm/src/interpreter.rs, compiler/src/interpreter.rs")],
"raw ciphertexts and decrypted state of each machine","after each cycle of each machine")
p("C12","Every machine has fresh, unpredictable secrets",
"Each encrypted machine draws its secret key, masks and errors from the operating system's entropy: machines created under different entropy have different secrets and cannot decrypt one another's memory, equal plaintexts encrypt to unrelated ciphertexts, and the secret is never derivable from the seed of the public randomness. If entropy is unavailable or delivered only partially, creation completes with full entropy or fails loudly; it never falls back to fixed or repeated secrets.",
["fault_sequences","histories","inputs"],
"all entropy streams and all failures of the entropy source (missing, error, short and interrupted reads)",
"No test looks at key material, and tests seed their own randomness with constants.",
["compiler/src/interpreter.rs","fhevm/src/keys.rs"],
[("seeding of secret, mask and error sources","compiler/src/interpreter.rs encrypted_vm"),("key generation","fhevm/src/keys.rs")],
"secret key, ciphertexts","after machine creation","compiler sim_sk accessor")
p("C13","Noise stays decryptable and is refreshed on every write",
"In any history a value written to a register or to RAM is stored with fresh noise independent of how long the computation that produced it was, untouched cells accumulate noise no faster than the square root of the number of cycles, and with the production parameters the noise stays below the decryption threshold for executions of several hundred cycles.",
["histories","schedules","configurations","programs"],
"all programs and histories, including long dependency chains and cells that are never rewritten, for all thread counts",
"Noise is only printed, never asserted, by the tests, and only for single operations or a few cycles.",
["fhevm/src/interpreter.rs","fhevm/src/memory.rs","fhevm/src/parameters.rs","fhevm/src/keys.rs"],
[("refresh of results before write-back","fhevm/src/interpreter.rs update_registers/update_ram"),("parameter set","fhevm/src/parameters.rs")],
"noise of registers and RAM against their plaintext","after each cycle","fhevm/src/sim.rs sim_noise")
p("C14","What an execution shows depends only on public sizes",
"Executing an encrypted program does the same things whatever the program, its input, the memory contents and the keys are: for a given program length, RAM size, number of cycles and number of threads, every cycle performs the same sequence of thread creations, synchronisations, memory requests, clock readings, output and encrypted operations, and the execution always runs for the requested number of cycles. Whoever watches the host thus learns neither what the program is, nor what it reads, nor when it has finished. (Debug mode, which decrypts on purpose, is exempt.)",
["inputs","programs","histories","configurations"],
"all programs, inputs, memory contents and keys of equal size, under every schedule and thread count",
"No test compares two executions; each test looks at the results of one.",
["fhevm/src/interpreter.rs","fhevm/src/memory.rs","compiler/src/interpreter.rs"],
[("all operations evaluated and blindly selected in every cycle","fhevm/src/interpreter.rs cycle_internal, update_registers, update_ram, update_pc"),("fixed number of cycles","compiler/src/interpreter.rs execute")],
"sequence of host-visible actions and multiset of encrypted operations","after each cycle")
p("C15","Compiled Rust guests deliver what their source computes",
"A Rust guest built with the project's build driver, linker script, runtime and entry attribute starts with its static data and stack in place, runs its main function once, and delivers on the output tape of either machine exactly what its source computes from the input tape; cycles granted beyond its end change nothing. Every heap allocation is aligned as requested, lies in RAM, keeps the runtime's gap of 256 bytes to the stack and overlaps neither static data nor any other live allocation, whose contents persist; when memory runs out the guest stops in its panic handler instead of receiving memory that is in use.",
["inputs","programs","histories","configurations","schedules"],
"all guest programs that fit the machine, all inputs, all histories of allocations, reallocations and releases with any size and alignment, all worker schedules",
"The example tests run one input each; runtime and linker script are not exercised by any test on the host.",
["runtime/src/alloc.rs","runtime/src/lib.rs","macros/src/lib.rs","compiler/linker-script/default.x","compiler/src/lib.rs","compiler/src/interpreter.rs"],
[("entry code and allocator","runtime/src/lib.rs, runtime/src/alloc.rs"),("memory layout","compiler/linker-script/default.x"),("build flags","compiler/src/lib.rs CompileOpts::build")],
"output tape, guest RAM","end of the guest")
p("C16","Diagnostics report what actually happened",
"In debug mode no cycle completes after which a register, a RAM word or the program counter differs from what the program prescribes, whatever caused the deviation (damaged, stale or misplaced ciphertexts, evaluation errors), and no cycle fails without one; the registers it prints are the machine's and the noise it prints never understates the actual noise. With timings on, every cycle prints exactly one report under its own number, in which each figure is time that passed on the monotonic clock during that cycle, parts add up to no more than their step and steps to no more than the cycle, whatever the wall clock does.",
["fault_sequences","histories","schedules","configurations"],
"all programs, all deviations of the encrypted state at any cycle, all schedules, stalls and clock movements",
"No test runs debug mode on a machine whose state is wrong, and none looks at what is printed; the clock cannot be controlled in a test.",
["fhevm/src/interpreter.rs","fhevm/src/debug.rs","fhevm/src/measurements.rs","compiler/src/interpreter.rs"],
[("shadow execution and comparison","fhevm/src/debug.rs, fhevm/src/interpreter.rs cycle_internal"),("measurements and their report","fhevm/src/measurements.rs, fhevm/src/interpreter.rs print_timings")],
"decrypted state, stdout","after each cycle","fhevm/src/sim.rs sim_part/sim_damage")
p("N01","The parameter set provides the claimed security level",
"The lattice dimensions, moduli and noise distributions give the security level the project claims.",
["configurations"],"all attacks","A hardness claim about lattice problems, not a behaviour of the code.",
["fhevm/src/parameters.rs"],[("parameter constants","fhevm/src/parameters.rs")])
p("N02","A cycle finishes within a useful wall-clock time",
"With production parameters one cycle takes seconds, scaling with the number of worker threads.",
["configurations"],"all hosts","Wall-clock performance depends on the host.",
["fhevm/benches/cycle.rs"],[("benchmark","fhevm/benches/cycle.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80
    print(x['id'],len(x['statement']), x['statement'].count('. ')+1)
