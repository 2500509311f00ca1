#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run to regenerate it."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Every instruction has exactly the architectural effect of the Z80 variant",
 "Executing any instruction, documented or undocumented and with any prefix sequence, from any processor state leaves every register (including the flags' undocumented bits, the refresh register and MEMPTR), every memory byte, the interrupt flip-flops and mode, and the values sent to and taken from I/O ports as the selected Z80 variant (NMOS, CMOS or BM1) defines. Nothing else changes, including when addresses or counters wrap at 16 or 8 bits.",
 ["programs", "inputs", "histories"],
 "every byte string as a program, every processor state and memory, every variant, every value returned by devices, including states reached only by earlier instructions (such as which instruction last changed the flags)",
 "The tests run a handful of fixed programs (including zexall-like suites as ignored/long examples) with one flavour each; they do not reach arbitrary prefix chains, wraps or histories of the hidden latches.",
 ["src/z80/macros.rs", "src/z80/instructions.rs", "src/z80/internal.rs", "src/z80/ops.rs", "src/z80/flavours.rs", "src/z80.rs", "src/cpu/registers.rs", "src/cpu/flags.rs"],
 [("execute_instruction! / instructions_*! decode", "src/z80/macros.rs, src/z80/instructions.rs"), ("ALU helpers", "src/z80/ops.rs"), ("memory, stack and block operations", "src/z80/internal.rs"), ("flavour differences", "src/z80/flavours.rs")],
 ["Cpu getters, get_memptr, equality after a following SCF/CCF", "Memory contents", "Io::read_io / Io::write_io arguments"],
 [("Z80<Q>", "the complete processor state", "src/z80.rs"), ("NMOS::flags_modified, last_flags_modified", "the Q latch", "src/z80/flavours.rs")])

prop("C02", "Bus cycles come in the Z80's order, addresses and T-state timing",
 "For every instruction and every interrupt acknowledge the processor reports to the clock exactly the machine cycles of the Z80, in order, each with the right address and length, so that the instruction takes its documented number of T-states. Each access to memory or a device happens in the order of its machine cycle, with the address of that cycle and the timestamp the clock gave for it, and wait states requested by a device are charged right after its cycle.",
 ["programs", "inputs", "schedules"],
 "every program and state, every contention pattern and every wait-state request the host may impose on any cycle",
 "Tests compare total T-states of a few instructions with an uncontended counter; a wrong address or order of internal cycles is invisible to them, yet shifts every later contended cycle.",
 ["src/z80/macros.rs", "src/z80/instructions.rs", "src/z80/internal.rs", "src/host.rs", "src/z80.rs"],
 [("add_m1/add_mreq/add_no_mreq/add_io/add_irq/add_wait_states call sequences", "src/z80/instructions.rs, src/z80/internal.rs"), ("cycle constants", "src/host.rs cycles")],
 ["Clock method calls", "Memory and Io method calls and their timestamps"])

prop("C03", "Cutting a run into time slices changes nothing",
 "Running up to a time limit executes exactly what single-stepping until the clock reaches that limit executes: same instructions, interrupt acceptances, bus accesses, timestamps, break results and final state. Consequently splitting a run into several limited runs at arbitrary limits, or mixing limited runs with single steps, gives the same history as one long run, and a run whose limit is already reached does nothing.",
 ["schedules", "programs", "histories"],
 "every program, every interrupt and device behaviour, every way to split the run into limits and steps, including limits falling after EI, after a prefix, at HALT, and in the same T-state as an interrupt",
 "The limited-run loop keeps registers in locals and duplicates the interrupt poll in several places; tests call it with one or two limits.",
 ["src/z80.rs", "src/z80/macros.rs", "src/z80/internal.rs"],
 [("execute_with_limit / execute_with_limit_loop", "src/z80.rs"), ("execute_next", "src/z80.rs")],
 ["final state", "clock", "Memory/Io/Clock call history", "returned results"],
 [("last_ei", "interrupt shadow after EI", "src/z80.rs"), ("prefix", "pending DD/FD", "src/z80.rs")])

prop("C04", "Maskable interrupts are accepted exactly when allowed, exactly once",
 "While the interrupt line is active and interrupts are enabled, a request is accepted at the first instruction boundary that is not right after EI or a DD/FD prefix, and never otherwise. Acceptance disables further interrupts, leaves HALT, and then performs the service of the current mode (the instruction supplied by the device, a restart at 0x38, or a call through the vector table) with the address of the first unexecuted instruction pushed, so that returning resumes the interrupted program as if nothing had happened.",
 ["schedules", "fault_sequences", "programs"],
 "every instant at which the line rises, falls, glitches or stays active relative to every program, every interrupt mode, every byte the device supplies including multi-byte instructions, and every wait-state count",
 "Tests raise the line at a few fixed points; the interaction of EI shadow, prefixes, HALT, LD A,I and back-to-back requests depends on the exact T-state.",
 ["src/z80.rs", "src/z80/internal.rs", "src/z80/macros.rs", "src/z80/flavours.rs"],
 [("is_irq_allowed, irq, irq_no_check", "src/z80.rs, src/z80/internal.rs"), ("EI shadow", "src/z80/instructions.rs")],
 ["Io::is_irq, Io::irq_data", "stack contents", "get_iffs, get_pc, is_halt"],
 [("iff1, iff2, im, last_ei, halt, prefix", "interrupt control state", "src/z80.rs")])

prop("C05", "A non-maskable interrupt is taken or refused atomically",
 "A non-maskable interrupt request at any instruction boundary is refused with no effect at all right after EI or a DD/FD prefix, and otherwise always accepted: it leaves HALT, masks maskable interrupts while remembering whether they were enabled, pushes the address of the first unexecuted instruction and continues at 0x66 after exactly 11 T-states of bus activity. A handler ending in RETN resumes the interrupted program with its former interrupt enable state.",
 ["schedules", "programs", "histories"],
 "every boundary in every program, nested in maskable interrupt handlers and HALT, repeated requests",
 "Tests trigger it at one or two boundaries.",
 ["src/z80.rs", "src/z80/internal.rs"],
 [("nmi, nmi_no_check, is_nmi_allowed", "src/z80.rs, src/z80/internal.rs")],
 ["return value of nmi", "Clock history", "stack contents, get_iffs, get_pc"])

prop("C06", "A halted processor keeps time and always wakes on an accepted interrupt",
 "After HALT the processor stays on that instruction, doing only refresh cycles (4 T-states and one refresh increment each) until an accepted maskable or non-maskable interrupt or a reset, and never executes the next instruction early. When interrupts are enabled and the line becomes active it wakes at the next refresh-cycle boundary, resuming after the HALT on return; while none comes each limited run still reaches its limit.",
 ["schedules", "histories", "fault_sequences"],
 "every time at which HALT is entered (including right after EI, in interrupt mode 0, or forced by the host), every arrival time of the waking interrupt, every slicing of the wait, snapshots taken while halted",
 "Tests halt and wake once with a fixed schedule.",
 ["src/z80.rs", "src/z80/internal.rs", "src/z80/macros.rs"],
 [("halt branch of execute_next and execute_with_limit", "src/z80.rs"), ("halt handling in irq_no_check and nmi_no_check", "src/z80/internal.rs")],
 ["is_halt, get_pc, get_r", "Clock::add_m1 history", "BreakCause::Halt"],
 [("halt", "halted flag", "src/z80.rs")])

prop("C07", "Each break request is reported once, after its instruction completes",
 "When a device requests a break during an output or at the end of an interrupt routine, or a HALT is executed, the call that executed the instruction returns that cause, with the value the device gave, after all effects of the instruction are complete; every such cause is returned exactly once and nothing else is reported. Simply resuming afterwards continues as if no break had been requested.",
 ["schedules", "fault_sequences", "programs"],
 "every subset of output operations, RETI instructions and HALTs requesting a break, in stepped, limited and interrupt-supplied execution, with requests coinciding with the limit and with interrupts",
 "Tests break on one OUT. Block outputs, RETI, and instructions supplied in interrupt mode 0 are separate code paths.",
 ["src/z80.rs", "src/z80/internal.rs", "src/z80/instructions.rs", "src/z80/macros.rs", "src/host.rs"],
 [("LoopExitReason and break 'main", "src/z80/macros.rs"), ("write_io result handling", "src/z80/instructions.rs"), ("RETI", "src/z80/internal.rs")],
 ["results of execute_next, execute_with_limit, execute_instruction, irq"])

prop("C08", "A debugger sees the truth and never disturbs execution",
 "Executing with a debug callback gives the same state, memory, clock and bus history as executing without one. The callback receives, once per completed instruction, the address, bytes and operands of the instruction that is really executed, including prefixes and instructions supplied by an interrupting device, and its mnemonic is the one the disassembler gives for the same bytes.",
 ["programs", "schedules", "inputs"],
 "every program and prefix chain, interrupts in all modes, untaken conditional jumps, wrap of the address space",
 "Tests look at few instructions; the debug text is produced by separate code for every instruction.",
 ["src/cpu/debug.rs", "src/z80/debug.rs", "src/z80/macros.rs", "src/z80/instructions.rs", "src/disasm.rs"],
 [("cpu_debug! and debug arguments", "src/z80/debug.rs, src/z80/macros.rs"), ("disasm_memory_once", "src/disasm.rs, src/z80/internal.rs")],
 ["CpuDebug passed to the callback", "state and history with and without callback"])

prop("C09", "A snapshot taken at any boundary restores the exact machine",
 "Saving the processor at any instruction boundary, including inside a prefix sequence, in the EI shadow or while halted, in a text or binary format, and restoring it later, gives a processor that continues exactly as the original would have: same instructions, flags, refresh values, interrupt acceptances and timing. Older snapshots lacking the optional fields or using the alternative field names still load, with the documented defaults.",
 ["crash_points", "histories", "programs"],
 "every point at which the host process stops, every variant and every history before it, repeated crashes, both formats, clones as well as serialised copies, and snapshots written in older forms",
 "The tests round-trip a couple of states and compare fields; hidden latches matter only some instructions later.",
 ["src/z80/serde.rs", "src/z80/flavours.rs", "src/z80/any.rs", "src/z80.rs", "src/cpu/registers.rs", "src/host.rs"],
 [("Serialize/Deserialize of Z80 and Z80Any", "src/z80/serde.rs"), ("flavour serialisation", "src/z80/flavours.rs"), ("TsCounter serialisation", "src/host.rs")],
 ["serde_json and bincode output", "future execution of restored and original"])

prop("C10", "A damaged snapshot is refused or gives a valid processor, never a crash",
 "Loading a snapshot that was truncated, bit-flipped, has fields missing, duplicated, retyped or out of range never panics or loops: it either returns an error or yields a processor that executes normally and can be saved again to an equivalent snapshot. A snapshot with a missing mandatory field, a repeated field, or an unknown value is an error.",
 ["fault_sequences", "inputs"],
 "every storage fault on a snapshot of any state in either format",
 "Tests contain a few wrong inputs.",
 ["src/z80/serde.rs", "src/z80/flavours.rs", "src/z80/any.rs"],
 [("visitor for Z80 and Z80Any", "src/z80/serde.rs")],
 ["deserialisation results", "execution of the result"])

prop("C11", "Choosing the variant at run time or converting it changes nothing else",
 "The processor whose variant is chosen at run time behaves identically to the statically typed one of the same variant for every operation, including construction, comparison, snapshots and conversion in both directions. Converting a processor to another variant keeps the whole architectural state, and afterwards it behaves as that variant.",
 ["histories", "configurations", "programs"],
 "every sequence of operations on both forms, conversions at arbitrary moments, every variant",
 "The run-time form forwards every operation by hand; tests call few of them.",
 ["src/z80/any.rs", "src/z80/flavours.rs", "src/z80.rs"],
 [("Z80Any dispatch", "src/z80/any.rs"), ("into_flavour / from_flavour / From impls", "src/z80.rs, src/z80/any.rs")],
 ["all Cpu methods on both forms"])

prop("C12", "Contention and wait states change time only, never results",
 "If the host's data does not depend on time, then any amount of contention on any cycle and any wait states added by devices change only timestamps: the sequence of instructions, the order and addresses and values of all accesses, and the final state are the same as with none. The clock never runs backwards, and the total time equals the uncontended time plus exactly the delays that were added.",
 ["fault_sequences", "schedules", "programs"],
 "every assignment of delays to cycles and of wait states to device accesses and acknowledges, including the maximum 65535",
 "Tests use a fixed-cost counter, so no delay is ever injected.",
 ["src/z80/internal.rs", "src/z80/instructions.rs", "src/z80/macros.rs", "src/host.rs"],
 [("add_wait_states after read_io, write_io and irq_data", "src/z80/instructions.rs, src/z80/internal.rs")],
 ["Clock calls", "access history"])

prop("C13", "Interrupted repeating block instructions finish the same transfer",
 "A repeating block transfer, search, input or output that is interrupted any number of times, sliced, or restored from a snapshot between iterations, transfers the same bytes in the same order to the same places, and ends with the same registers, as when run undisturbed, where it moves exactly the units its registers describe. Each iteration happens exactly once, whatever handlers preserve the registers do in between.",
 ["schedules", "crash_points", "fault_sequences"],
 "every interruption pattern (maskable in all modes, non-maskable, slices, snapshots, breaks) over every block instruction, counter and overlapping or wrapping range, including a transfer that overwrites its own code",
 "Tests run block instructions without interruptions.",
 ["src/z80/internal.rs", "src/z80/instructions.rs"],
 [("block_transfer / block_search / block_read_io / block_write_io", "src/z80/internal.rs")],
 ["memory and port history, final registers"])

prop("C14", "The stock cycle counter and forwarding wrappers are faithful",
 "The supplied cycle counter advances by exactly the documented length of each cycle for every counter width, wrapping without panicking, and gives each access its documented timestamp. A host object wrapped with the supplied forwarding helpers behaves exactly like the wrapped object for every clock, memory and device operation, and a host that implements only some operations gets the documented default for the others.",
 ["configurations", "programs", "inputs"],
 "every counter type and starting value including those that wrap mid-instruction, every nesting of wrappers, every program",
 "Tests call each counter method once, near zero; the wrappers are compiled but hardly executed.",
 ["src/host.rs", "src/macros.rs"],
 [("TsCounter", "src/host.rs"), ("forward_host_clock_methods!, forward_host_io_methods!, forward_host_memory_methods!", "src/macros.rs")],
 ["Clock return values", "call history seen by the wrapped object"])

prop("C15", "Reset at any moment gives the documented power-up state",
 "Resetting the processor at any boundary, whatever it was doing, gives a state equal to that of a newly created processor of the same variant, and its future behaviour is identical, so nothing of the past leaks through.",
 ["crash_points", "histories"],
 "every history before the reset, including pending prefix, EI shadow, HALT, interrupt service and hidden latches",
 "Tests reset one state; a latch that is not cleared shows up only in later behaviour.",
 ["src/z80.rs", "src/z80/any.rs", "src/z80/flavours.rs"],
 [("Cpu::reset", "src/z80.rs"), ("Flavour::reset", "src/z80/flavours.rs")],
 ["equality and behaviour after reset"])

prop("C16", "Streamed disassembly covers memory exactly and stops cleanly on failure",
 "Disassembling a block of memory reports its consecutive instructions in order, at the right addresses also across the end of the address space; their bytes account for the whole block except prefixes that have no effect and an incomplete instruction at its end, and each reported length is the length the processor consumes when executing the same bytes. When the receiver fails at any item, the disassembly stops at once and returns that failure, having delivered exactly the items before it; an incomplete instruction at the end is never invented.",
 ["inputs", "fault_sequences"],
 "every memory content, start address and block length, and a receiver failing at any item",
 "Tests disassemble one listing with a receiver that never fails.",
 ["src/disasm.rs", "src/cpu/debug.rs", "src/z80/debug.rs", "src/z80/internal.rs"],
 [("disasm_memory, disasm_memory_once, disasm_memory_write_fmt", "src/disasm.rs")],
 ["items delivered to the closure", "returned values", "text written"])

prop("C17", "Computer: counter-timer channels count and interrupt at the right time",
 "Each counter-timer channel, once programmed with any control word and time constant, counts the processor clock through the prescaler or the external pulses of the selected edge, reloads on zero, shows its current down-count when read, and requests an interrupt at each zero count when enabled, at the T-state implied by when it was programmed. A software reset stops it until a new constant is loaded, and none of this depends on how often or when the processor looks at it.",
 ["schedules", "configurations", "programs"],
 "every programming sequence on four channels with every relative timing, clock frequency, chained pulse source, poll pattern, frame and second boundary",
 "The example's tests program one or two channels once.",
 ["examples/ral1243/src/ctc.rs", "examples/ral1243/src/ctc_trigger.rs"],
 [("Channel state machine, next_ts hints", "examples/ral1243/src/ctc.rs"), ("CtcActive/CtcPassive pulse sources", "examples/ral1243/src/ctc_trigger.rs")],
 ["Io::read_io, Io::is_irq, Io::irq_data on the counter-timer"])

prop("C18", "Computer: parallel port passes every byte exactly once, in order",
 "Bytes offered by the host on the parallel input reach the program in order, each exactly once, and none is taken from the host before the program is able to receive it; bytes the program sends reach the host in order, each at most once, and each byte is delivered unless the program overwrites it or re-selects the mode before the host took it. A host that is slow, stalled or refuses a byte delays but does not reorder or duplicate, and the ready and interrupt handshake resumes once the host recovers.",
 ["fault_sequences", "schedules", "histories"],
 "every pattern of host readiness and refusals on both directions, every interleaving of program reads, writes, interrupts and resets, every frame length",
 "Tests use an always-ready host.",
 ["examples/ral1243/src/pio.rs", "examples/ral1243/src/pio_device.rs"],
 [("PIO channel handshakes", "examples/ral1243/src/pio.rs"), ("PioInput/PioOutput", "examples/ral1243/src/pio_device.rs")],
 ["PioStream::slurp and PioSink::flush calls", "Io::read_io/write_io"])

prop("C19", "Computer: daisy-chain interrupt priority and release are respected",
 "When several peripheral channels request interrupts, the acknowledge returns the vector of the highest-priority requesting one, no device of lower or equal priority requests the processor again until the service routine of the accepted one ends with RETI, and then the remaining requests are served in priority order, each pending request exactly once and none lost.",
 ["schedules", "histories", "fault_sequences"],
 "every set and order of requests from the counter-timer and parallel channels, nested services, RETIs at any moment, resets in between",
 "Tests have at most one device interrupting.",
 ["examples/ral1243/src/ctc.rs", "examples/ral1243/src/pio.rs", "examples/ral1243/src/bus.rs"],
 [("is_irq / irq_data / reti of Ctc, Pio and Bus", "examples/ral1243/src/ctc.rs, examples/ral1243/src/pio.rs, examples/ral1243/src/bus.rs")],
 ["vectors returned by irq_data", "is_irq"])

prop("C20", "Computer: memory banking maps exactly the documented pages",
 "Whatever sequence of control-port writes, instruction fetches, data accesses and resets, every address reads from the page that the documented memory map selects at that moment, writes change only RAM that is present and mapped there, and ROM, extension ROM and absent memory are never modified. Other RAM contents are retained across page switches.",
 ["histories", "programs", "configurations"],
 "every history of control writes, fetches, reads and writes over the whole address space, every RAM size and number of extension ROMs",
 "Tests touch a few addresses in the default map.",
 ["examples/ral1243/src/memory.rs", "examples/ral1243/src/bus.rs"],
 [("Memory paging", "examples/ral1243/src/memory.rs")],
 ["Memory trait and control port"])

prop("C21", "Computer: emulated time is exact across frames, seconds and resets",
 "Over any run the sum of the durations reported per frame equals the T-states really executed, each frame ends within one instruction of its nominal time so the emulation never drifts, and the internal once-per-second rebasing of time is invisible: peripherals, interrupts and program behave as if time had never been rebased. The same holds when frames, single debug steps, resets and non-maskable interrupts are mixed.",
 ["schedules", "configurations", "histories"],
 "every clock frequency and frame rate accepted as valid, every mixture of frame steps, debug steps, resets and NMIs over several emulated seconds",
 "Tests never run past one emulated second.",
 ["examples/ral1243/src/runner.rs", "examples/ral1243/src/clock.rs", "examples/ral1243/src/ctc.rs", "examples/ral1243/src/ctc_trigger.rs", "examples/ral1243/src/debug.rs"],
 [("FrameRunner::step, check_wrap_second, next_second", "examples/ral1243/src/runner.rs, examples/ral1243/src/clock.rs")],
 ["values returned by step, nmi, debug_step; peripherals' behaviour"])

prop("C22", "Computer: debug stepping runs the same machine as frame stepping",
 "Driving the computer with the single-step, run-to-interrupt, run-to-return and breakpoint commands in any mixture executes the same instructions with the same device interactions as running whole frames. Each command stops where it is documented to stop (next instruction, accepted interrupt, executed return, first breakpoint hit, or the end of a frame), reports the instruction it stopped at and the T-states it took.",
 ["schedules", "programs", "histories"],
 "every program, interrupt timing, breakpoint set and command mixture",
 "No test exercises these commands.",
 ["examples/ral1243/src/debug.rs", "examples/ral1243/src/runner.rs"],
 [("debug_step, debug_runto_int, debug_runto_ret, run_until_brkpt", "examples/ral1243/src/debug.rs")],
 ["returned CpuDebug/index and durations", "machine state"])

prop("C23", "Computer: the emulation thread obeys every control message",
 "Whatever the order and timing of control messages, keystrokes and host delays, the emulation thread applies each message in order at a frame or instruction boundary, keeps a refused non-maskable interrupt pending until it is accepted or a reset, stops promptly on terminate or when the controller disappears, and never deadlocks or drops input.",
 ["schedules", "fault_sequences"],
 "every interleaving of messages with execution, every delay of the host clock including jumps and stalls, a disconnected or full channel at any point",
 "No test runs the thread.",
 ["examples/ral1243/src/thread.rs"],
 [("run / debug loops", "examples/ral1243/src/thread.rs")],
 ["messages consumed, sleep requests, state after each message"],
 None, "none in /repo: the source is compiled for the simulator against a standard library whose clock, threads, channels and output are simulated (fakestd)")

prop("C24", "Computer: no guest program can crash or stall the emulator",
 "Whatever program and input the computer runs, on every valid clock frequency, each frame terminates, emulated time advances, and the emulator never panics. In particular no sequence of writes to the peripheral and memory ports, at any speed, overflows an internal queue or counter.",
 ["programs", "configurations", "fault_sequences"],
 "every guest program and port-write sequence, every valid clock, every host input pattern, over several emulated seconds",
 "Tests run only the stock ROM.",
 ["examples/ral1243/src/ctc.rs", "examples/ral1243/src/ctc_trigger.rs", "examples/ral1243/src/pio.rs", "examples/ral1243/src/runner.rs", "examples/ral1243/src/memory.rs"],
 [("bounded pulse queues, timestamp arithmetic", "examples/ral1243/src/ctc_trigger.rs, examples/ral1243/src/ctc.rs")],
 ["panics, progress of time"])

prop("C25", "Stateless parsing and formatting helpers are correct",
 "Condition, register, mode and flag helpers map every code to the value the Z80 defines, and the textual form of operands and instructions follows the documented syntax.",
 ["inputs"],
 "every code and value of the helper functions",
 "Tests sample some values; the domain is small and purely functional.",
 ["src/cpu/flags.rs", "src/cpu/parse.rs", "src/cpu/debug.rs"],
 [("CpuFlags, Condition, Reg8, StkReg16 helpers, Display impls", "src/cpu/flags.rs, src/cpu/parse.rs, src/cpu/debug.rs")],
 ["return values"])

prop("C26", "Host access to the registers at any boundary is exact",
 "At any instruction boundary, in any history, every register the host reads is the one the execution left, and every change made through the interface (setting, exchanging, adding to the refresh counter, halting, interrupt enables and modes, reset) changes exactly what it names and nothing else; the execution continues from there as the Z80 would. A copy is equal to the original until one of them changes, and never afterwards affects it.",
 ["histories", "schedules", "inputs"],
 "every interleaving of register access operations with execution, interrupts and resets, for every register value",
 "Tests set and read back a few registers of a fresh processor, with no execution in between.",
 ["src/z80.rs", "src/z80/any.rs", "src/cpu.rs", "src/cpu/registers.rs"],
 [("register accessors of the Cpu trait, Clone, PartialEq", "src/z80.rs, src/z80/any.rs, src/cpu/registers.rs")],
 ["get_* and is_* accessors", "equality", "saved form", "the following execution"])

prop("C27", "No safe use panics, hangs or corrupts memory, whatever the host does",
 "With any host, however inconsistent (data that changes between reads, interrupt lines that glitch, time that jumps or runs backwards, breaks at any output, panics inside its methods or debug callbacks, failing receivers and writers, damaged snapshots), no operation of the library panics by itself, runs on without end or has undefined behaviour; and after a panic of the host has passed through, the processor can still be read, saved, reset and executed.",
 ["fault_sequences", "histories", "inputs"],
 "every sequence of operations with a fault in any host call",
 "Tests use well-behaved hosts; no test lets a host call fail or panic half-way.",
 ["src/z80/internal.rs", "src/z80/macros.rs", "src/z80/instructions.rs", "src/z80.rs", "src/disasm.rs", "src/cpu/parse.rs", "src/cpu/debug.rs", "src/cpu/registers.rs"],
 [("unsafe register access, unreachable branches, arithmetic", "src/z80/internal.rs, src/z80/macros.rs, src/cpu/registers.rs, src/cpu/parse.rs")],
 ["panics", "number of host calls per operation", "undefined behaviour detected by the interpreter", "state after an unwound call"])

prop("C28", "An execution is the same on every kind of host computer",
 "The same operations with the same host behaviour make the same calls with the same addresses, data and times, leave the same registers, print the same texts and save byte-identical snapshots on a 32-bit and on a big-endian host computer as on a 64-bit little-endian one.",
 ["configurations", "histories", "programs"],
 "every sequence of operations, on every byte order and word size",
 "Tests run on one kind of computer only.",
 ["src/cpu/registers.rs", "src/z80/internal.rs", "src/host.rs", "src/z80/flavours.rs", "src/cpu/debug.rs"],
 [("byte order of register pairs and 16-bit accesses", "src/cpu/registers.rs, src/z80/internal.rs, src/host.rs")],
 ["host calls", "registers", "texts", "saved forms"])

prop("C29", "A user-defined processor variant is consulted exactly as promised",
 "A processor of a user-defined Flavour calls its begin_instruction once before every instruction (a prefix byte counts as one) and every accepted interrupt or NMI, and not when nothing is executed; flags_modified is called by exactly those instructions that compute flags; SCF and CCF take bits 3 and 5 of F from get_q given the accumulator and the flags before them; memptr_mix given the accumulator and the low byte of the address sets MEMPTR in LD (nn),A, LD (BC),A, LD (DE),A and OUT (n),A; CONSTANT_OUT_DATA is what OUT (C),(HL) puts on the bus; ACCEPTING_INT_RESETS_IFF2_EARLY decides what LD A,I and LD A,R report; reset is called once by every reset and construction; the state of the variant survives clones and snapshots and is converted by From when the variant changes; and everything else is the same as in the built-in variants.",
 ["programs", "histories", "schedules"],
 "every program and every history of host calls, for every variant a user may define",
 "Tests only know the built-in variants and look at single calls.",
 ["src/z80/flavours.rs", "src/z80/internal.rs", "src/z80/opcodes.rs", "src/z80/macros.rs", "src/z80/instructions.rs", "src/z80.rs", "src/z80/any.rs", "src/z80/serde.rs"],
 [("calls of the variant", "src/z80/opcodes.rs, src/z80/internal.rs, src/z80/macros.rs, src/z80.rs"), ("conversions and saved forms", "src/z80.rs, src/z80/any.rs, src/z80/serde.rs")],
 ["calls received by the variant", "registers", "memory", "I/O"])

prop("C30", "Several processors in one program never influence each other",
 "Whatever other processors of the same or another variant do in the same program, between the calls to one processor, inside the host callbacks of its calls, on other threads, or after it has been moved to another thread, a processor makes the same calls to its host at the same times, returns the same results and leaves the same registers and memory as when it is alone.",
 ["schedules", "histories", "programs"],
 "every interleaving of the operations of several processors, at call and at host-callback granularity",
 "Tests use one processor at a time; shared state shows only when two are in the middle of an operation.",
 ["src/z80/internal.rs", "src/z80.rs", "src/z80/any.rs", "src/cpu.rs", "src/host.rs", "src/z80/macros.rs", "src/z80/instructions.rs"],
 [("all processor state lives in the processor", "src/z80.rs, src/z80/internal.rs, src/z80/instructions.rs")],
 ["host calls", "results", "registers", "memory"])

prop("C31", "An execution is the same however the library was built",
 "The same operations with the same host behaviour make the same calls with the same addresses, data and times, return the same results and leave the same registers, whichever of its features the library is built with (including none) and whatever the optimisation level and run-time checks (debug assertions, overflow checks); in none of these builds does it crash or panic where another one continues.",
 ["configurations", "histories", "programs"],
 "every sequence of operations, in every build configuration",
 "Tests run in one configuration, with checks on; what users ship is built without.",
 ["src/z80/internal.rs", "src/z80/macros.rs", "src/z80/ops.rs", "src/z80/instructions.rs", "src/host.rs", "src/cpu/parse.rs", "src/cpu/debug.rs", "src/lib.rs"],
 [("conditional compilation and checked arithmetic", "src/z80/macros.rs, src/z80/internal.rs, src/host.rs, src/cpu/registers.rs")],
 ["host calls", "results", "registers", "texts", "crashes"])

prop("C32", "Comparing, copying and printing a processor tell the truth",
 "Two processors of the same variant whose refresh counters have been normalised compare equal when one is a copy of the other, and never when a register, flip-flop or pending condition differs; those that compare equal have the same future whatever history brought each of them there; processors of different variants chosen at run time never compare equal. A copy, also one made over an existing processor, goes its own way without touching the original. The debug form prints the values the processor holds. Comparing, copying, printing and normalising change nothing observable.",
 ["histories", "programs", "inputs"],
 "every pair of reachable processor states, whatever the histories",
 "Tests compare a few fresh or loaded processors; a field left out shows only with states that differ in just that field.",
 ["src/z80.rs", "src/z80/any.rs", "src/z80/debug.rs", "src/z80/flavours.rs", "src/cpu/registers.rs", "src/cpu/parse.rs"],
 [("equality, copies and debug form of the processor", "src/z80.rs, src/z80/debug.rs, src/z80/any.rs")],
 ["results of == and !=", "debug form", "registers", "host calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
