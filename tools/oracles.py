ORACLE.update({
 'C03': 'a twin run of the same history by single steps (refinement of sliced runs to stepped runs)',
 'C04': 'a reference model of interrupt acceptance judged at every instruction boundary, plus resumption of the interrupted program',
 'C05': 'a reference model of NMI at every boundary, plus resumption after RETN against an undisturbed twin',
 'C06': 'a closed-form model of the halted processor and of its wake-up',
})
ORACLE.update({
 'C07': 'a list of expected break causes and a twin run without break requests',
 'C08': 'a twin run without a debugger, the reference model\'s instruction bytes and an independent disassembler',
 'C09': 'an uncrashed twin run',
 'C10': 'refuse-or-behave: an accepted damaged snapshot must be a processor that runs and re-saves equally',
 'C11': 'a twin of the statically typed variant',
 'C12': 'a twin run without delays',
 'C13': 'a specification of each transfer and an undisturbed twin run',
 'C14': 'an arithmetic model of the counter and a twin run with the unwrapped host',
 'C15': 'a newly created processor run in parallel',
 'C16': 'an independent disassembler and the bytes of the block',
})
ORACLE.update({
 'C17': 'an arithmetic reference model of the four channels (every zero count, down-count and pulse computed from the programming history); recorded defects are recognised by lockstep with the recorded circuit; a share of the runs puts the part inside the whole computer against its twin',
 'C18': 'a queue model of both hosts (exactly-once in-order bytes, hand-over obligations) and of the channel interrupt logic; the recorded defect is recognised by lockstep with the recorded port; a share of the runs puts the part inside the whole computer against its twin',
 'C20': 'a direct array model of the documented memory map, checked on every access and over the whole address space; a share of the runs puts the part inside the whole computer against its twin',
})
ORACLE.update({
 'C19': 'a model of requests, services and releases along the chain, judged at every poll and acknowledge; a share of the runs puts the part inside the whole computer against its twin',
})
ORACLE.update({
 'C21': 'a second computer (reference processor, peripherals whose time is never rebased) in lockstep over the whole history; recorded defects are recognised by a rerun against the recorded peripherals',
 'C22': 'a second computer that executes instruction by instruction and a specification of each debug command over it; recorded defects are recognised individually',
})
ORACLE.update({
 'C24': 'panic and stall detection (a budget of bus uses per frame), bounds on every reported duration and on the time of every frame end; recorded panics are recognised by their site',
})
ORACLE.update({
 'C23': 'a specification of the control loop that drives a second computer and has to explain every input, output, printed line and look for messages of the thread, and bounds on its pacing against host time',
})
ORACLE.update({
 'C26': 'a reference model of the register interface and of the execution that follows',
 'C27': 'absence of panics and of runaway calls, usability after an unwound call, and an interpreter that detects undefined behaviour',
 'C28': 'the same run on the native host',
 'C29': 'the reference model of a variant unlike any built-in one, and its record of the calls it received',
 'C30': 'the same machine alone',
 'C31': 'the same run in another build',
 'C32': 'registers and common futures of the processors compared',
})
