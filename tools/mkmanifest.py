#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below; properties without a check here go to not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "assumes: the C model of ISAP v2.0 / Ascon-Hash in harness/oracle.c (self-tested against every published known answer at each run); "
ARM = "ARM implementations run under qemu-arm, AVX-512 ones only where the processor has it. "
C = {
 "C01": ("online conformance monitor: executable specification as oracle, structured + comparison-feedback workloads", T + ARM + "Explores hundreds of thousands of inputs per run; says nothing about inputs not run."),
 "C02": ("online conformance monitor: decryption of model-made ciphertexts, structured + comparison-feedback workloads", T + ARM + "Ciphertexts come from the model, so any pairing of implementations is covered."),
 "C03": ("online verdict monitor over forgery workloads, with comparison-feedback steering of tags and lengths", T + "forgeries within the listed families; a forgery succeeding only for one of 2^128 tags unrelated to any comparison in the code is out of reach."),
 "C04": ("write-protected / inaccessible output pages (a transient write faults) and a work monitor over instrumented basic blocks", T + "the work monitor compares growth rates of counted events of rejected and accepted decryption."),
 "C05": ("guard pages, inaccessible outputs, AddressSanitizer and return-value monitor, exhaustive over lengths 0..15", "Lengths are exhaustive, associated data and contents sampled. " + ARM),
 "C06": ("guard pages on both sides, canaries, AddressSanitizer / kernel-address instrumentation with own shadow runtime (ARM), comparison-feedback lengths", "Accesses of the executed paths; ARM assembly rounds are watched by guard pages only. " + ARM),
 "C07": ("UndefinedBehaviorSanitizer, MemorySanitizer, memcheck definedness of every output, dirty-stack differential", "Undefined behaviour of the executed paths as far as the sanitizers model it; pure aliasing violations are only seen through their effect. " + ARM),
 "C08": ("history monitor: results of calls in long mixed histories vs. the history-free model, confirmed in a pristine forked process; inputs write-protected", T + "a wrong result is blamed on history only when a fresh process gives a different one. " + ARM),
 "C10": ("trace monitor: basic-block and address traces compared across secrets; memcheck with secrets marked undefined; single-stepped release build", "Traces are compared for sampled and comparison-derived secrets; memcheck covers all secrets on an executed path. The trace of ARM assembly rounds is covered only by instruction counts. " + ARM),
 "C11": ("online conformance monitor: executable specification as oracle, structured + comparison-feedback workloads", T + ARM),
 "C12": ("placement monitor over all offsets modulo 64, page crossings, null empty inputs; alignment instrumentation; ARM cross builds", T + ARM),
 "C09": ("controlled-interleaving monitor (real threads, hand-over at chosen basic blocks and memory accesses), stress with result comparison, ThreadSanitizer", "Interleavings at instrumentation points: every single hand-over for short calls, sampled for long ones. ThreadSanitizer does not exist for 32-bit ARM; there the controlled schedules and stress decide. " + ARM),
 "C13": ("differential conformance monitor over 12 build configurations per implementation and ARM cross builds", T + "compilers installed here only: gcc 13, clang 18, arm gcc 13. " + ARM),
 "C14": ("probe monitor: nominal lengths up to 2^45 over memory that is inaccessible after a prefix (returning without the fault is a truncation); complete runs over 4 GiB watched part by part", "Complete runs are made where they fit the time budget (fast implementations); the value oracle at 4 GiB is agreement between implementations in the quick tier, the model in the thorough one. 32-bit ARM builds cannot address 4 GiB; their lengths are watched by nominal-length probes only."),
 "C15": ("painted-stack high-water monitor, allocator interposition, system-call traps (seccomp, qemu log), event counting and CPU time over growing lengths", "Growth is judged up to 1 MiB (thorough: 16 MiB). " + ARM),
 "C17": ("interface monitor: buffers of exactly the declared sizes between inaccessible pages, canaries around length outputs, inaccessible unused argument, byte-by-byte influence of every declared field", T + ARM),
 "C19": ("register monitor: calls through a trampoline that sets and compares all registers, caller's stack, control words and modes, with results compared to plain calls", T + ARM),
 "C18": ("online conformance monitor (freestanding, no C library) run on other processor families through user-mode emulation, judged by the executable specification", T + "Little-endian families with a compiler and an emulator here; no AVR (no emulator) and no big-endian (not supported by the optimised code)."),
 "C16": ("register monitor: every register after every instruction of the release build, judged against the tag difference bits", "Registers, not power models: a difference that only exists inside the processor is out of reach. " + ARM),
}
PENDING = {}
checks = [dict(property=p, quick_cmd=f"python3 check.py {p} --tier quick", thorough_cmd=f"python3 check.py {p} --tier thorough",
               evidence_file=f"evidence/{p}.json", technique=t, level="exploration", level_note=n) for p, (t, n) in sorted(C.items())]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(PENDING.items()) if p not in C],
         notes="No hooks in /repo: monitors interpose through the compiler, the linker, the MMU, memcheck and qemu. Every check rebuilds what it runs from /repo's working tree in a scratch directory under /tmp and removes it.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
