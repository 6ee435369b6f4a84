#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T1 = "deterministic simulation: whole compiler in a simulated OS, seeded fault and schedule search"
T2 = "deterministic simulation: compiled code on a simulated machine, seeded interruption and hostile-environment search"
A1 = "Seeded search, no exhaustiveness. Trusts the simulated file system, allocator and clock (POSIX semantics of the calls the compiler makes), gcc and libc. "
A2 = "Seeded search, no exhaustiveness. Trusts the host processor's single-step trap, gcc for the foreign side, and the simulator's frame and object maps. "
NOTE = {
 "C01": (T1, A1 + "Oracle: output bytes of the fault-free run of the same command."),
 "C02": (T1, A1 + "Oracle: fault-free run, or a run on exactly the bytes that were delivered."),
 "C03": (T1, A1 + "Oracle: bounded system calls and processor time, exit status and message of every run."),
 "C04": (T1, A1 + "Oracle: file tree before and after every run."),
 "C05": (T1, A1 + "Oracle: file tree before the run and outputs of the fault-free run."),
 "C06": (T1, A1 + "Oracle: the same command on a clean tree."),
 "C07": (T1, A1 + "Oracle: the same command in another simulated world."),
 "C08": (T1, A1 + "Oracle: each command run alone. Interleavings at system-call granularity."),
 "C09": (T1, A1 + "Oracle: each file translated alone, compared up to renaming of compiler-generated labels."),
 "C10": (T1, A1 + "Oracle: the recorded history of files whose contents were delivered to the compiler."),
 "C11": (T1, A1 + "Oracle: an executable reference model of the documented search, applied to the same file system state and faults."),
 "C12": (T1, A1 + "Oracle: local time of an instant the simulated clock handed out, from Python's zone arithmetic."),
 "C13": (T1, A1 + "Oracle: the host-compiled compiler, same seed, same faults: same outputs and the same reads and writes."),
 "C14": (T1, A1 + "Oracle: the one-step build; the linked programs are also executed. The rejection half judges the object kinds the statement names."),
 "C15": (T2, A2 + "Oracle: the same compiled program without interruption."),
 "C16": (T2, A2 + "Oracle: each thread's function alone, and the final value of every object by its only writer."),
 "C17": (T2, A2 + "Oracle: values and registers recorded by foreign trampolines that follow the System V ABI."),
 "C18": (T2, A2 + "Oracle: values and registers recorded by foreign trampolines that follow the Microsoft ABI."),
 "C19": (T2, A2 + "Oracle: the same program compiled by gcc -O0 and driving the same simulated device gives the exact access sequence; what the device returns depends on every access before."),
 "C20": (T2, A2 + "Oracle: the same program compiled by gcc -O0 in the same simulator, jumping after the same numbered step; a jump forced at an arbitrary instruction has to look like a jump after one of the two steps around it."),
 "C21": (T2, A2 + "Oracle: unmapped and canary pages around each object."),
 "C27": (T2, A2 + "Oracle: the stack high-water mark of the first rounds is the limit for thousands of rounds; results of the same program compiled by gcc -O0."),
}
NA = {
 "C22": "a sequential input/output relation of the generated code with no schedule, clock, fault or second party; differential testing or proof would decide it, not simulation. (Interference, ABI, volatile and memory-safety aspects are C15-C21.)",
 "C23": "a pure function of the source text; no nondeterminism or fault to simulate. (Failing cleanly under faults is C03.)",
 "C24": "a pure function of the source text; no nondeterminism or fault to simulate. (File search, clocks and faults during preprocessing are C02, C10-C12.)",
 "C25": "a pure relation between two encoders; no schedule, fault or environment to simulate, and its oracle is an external assembler.",
 "C26": "a pure function of type declarations; no nondeterminism or fault to simulate. (Objects passed across calls are C17-C18.)",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
import sys
sys.path.insert(0, V + "/lib"); sys.dont_write_bytecode = True
import props1
have = dict(props1.ALL)
try:
    import props2; have.update(props2.ALL)
except ImportError: pass
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t, n = NOTE[i]
        checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s" % i, thorough_cmd="python3 checks/run.py %s --tier thorough" % i, technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the simulator for compiled code is not finished; not claimed yet")))
m = dict(version=1, setup_cmd="python3 lib/build.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seams are the system-call and allocator boundary (SIM-1) and the instruction boundary of compiled code (SIM-2).")
with open(V + "/MANIFEST.json", "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
