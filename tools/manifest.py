#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json

LIB = "seeded histories on the real library with simulated streams, crashes and restarts, compared with a reference model"
CLI = "the real program under an interposed system interface: seeded thread schedules at every block, load and store, file faults, kills, clocks"
checks = {
    "C01": (LIB, "set of accepted entries checked after every step"),
    "C02": (LIB, "every fragmentation and restart point is drawn from the seed; twin filter that never restarted"),
    "C03": (LIB + "; " + CLI, "device failure at a drawn byte; biased to the last buffered block, the header and block boundaries"),
    "C04": (LIB + "; " + CLI, "damaged and truncated files, failing reads and seeks, allocation limit in proportion to the bytes present"),
    "C05": (LIB + "; " + CLI, "count model on both sides of the capacity, after merges and reloads"),
    "C06": (LIB, "merge trees against one filter holding everything; the count is held to a statistical bound"),
    "C07": (CLI, "bits, parameters and attached data equal to sequential insertion; the element count to a statistical bound when parts are merged"),
    "C08": (CLI, "multiset of printed lines computed in process; failing inputs and outputs"),
    "C09": (CLI, "exit status and bytes of the existing file, for failing inputs, parameters, workers and memory"),
    "C10": (CLI, "command histories killed at drawn calls, torn writes, full disk; acknowledged entries must survive"),
    "C11": (CLI, "bounds on scheduling points and system calls per run, deadlock detection"),
    "C12": (CLI, "capacity, parameters, bits equal to sequential creation"),
    "C13": (LIB, "an independent implementation of both formats takes turns on the same files"),
    "C14": (LIB + "; " + CLI, "metadata-only loads compared with full loads and the stream length"),
    "C15": ("the real library on real threads under an interposed scheduler: switches at every block, load and store", "every answer and the final bytes equal to sequential execution in the order in which the locks were taken"),
    "C16": ("the real extension module in a real interpreter under an interposed system interface with file faults, taking turns with the program and the library on the same files, and other threads of the interpreter let in wherever the module allows it", "returned saves compared byte for byte with the library, failures must raise; damaged and truncated files"),
    "C17": (LIB, "measured rate held to 1.25 times the target plus sampling noise (7 sigma)"),
    "C18": (CLI, "verdict and clock-independent lines equal to those under regular clocks; rates and verdict held to each other exactly and to the true rate of the filter within 8 sigma"),
    "C19": (LIB, "newly created twin, byte equality"),
    "C23": (LIB, "both directions, and statistical bounds (8 sigma) around the number of entries inserted in both"),
    "C25": (LIB, "figures compared with the bytes saved after every step"),
    "C26": (CLI, "largest number of live threads and allocated bytes against jobs and filter size, with room for one more thread and three more copies"),
    "C27": (CLI, "the file changes under the reader through stages recorded from a real insert stopped at its calls; answers compared with the filter before and after"),
    "C24": (CLI, "every file of the directory compared before and after each command, failing and killed ones included"),
}
# scenarios are drawn from the seed; in these, each one is repeated with every single fault
SWEPT = {
    "C03": "every byte of a file as the place where the device fails; every call of a program run, failing once or for good, and every call as the last before the disk is full",
    "C04": "every length a file can be cut to, or every byte at which reading fails",
    "C09": "every call of a program run failing, once or for good, and failing allocations",
    "C10": "a kill at every call of a program run, torn and failing writes",
    "C14": "every byte at which reading fails, every failing seek, every failing call of a program run",
    "C24": "a kill at every call of a program run, and every call failing, once or for good",
}
na = {
    "C20": "pure functions of their arguments: no schedule, clock, fault or I/O for a simulation to decide",
    "C21": "pure formatting function: no schedule, clock, fault or I/O for a simulation to decide",
    "C22": "pure arithmetic on the parameters: no schedule, clock, fault or I/O for a simulation to decide",
}
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
pending = [p for p in props if p not in checks and p not in na]
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check.sh {p}",
            "thorough_cmd": f"./check.sh {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": "deterministic simulation with fault injection: " + t,
            "level": "fault_enumeration" if p in SWEPT else "exploration",
            "level_note": n + (". Scenarios sampled from VERIF_SEED; beside faults drawn with them, some are repeated with each single fault in turn: " + SWEPT[p] + " (at most 600 per scenario; those cut short are counted)." if p in SWEPT else ". Sampled from VERIF_SEED, not exhaustive."),
        }
        for p, (t, n) in checks.items()
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in na.items()]
    + [{"property": p, "reason": "no check yet"} for p in pending],
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
