#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (registers every property with a monitor)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "runtime oracle: CSG answers vs quad-precision reference",
 "C02": "runtime oracle on loaded worlds, hostile points",
 "C03": "online flight monitor over recorded transport events",
 "C04": "offline checker: crossings of recorded paths, exactly once",
 "C05": "offline checker: balance and parentage of recorded particles",
 "C06": "offline checker: printed scores vs recorded event logs",
 "C07": "runtime oracle on bin assignment + recorded crossings",
 "C08": "ThreadSanitizer + exactly-once checker over worker logs",
 "C09": "differential replay of recorded histories",
 "C10": "statistical monitor over executed flights, exact laws",
 "C11": "statistical monitor over executed collisions, exact laws",
 "C12": "statistical monitor over executed reactions, exact laws",
 "C13": "runtime oracle + statistical monitor over source particles",
 "C14": "runtime oracle + statistical monitor over scattered directions",
 "C15": "statistical monitor over flights vs quadrature reference",
 "C16": "runtime oracle: majorant vs totals at hostile energies",
 "C17": "runtime oracle: cross sections vs independent reference",
 "C18": "statistical monitor over free-gas collisions, exact kinematics",
 "C19": "runtime oracle: thermal cross sections vs independent reference",
 "C20": "statistical monitor over thermal scatters vs tabulated CDFs",
 "C21": "runtime oracle over generated HDF5 files, fault injection",
 "C22": "fault injection on inputs, outcome monitor in child processes",
 "C23": "AddressSanitizer + UBSan + libstdc++ assertions over workloads",
 "C24": "offline checker: sensitivities vs recorded flights",
 "C25": "black-box monitor of the program vs in-process results",
 "C26": "statistical monitor over random streams of recorded families",
 "C29": "metamorphic monitor: histories of physically equivalent inputs",
 "C30": "resource monitor: memory, files and threads over histories and cycles",
 "C28": "differential monitor: histories of respelled inputs, bit by bit",
 "C27": "statistical monitor: executed histories vs independent simulation",
}
NOTE = {
 "C08": " Schedules are those the tsan and plain builds happened to produce under stress; a race on an unexecuted path is not seen.",
 "C22": " Faults are those of the generator's catalogue, alone and in pairs.",
 "C23": " Memory errors are seen only on executed paths.",
}
BASE = ("Runs the real code (hooks on) under seeded, randomised and hostile "
        "workloads and judges every observation with an oracle that is "
        "independent of it; no violation on the executions explored, whose "
        "number and variety are in the evidence. Trusts the compiler, the "
        "libraries and the monitors' own reference.")
checks = []
for i in range(1, 31):
    p = f"C{i:02d}"
    if not os.path.exists(f"{V}/harness/checks/c{i:02d}.cpp"):
        continue
    checks.append({
        "property": p,
        "quick_cmd": f"python3 run.py {p}",
        "thorough_cmd": f"python3 run.py {p} --tier thorough",
        "technique": TECH[p], "level": "exploration",
        "level_note": BASE + NOTE.get(p, "")})
have = {c["property"] for c in checks}
na = [{"property": f"C{i:02d}", "reason": "its monitor is not built yet"}
      for i in range(1, 31) if f"C{i:02d}" not in have]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "MINIMC_MONITOR",
               "enable": "harness/build.py compiles /repo/src/*.cpp with "
                         "-DMINIMC_MONITOR and links functions that receive "
                         "the observations declared in src/Monitor.hpp",
               "source_commits": ["12acb40999311e4aeca896d4c514be545b86f095"]},
     "checks": checks, "not_applicable": na,
     "notes": "Replay a violation with the command in its replay file."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
