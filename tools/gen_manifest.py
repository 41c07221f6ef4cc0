"""Writes MANIFEST.json (run by hand; no check runs it)."""
import json
MC = "bounded exhaustive exploration of the real code in lock-step with an executable reference model"
ST = "bounded exhaustive exploration of the real code (stateless model checking) against an oracle"
note = "Exhaustive within the bounds in DESIGN.md and the evidence file; trusts the reference model/oracle, the explorer and the emulated terminal."
T = {
 "C01": (ST, "model_checking"), "C02": (MC, "model_checking"), "C03": (MC, "model_checking"), "C04": (MC, "model_checking"),
 "C05": (MC, "model_checking"), "C06": (ST, "model_checking"), "C07": (MC, "model_checking"), "C08": (MC, "model_checking"),
 "C09": (MC, "model_checking"), "C10": (MC, "model_checking"), "C11": (MC, "model_checking"), "C12": (MC + ", on an emulated screen", "model_checking"),
 "C13": (MC, "model_checking"), "C14": (ST + " on a real directory tree", "model_checking"), "C15": (ST, "model_checking"), "C16": (ST + " on real files", "model_checking"),
 "C17": ("stateless model checking of the real code: every interleaving of the sessions' system calls, with sleep sets", "model_checking"),
 "C18": ("exhaustive crash-point and torn-write enumeration on the real code", "fault_enumeration"),
 "C19": ("exhaustive enumeration of key sequences and terminal faults on the real read loop", "fault_enumeration"),
 "C20": (MC, "model_checking"), "C21": (ST, "model_checking"), "C22": (ST, "model_checking"), "C23": (MC, "model_checking"), "C24": (MC, "model_checking"),
 "C25": (MC, "model_checking"), "C26": (MC + ", on an emulated screen with colours", "model_checking"),
 "C27": (ST + " on a pseudo-terminal", "model_checking"),
 "C28": (MC + " and real files", "model_checking"), "C29": (ST, "model_checking"),
 "C30": (MC, "model_checking"),
 "C31": ("exhaustive enumeration of failing file operations and torn writes on the real code", "fault_enumeration"),
}
extra = {
 "C17": " Every system call the sessions make on files is a scheduling point; assumes a single O_APPEND write and a rename are atomic, as POSIX file systems make them. One known finding is listed.",
 "C18": " The process dies between or within system calls; what was written before stays (no power loss).",
 "C19": " Failures of one operation, of all from one on, interrupted and short writes.",
 "C16": " Single-line entries not starting with '#'.",
}
json.dump({
 "version": 1,
 "setup_cmd": "./check.sh --build-only",
 "checks": [{"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
   "technique": t, "level": l, "level_note": note + extra.get(p, "")} for p, (t, l) in sorted(T.items())],
 "not_applicable": [],
}, open("/verif/MANIFEST.json", "w"), indent=1)
