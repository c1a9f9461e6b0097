"""Writes /verif/MANIFEST.json from the table below and properties.jsonl (run by hand when a check is added)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BB = "trusts the project model in lib/proj.py (an independent statement of the documented semantics), the recording recipe, and that the workloads reach the failing schedules/inputs"
T = {
 "C01": ("runtime monitoring: happens-before check of recipe start/end events against a model graph, under injected delays", BB),
 "C02": ("runtime monitoring: exactly-once and conservation check of recipe events and target files, hang watchdog, under injected delays", BB),
 "C03": ("runtime monitoring: recipe events of random build histories compared with an online staleness model", BB),
 "C04": ("runtime monitoring with fault injection: failing, killed and unlaunchable recipes; event order, exit status and hang oracle", BB),
 "C05": ("runtime monitoring of build histories with injected recipe failures; offline check of the event log", BB),
 "C06": ("runtime monitoring: accept/reject oracle from a graph model, with events and file-system snapshots", BB),
 "C07": ("runtime monitoring: differential runs under different schedules, affinities, delays and shuffled directory orders", "differential: no model needed; assumes that injected delays and shuffled readdir reach the orders that matter"),
 "C08": ("runtime monitoring: includes reported by maike compared with a reference lexer that is itself checked against g++ -M; harness under ASan/UBSan", "trusts lib/cxxgen.py's reference lexer as far as g++ -M agrees with it"),
 "C09": ("runtime monitoring: graph and recipe argv observed for tags in random layouts, compared with the tags written; malformed ones must be rejected", BB),
 "C10": ("runtime monitoring and sanitizers (ASan/UBSan, TSan): recording children and /proc descriptor audit in a harness around the real execve, under injected delays", "trusts the recording child tools/vpchild.c; covers the schedules injected delays reach"),
 "C11": ("runtime monitoring: argv recorded by recipes compared with the argument a model computes", BB),
 "C12": ("runtime monitoring: recipe events and tree snapshots of partial builds compared with a model", BB),
 "C13": ("runtime monitoring: snapshots around dry runs; printed commands executed by sh and their argv compared with the recorded one", BB),
 "C14": ("runtime monitoring: dumped configuration compared with a reference merge; round trip and recipe argv", "trusts the reference merge in checks/c14.py"),
 "C15": ("runtime monitoring: loaded tree compared with a reference selection of files", "trusts Python-side evaluation of the filters (with POSIX regcomp through grep semantics) and of suffixes"),
 "C16": ("runtime monitoring: whole-tree snapshots and recipe argv for random spellings of directories and working directories", BB),
 "C17": ("runtime monitoring and sanitizers (TSan, ASan/UBSan): harness that accounts for every task, capture, result and exception of the real thread pool, under injected delays", "schedules reached by stress and injected delays only"),
 "C18": ("sanitizers (ASan, UBSan, LSan) on the real program under hostile inputs and resource limits, and libFuzzer targets for the parsers", "errors are seen only on executed paths; memory errors inside the C/C++ libraries are out of reach"),
 "C19": ("race detector: TSan and ASan (use after return/free) builds of maike2 under injected delays, random projects and failing recipes", "only happens-before races on executed paths are seen"),
 "C20": ("runtime monitoring: harness output compared with Python's json and a model of the store, also under ASan/UBSan", "trusts Python's json module and the store model"),
 "C21": ("runtime monitoring and sanitizers (TSan, ASan/UBSan): stream comparison in harnesses around the real fifo, buffers and redirectors", "schedules reached by stress only"),
 "C22": ("runtime monitoring: both output streams parsed completely and compared with recipe events, under injected delays", BB),
 "C23": ("runtime monitoring: effects of random command lines (recipe argv, log, events, snapshots) compared with a model of the options", BB),
 "C24": ("runtime monitoring: programs built by the real toolchain and recipes are run and their output compared with a model of the sources, over histories of edits", "trusts g++ and the generator's model of program behaviour"),
 "C25": ("runtime monitoring with fault injection: random recipe answers to configure/get_tags; recorded argv and graph compared with the answers", BB),
 "C26": ("runtime monitoring with crash injection: process groups killed at random points; the next build's events compared with a model", BB),
 "C27": ("runtime monitoring with a schedule controller: recipes are held and released one at a time in random orders; the running set compared with the model's ready set at each quiescent point", BB),
 "C28": ("runtime monitoring: printed graph, target list and counts parsed and compared with a model graph, with snapshots", BB),
}
LEVEL = {"C04": "fault_enumeration" if False else "exploration"}
NA = {}
m = {"version": 1,
     "setup_cmd": "python3 lib/build.py all",
     "hooks": {"guard": "MAIKE_VERIF", "enable": "lib/build.py compiles with -DMAIKE_VERIF (no hook is needed at present: everything is observed from outside or through interposed libc calls)", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "see DESIGN.md; 'fix:' commits in /repo are listed in known_findings.json"}
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if os.path.exists(f"{V}/checks/{p.lower()}.py"):
        m["checks"].append({"property": p, "quick_cmd": f"python3 checks/{p.lower()}.py", "thorough_cmd": f"VERIF_TIER=thorough python3 checks/{p.lower()}.py", "evidence_file": f"evidence/{p}.json", "technique": T[p][0], "level": "exploration", "level_note": "Explores as many generated cases as the budget allows; " + T[p][1] + "."})
    else:
        m["not_applicable"].append({"property": p, "reason": NA[p]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
