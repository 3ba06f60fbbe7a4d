"""Developer tool: writes MANIFEST.json.  Not run by any check."""
import json
NOTES = {
 "C01": ("Every load of 2-8 per run is compared byte for byte with what the simulated disk or server held; faults at every kind of open/read call and every kind of server misbehaviour, seeded.", "the origin's content is valid for the charset it names"),
 "C02": ("Output bytes are compared with an independently computed result after every run with faults at operations found by a rehearsal; quick covers some thousands of fault positions.", "fsync/power loss is out of scope: the statement is about completed writes"),
 "C03": ("Results of the four entry points against an independent splice of the generated inputs, with faults on any transfer.", ""),
 "C04": ("Real parser on generated trees against an executable reference model of reading (model.py), all versions, benign I/O schedules.", "single commands behave as the dispatcher of a separate handler does"),
 "C05": ("As C04, with every kind of failing include and both settings of the flags.", "single commands behave as the dispatcher of a separate handler does"),
 "C06": ("The calls received by recording sections are compared with the reference model's event list.", ""),
 "C07": ("Counts, reported line numbers, and settings after every read are compared with the reference model.", "which single lines are acceptable is asked of a separate handler"),
 "C08": ("The same read on a used parser and on a new parser for an equal handler are compared; interruptions are injected at seeded line events.", "an interruption inside a user's object may leave that object as it is"),
 "C09": ("Two or more sessions interleaved by a seeded scheduler at statement granularity (threads under the simulator's control) against each session alone in its own process.", "pre-emption at line granularity of Python code in the library"),
 "C10": ("Verdict of the tool run as a program against the reference model, with faults planned by a rehearsal.", "one known finding is listed in known_findings.txt"),
 "C11": ("What a new process reads from the output against the reference model of the original tree.", "commands come from those which alone survive writing"),
 "C12": ("What a new process reads from each shown or saved text against the reference model of the session.", ""),
 "C13": ("After every step all settings are compared with a reference in which a reset is a new handler plus the state of all other commands, and identity and written text are checked.", "which kept commands are still written after masking is left open"),
 "C14": ("The simulated network records every connection, TLS context and request; they are compared with the reference model's list of fetches.", "TLS is simulated: what is checked is how the context is set up and used"),
 "C15": ("Simulated clock at the end of every fetch, peer silent at every kind of point.", "the limit of five minutes and the slow pattern of 20 s are part of the statement"),
 "C16": ("The same tasks in three separately started interpreters with different seeded hidden state, compared byte for byte.", ""),
 "C17": ("Configurations before saving and after restart are compared, and the text reached must be a fixed point; every stable line of every command and version is used in turn.", "settings that a later use of the same command overrides without effect are not compared"),
 "C18": ("Temporary directory, descriptors and connections after each run with up to three faults.", "removals do not fail; the run is not killed"),
}
NA = {
 "C19": "a pure function from one command line to accept/reject: no concurrency, time, I/O or history for a simulator to schedule or a fault to hit, and the only oracle would be a second copy of the option tables",
 "C20": "a pure round trip of single values through one command's writer and parser; nothing nondeterministic takes part (whole configurations over histories are C17)",
 "C21": "a pure finite mapping of names to numbers and handlers; enumeration decides it, not simulation (what is read from a file to detect a version is C01)",
 "C22": "a pure function of two static tables; its dependence on hidden process state is C16",
 "C23": "a pure function of one line and the static tables; the parts that depend on history, mode and line numbers are C07 and C09",
}
M = {"version": 1,
     "setup_cmd": "python3 -m compileall -q check.py vsim && /opt/venv/bin/python -c 'import six, requests'",
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Every check runs pykickstart from /repo's working tree inside a simulator (vsim/); one run is one seed and one index. "
              "No hooks are needed in /repo: the seams are open(), the os calls, sockets, ssl, time, tempfile, input and thread switches. "
              "Replay a violation with: python3 check.py <id> --replay <path>."}
for p, (n, a) in sorted(NOTES.items()):
    M["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                        "evidence_file": "evidence/%s.json" % p,
                        "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and histories",
                        "level": "exploration",
                        "level_note": n + (" Assumes: " + a + "." if a else "")})
json.dump(M, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("/verif/MANIFEST.json", "a").write("\n")
