#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os
MODEL = ("online comparison of monitored executions with an executable specification (plain recursive descent), over generated "
         "programs and hostile inputs")
NOTE = ("No violation on the executions observed; nothing is shown for programs and inputs that were not generated. Trusts the "
        "specification in harness/src/model.rs and the generator's translation of each declaration into it. ")
T = {
 "C01": ("online monitor of random operation histories against an index into the source",
         "Histories over buffers and cursors nested up to five deep; trusts the 40-line reference in bufplay.rs."),
 "C02": ("counting and blocking sources, and a ledger of live elements, under random histories and generated parsers",
         "A source that records each request, compared with the specification's furthest look; live elements counted in long runs."),
 "C03": ("differential monitoring: parse against peek on equal inputs, over generated programs", NOTE),
 "C04": (MODEL + " biased to attempts that fail late", NOTE),
 "C05": (MODEL, NOTE + "Sets and tags cover ASCII, non-ASCII, combining, NUL and all byte values."),
 "C06": (MODEL, NOTE), "C07": (MODEL, NOTE), "C08": (MODEL, NOTE),
 "C09": ("address sanitizer, valgrind memcheck, drop ledger, allocator balance, injected panics",
         "Sanitizers see only what the executions reach; leaks are judged by allocator balance and the ledger (LeakSanitizer is off)."),
 "C10": ("step-counting buffer and watchdog over truncated, mutated and long inputs",
         NOTE + "Termination is judged in logical steps, with a bound of 16 times plain descent, and on processor time only when even these stop."),
 "C11": ("error chains of generated failures compared with the place of failure that the specification finds", NOTE),
 "C12": ("differential monitoring: parse against parse_terminated, and the specification", NOTE),
 "C13": ("differential monitoring over buffers, nested cursors, offsets, prior lookahead and a foreign buffer", NOTE),
 "C14": ("differential monitoring of several layouts and namings of one generated declaration", NOTE),
 "C15": (MODEL + " around the limits of the target types", NOTE),
 "C16": ("digests of monitored executions of one workload in debug and release builds compared", NOTE),
 "C17": ("panics of monitored executions compared with the zero-width repetitions that the specification finds", NOTE),
 "C18": ("monitoring the compiler's diagnostics over generated malformed declarations",
         "The system under test is the macro, executed by the compiler on some 600 malformed declarations each run; the oracle is by "
         "construction (each is a valid declaration with one attribute spoilt)."),
 "C19": (MODEL, NOTE), 
 "C20": ("metamorphic monitoring: ignored tokens inserted where the specification says that they are skipped", NOTE),
 "C21": ("round trip: values printed with random layout, parsed by the real code, compared", NOTE),
 "C22": ("differential monitoring of one shape over chars, bytes and user-defined elements", NOTE),
 "C23": ("digests of repeated, reordered and concurrent executions compared", NOTE + "Schedules are those that eight threads happen to give."),
}
M = {"version": 1, "setup_cmd": "python3 check.py setup",
     "hooks": {"guard": "cfg nommy_monitor", "enable": "RUSTFLAGS=\"--cfg nommy_monitor\" (check.py sets it for every build)",
               "source_commits": ["ee61079d666c8dc50a2edd66da231c6f5f949905"]},
     "checks": [{"property": k, "quick_cmd": "python3 check.py %s" % k, "thorough_cmd": "python3 check.py %s thorough" % k, "technique": t,
                 "level": "exploration", "level_note": n} for k, (t, n) in sorted(T.items())],
     "not_applicable": []}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
