"""Writes MANIFEST.json."""
import json
import os

TOP = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

REF = "comparison with an independent reference model over randomised runs of the real code"
CHECKS = {
    "C01": ("monitoring of rtcg-read-traces against a reference reader", REF),
    "C02": ("monitoring of the namer against uniqueness and attribution oracles", REF),
    "C03": ("monitoring of rtcg-read-traces and rtcg-make-stms against a reference expansion", REF),
    "C04": ("in-process monitoring of Expand and Collapse, with an independent classifier of mutated trees", REF),
    "C05": ("in-process round-trip monitors with an independent text reader", REF),
    "C06": ("in-process and cross-tool round-trip monitors over stage files", REF),
    "C07": ("monitoring of rtcg-make-stms against an independent well-formedness classifier", REF),
    "C08": ("trace-structure comparison of built state machines with their trees", REF),
    "C09": ("comparison of every state's verdict with the tree", REF),
    "C10": ("in-process algebraic-law monitors and monitoring of built suites against a reference join", REF),
    "C11": ("in-process monitoring of the factoriser against the definition", REF),
    "C12": ("file-system snapshots around runs, and building every generated tree with make, CMake and g++", "Everything written is compared with what the configuration asks for, and built"),
    "C13": ("AddressSanitizer and UndefinedBehaviorSanitizer builds (and valgrind) of generated tests, logs compared online with a model", "Whole run logs are compared with a model of the state machine; memory and undefined-behaviour errors end the run"),
    "C14": ("AddressSanitizer and UndefinedBehaviorSanitizer builds of generated nodes over an event-logging ROS stand-in, histories compared with a model", "Trusts lib/ros_stub as a stand-in for roscpp; whole event histories are compared with a model of the node"),
    "C15": ("execution of generated tests with conversions that log each value, logs compared with a model", "Values that cross conversions are compared with those the model sent and received"),
    "C16": ("independent XML parsing and recorded CMake execution of generated packages", "Fields are compared with the configuration; packages are compared across suites byte for byte"),
    "C17": ("file-system snapshots around runs of rtcg-gen as an unprivileged user", "Everything inside and outside the output directory is compared before and after"),
    "C18": ("repeated-run comparison under varied environments, orders and surroundings", "Go's random map order makes each repetition a new schedule; outputs are compared byte for byte"),
    "C19": ("system-call fault injection into the real tools with an outcome monitor", "Every file of each run is failed in turn at open, read, write, close and creation; where system calls cannot be traced, natural faults only"),
    "C20": ("mutation workloads under panic, race and processor-time monitors", "No crash or hang on the inputs tried; suspects of the in-process monitor are decided by the real tool"),
    "C21": ("Go's race detector over concurrent pipelines and shared reads, results compared with sequential ones", "Held on the interleavings produced; the detector judges by happens-before, not by timing"),
    "C22": ("in-process history monitors against plain models", REF),
    "C23": ("in-process law monitors, and read-back of generated literals by C++ compilers", REF),
    "C24": ("differential monitoring of the tools and rtcg.sh over ways of giving the same input", "Exit status, stdout, trees and unread stdin are observed at the process boundary"),
    "C25": ("in-process comparison of loaded configurations with the intended ones, and monitoring of refusals", REF),
    "C26": ("end-to-end monitoring of sanitizer-built tests generated from traces files, verdicts compared with the traces' text", "Independent of every intermediate stage: the oracle reads the trace only"),
}

man = dict(version=1, setup_cmd="true", checks=[], not_applicable=[],
           notes="No hooks: harnesses are built inside the module through go build -overlay. Repairs are the 'fix:' commits in /repo, listed in known-findings.txt.")
for c, (tech, note) in sorted(CHECKS.items()):
    man["checks"].append(dict(property=c, quick_cmd="VERIF_TIER=quick python3 run.py " + c, thorough_cmd="VERIF_TIER=thorough python3 run.py " + c,
                              technique="runtime monitoring: " + tech, level="fault_enumeration" if c == "C19" else "exploration",
                              level_note=note + ". Held on the executions observed (counted in the evidence), not proved."))
with open(os.path.join(TOP, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
