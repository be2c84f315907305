"""Writes MANIFEST.json from the list of property modules."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = dict(
    C11="trace monitor: recording nodes in the list, their event log checked for order and exactly-once, results judged by a reference evaluator",
    C12="trace monitor plus reference-model monitor under bypass and feature settings",
    C13="differential runtime monitor: every grouping of pixels into calls, permutations, argument types compared bit for bit, differences judged by the reference evaluator",
    C14="state monitor: arguments, files and printed information snapshotted around every operation of a history, threads with forced switches included",
    C17="runtime monitor over all 2^16 half codes and generated 32/64-bit patterns against struct-based decoders",
    C20="fault-injecting runtime monitor over file writing (bytes, gzip members, refused writes, directory contents)",
    C26="offline trace checker over the per-pixel event log of the worker processes, with injected delays; written image judged by a reference evaluator",
    C28="history monitor: random edit histories, the edited object compared with one built afresh and with the reference evaluator",
    C29="runtime monitor: tools run on generated command lines, their output files compared with the library calls",
    C30="runtime monitor: captured output parsed and compared with the specification of the list",
    C31="runtime monitor: recorded calls of the sampled function, stored tables and results compared with the function",
    C32="fault-injecting runtime monitor: complete files and their damaged copies read, refusals and results judged",
    C33="online trace checker over the recorded calls of generated LUT formats, their arguments and the registry's results",
    C34="online trace checker over the calls recorded by generated node and element classes; results, prints and files judged",
    C35="state monitor: results, printed information and documents of original and copy compared before and after edit histories",
    C36="runtime monitor: building blocks called directly through histories of settings, every returned value judged by independent evaluation",
    C37="trace monitor: captured report of verbose calls checked line by line against the values seen by recording nodes",
    C38="runtime monitor over all 2^16 half codes, generated 32/64-bit patterns and bit-depth values, judged by struct-based decoding and exact arithmetic")
DEFAULT = "runtime monitoring: generated and hostile workloads on the real code, every observed result judged online by an independent reference evaluator"
NOTE = "Held on the executions produced (counted in the evidence file); trusts the reference evaluator in vf/ref.py and its float32 noise envelope."
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    p = d["id"]
    if not os.path.exists(os.path.join(V, "vf", "props", p.lower() + ".py")):
        continue
    checks.append(dict(property=p, quick_cmd="./run.sh %s quick" % p, thorough_cmd="./run.sh %s thorough" % p, evidence_file="evidence/%s.json" % p,
                       technique=TECH.get(p, DEFAULT), level="exploration", level_note=NOTE))
m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=[], notes="No hooks in /repo: every monitor works through the public interface, recording ProcessNode subclasses and stand-in modules for OpenImageIO and PyOpenColorIO.")
with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks))
