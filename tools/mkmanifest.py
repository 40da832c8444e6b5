"""Write MANIFEST.json: the claimed checks are the rules of lib/rules.py, everything else is listed as not applicable."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("lockset and lock-order analysis", "Sound over the abstract paths of the summaries; unmodelled external functions are assumed to take no lock."),
"C02": ("lockset analysis of process-wide variables (common lock per variable)", "Decides every static access site in its calling contexts; addresses the analysis cannot name are not attributed to a variable."),
"C03": ("lockset analysis of per-image caches", "Decides every static access site in its calling contexts, identified by the cache it belongs to."),
"C04": ("resource typestate of descriptors and streams over all abstract paths", "Forked at every creation (success, failure); states are merged only when their resource shape agrees."),
"C05": ("ownership analysis: reachability of heap blocks at every return", "Blocks freed or stored through addresses the analysis cannot name are dropped from tracking, so it may miss leaks but does not invent them."),
"C06": ("heap typestate (live, freed, never allocated) over all abstract paths", "May miss violations behind addresses the analysis cannot name."),
"C07": ("allocation-failure path analysis: null and negative results followed to every use", "Every allocation and descriptor creation is forked; violations are reported only on paths whose cause is such a failure."),
"C08": ("error-propagation analysis: failures carried along every abstract path", "Every failure on a path must show in the result; results the analysis cannot classify (merged ranges) are not reported."),
"C09": ("path analysis of how errno was last written", "Sound per abstract path; a saved value the analysis cannot bound is not reported."),
"C10": ("taint (provenance) and effect analysis of image memory: writes, frees and sinks", "Addresses the analysis cannot name are not attributed to the image; a field whose store the analysis saw carries its provenance."),
"C14": ("guarded-access path analysis of the inode's type-specific union", "Every abstract path; an access is reported only when the kinds its guards admit exclude the field's own kinds."),
"C11": ("effect analysis over the call graph", "Complete for direct calls and for calls through stored function pointers of matching type."),
"C12": ("value analysis: symbolic summaries of every decoder, compared with a table of the on-disk layout", "Every path within the loop rounds analysed; terms are compared under many assignments of the recorded bytes, so a difference confined to values none of them takes would be missed."),
"C15": ("symbolic and interval bounds analysis of every write", "Reports a write when its end, over the recorded and passed lengths, can exceed the capacity; unbounded joins that cannot be named are not reported. A deep traversal, a long directory stream and a long scan (names of greatest length) are also followed in one piece with concrete sizes."),
"C13": ("value analysis of the kind, mode and entry-type functions against the fourteen recorded kinds", "Every path under every kind; values the summaries cannot name are not reported."),
"C16": ("ranking and typestate analysis of the recursion of link resolution", "Every abstract path of every function on a cycle that reads links; what bounds the recursion is searched among the integer parameters and the counters behind pointers passed along."),
"C17": ("path analysis of the open functions: what must have been compared before success, and each refusal's own code", "Every abstract path; also that a refused image leaves no memory, descriptor or handle behind."),
"C18": ("escape and retention analysis: what the library still holds when a call returns", "Every abstract exit; memory lent by the caller (or the engine's own locals) found anywhere that outlives the call is reported."),
"C19": ("value analysis: symbolic summaries of the stat functions compared with the recorded attributes", "Terms are compared under many assignments, including ones steered onto each path; a difference no assignment shows is missed."),
"C20": ("value and effect analysis of the handle's position: summaries per call and outcome, and who stores to it", "Terms are compared under many assignments of the position, offset and count; outcomes of the layers below are enumerated."),
"C21": ("value and effect analysis of the directory stream's position and its remembered entries", "Terms are compared under many assignments; outcomes of the layers below are enumerated."),
"C22": ("value analysis of the cache functions: which slot matches, what is evicted, and what a failed load leaves behind", "Every path of the cache functions under each slot state and load outcome; loops over the slots analysed to a fixed number of rounds."),
"C23": ("path analysis of the file events of extraction, with the layers below as functions that succeed or fail", "Every failure point of one extraction and clients of two and three requests; the copy loop analysed to a fixed number of rounds."),
"C24": ("path analysis of a scan over an abstract directory: allocation and selection log, and a fixed point for any size", "Exact contents for up to three entries; for any size, that no entry is left behind and success is reached only at the end."),
"C25": ("path analysis of each sample wrapper under each answer of its tests, with the library and the operating system as call logs", "Argument and result terms compared on every abstract path; text of expanded paths is followed as flow of copies, not byte by byte."),
"C28": ("path analysis of name lookup and of opening at an offset: where the scan starts, what each comparison showed, what is answered", "Every abstract path up to a fixed number of index entries and directory entries; relies on the recorded order of names, which the format requires."),
"C31": ("value analysis of opening a block list at an offset, compared with a walk from the beginning", "Every path under many files and offsets; building the index is followed to its first boundary."),
"C32": ("path analysis of small programs over the traversal, replayed against a reference of what a traversal must do", "Every abstract path of a few steps; directory content, failures and entry kinds are unconstrained, names up to eight bytes so that paths stay comparable."),
"C33": ("path analysis of path and link resolution over abstract texts, callees looked at in the caller's state, replayed against the components of the text", "Every shape of text over separator, dot and unknown distinct letters up to a fixed length plus selected longer ones, with every outcome of each step; longer texts are not enumerated."),
"C34": ("path analysis of small programs that open and close handles and streams, callees looked at in the caller's state, replayed against the set of open handles", "Fixed sequences of up to ten operations and the numbers in them; other sequences are not enumerated. In two sequences every step of an open may fail."),
"C35": ("path analysis of small programs over the containers, callees looked at in the caller's state, replayed against a map and a stack", "Fixed sequences of up to sixteen steps, each container growing several times, with two value sizes; other sequences are not enumerated. In two sequences every allocation may fail."),
"C26": ("assume-guarantee path analysis of each handle function under each kind of invalid number", "All abstract paths under the assumption."),
"C27": ("path analysis of ranged reads, callees in the caller's state, each delivered byte a term that names the recorded byte it is", "Ten file shapes (block sizes 4 KiB, 128 KiB, 1 MiB) and some hundred ranges of each around every boundary, compared at the boundaries and in the middle; block contents stay unknown, what decompression makes of them is taken as given. Files with an index as in C31."),
}
exec(open(os.path.join(H, "tools", "techniques.py")).read()) if os.path.exists(os.path.join(H, "tools", "techniques.py")) else None
NA = {
"C29": "The library has no record of the image's size, so no bound exists in the source that reads could be compared with; the property cannot be established statically for this interface.",
"C30": "Linearizability relates whole concurrent histories; the lock discipline it rests on is decided by C01, C02 and C03, the ordering itself is not statically decidable here (the position of one handle is deliberately unlocked).",
}
sys.path.insert(0, os.path.join(H, "lib"))
claimed = sorted(set(re.findall(r'^@rule\("(C\d\d)"\)', "".join(open(os.path.join(H, "lib", f)).read() for f in sorted(os.listdir(os.path.join(H, "lib"))) if f.startswith("rules")), re.M)))
props = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'lib'); import frontend; frontend.build_irdump()\"",
     "checks": [{"property": c, "quick_cmd": "python3 run.py --property %s" % c, "thorough_cmd": "python3 run.py --property %s --tier thorough" % c,
                 "evidence_file": "evidence/%s.json" % c, "technique": T[c][0], "level": "other", "level_note": T[c][1]} for c in claimed],
     "not_applicable": [{"property": p, "reason": NA.get(p, "No check built yet.")} for p in props if p not in claimed]}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed")
