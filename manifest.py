#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": ("grammar-aware fuzzing with a crash, hang and goroutine leak oracle", "Generated and mutated texts, run through parser, formatter, linter, normalization and comparison in process; panics, hangs (60 s), unrecoverable crashes and leaked goroutines are reported and shrunk."),
 "P02": ("property-based testing: one planted offending token, its place is the oracle", "The generator knows the exact place of the token it planted; positions, flags, excerpt, file name and message are compared with it."),
 "P03": ("model-based property testing: generated model, rendered, parsed, read back", "The oracle is the generated model, normalized by an independent implementation of the documented rules; trusts harness/ref/normalize.go and the renderer."),
 "P04": ("metamorphic testing: two spellings of one schema", "Both spellings are rendered from the same model; everything visible through the API is compared."),
 "P05": ("round-trip property testing of formatter and parser", "Both generated schemas and texts that are accepted by chance; with random indentation."),
 "P06": ("differential property testing against an independent DDL reader", "The reader (harness/ref/ddl.go) shares no code with schemalex and follows the MySQL grammar for the supported subset."),
 "P07": ("model-based property testing: generated migrations executed by a model database", "The database is a model of the documented MySQL rules (harness/ref/exec.go), not a server; see DESIGN.md for what it leaves out."),
 "P08": ("metamorphic testing: equivalent schemas", "Equivalences are generated by rules that are independent of the code under test."),
 "P09": ("differential property testing against a reference diff", "The reference computes the set of necessary statements; both sides are compared as multisets."),
 "P10": ("property-based testing of an invariant over the statement sequence", "Statement order is checked by an executable rule over the statements read by the independent reader."),
 "P11": ("metamorphic testing: repetition, interleaving and comparison of inputs before and after", "All operations are repeated with fresh and shared parsers and other work in between."),
 "P12": ("differential testing of all entry points and both command line tools", "The tools are built from the current tree and run as processes on scratch files."),
 "P13": ("property-based testing: round trip, idempotence and comparison with the formatter", "Linted texts are compared byte for byte with what the statements format to, and parsed again."),
 "P14": ("model-based property testing against reference normalization", "Models are built through the API and parsed; receiver snapshots before and after."),
 "P15": ("model-based property testing: generated files, URIs and git histories in a scratch directory", "The oracle is the content that was written; git repositories are made by the git command in a scratch directory."),
 "P16": ("fault-injecting property testing against a model MySQL server", "A server that speaks the MySQL protocol over in-memory connections, with faults at every step of the conversation."),
 "P17": ("fault injection by property-based testing: readers and writers that fail at a generated byte", "Readers and writers respect the io contracts and fail at any byte."),
 "P18": ("stateful model-based property testing of the model API", "Random call sequences, compared with a plain record after every step."),
 "P19": ("property-based testing of identity against reference signatures", "Pairs of objects, equal or differing in one attribute, including names made to collide."),
 "P20": ("concurrent property testing under the race detector, with sequential results as the oracle", "Schedules are those that occur; the race detector decides happens-before races for the accesses made."),
 "P21": ("property-based testing: every generated script is cut at many places", "The generator knows what is complete at the place of the cut."),
 "P22": ("metamorphic testing: concatenation of scripts with ignored statements", "The oracle is the concatenation of the schemas that were generated."),
 "P23": ("metamorphic property testing: a formatted table against its parts formatted one by one", "The frame around the parts is written by the check itself; indentations include ones that are not white space."),
 "P24": ("metamorphic property testing of resource use: generated kinds of texts at sizes n, 4n and 16n; allocations and processor time compared", "Allocations are exact; processor time is judged with a margin of five, and a suspicion has to be confirmed by two more measurements. Growth is seen up to about 400 KB; comparing schemas is excluded."),
}
done = os.environ.get("DONE", " ".join(sorted(T))).split()
m = {"version": 1, "setup_cmd": "python3 run.py setup",
  "checks": [{"property": p, "quick_cmd": "python3 run.py check %s quick" % p, "thorough_cmd": "python3 run.py check %s thorough" % p,
    "technique": T[p][0], "level": "exploration", "level_note": T[p][1]} for p in sorted(T) if p in done],
  "not_applicable": [{"property": p, "reason": "check is being built"} for p in sorted(T) if p not in done],
  "notes": "All checks are run by run.py, which builds harness/ (a Go module that uses /repo by a replace directive) from the current tree. 'python3 run.py replay FILE' repeats a violation. MANIFEST.json is written by manifest.py."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
