#!/usr/bin/env python3
# writes MANIFEST.json
import json

NOTE = "obligations over all inputs, function by function; a bounded comparison of the real code with the executable specification looks for a failing input and is not counted as proved"
checks = {
    "C01": "weakest preconditions of every rule function, action, tokens32.Add, Parse and parseError.Error: no panic, termination, well-formedness, exactly one result",
    "C02": "each rule function recognises exactly what the grammar function of its rule does; Parse accepts iff the grammar does",
    "C03": "each rule function leaves the tree of the grammar function of its rule; Execute runs its actions in order",
    "C04": "the obligations on the trees of the literal and name rules, the integer limit included",
    "C05": "the obligations on the trees of the operator rules; NormalizeOperation for every spelling of every operator, with automata",
    "C06": "Build writes exactly the text of a specification function for every well-formed tree, without panic and with termination; that this text parses back is compared, bounded",
    "C07": "Join returns exactly the text of a specification function for every list of texts",
    "C08": "Visit calls exactly the callback of the type, for unknown callbacks; Init executed for every choice of callbacks that are set, and every default it installs executed for every node of its type, with Visit taken by its contract",
    "C09": "every write of WireMiniQuery and the functions it calls is fixed text, an operator or a quoted column of the schema, and placeholders and values stay equal in number; the condition and the values handed to Where are those",
    "C10": "the recursive rendering writes exactly the text and binds exactly the values that specification functions give for the node; WireMiniQuery hands them to Where once",
    "C11": "the names that are quoted, the relations that are noted and the statement with its joins are exactly those that specification functions give for the node, the search for a field by loop invariants",
    "C12": "WireMiniQuery records an error and adds no condition exactly for the queries that a specification predicate excludes, without panic; GetOrParseSchema fails exactly without model or schema",
    "C13": "Scope applies exactly the conjunction that the contract of Join describes if every query that is not blank is valid, else it records an error and applies nothing; Join as in C07",
    "C14": "the recursive rendering writes exactly the text and binds exactly the arguments that specification functions give for the node, ent's own builder executed with it; Query returns them",
    "C15": "Query records an error and returns neither text nor arguments exactly for the queries that a specification predicate excludes, without panic and with termination",
    "C16": "the obligations on the placeholders and arguments of values, ent's Arg and the formatter of the repository executed with them; the value for the driver is the one bound",
    "C17": "the obligations on has_edge: the step, the selector and the nested builder for an arbitrary graph node, the test of ent as a function of the step and the text of the condition",
    "C18": "the recursive builder pushes exactly the expression that a specification function gives for the node, for every well-formed tree; Build and BuildEntQL return it",
    "C19": "Build, BuildEntQL and ApplyEntQL fail exactly for the queries that a specification predicate excludes, without predicate and without panic; the loop of ApplyEntQL applies the predicates in order up to the first error",
}
pending = {}
props = [json.loads(l) for l in open("properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "hooks": {"guard": "none", "enable": "no hooks: /repo is verified and replayed as it is", "source_commits": []},
    "checks": [],
    "not_applicable": [],
    "notes": "The verifier is govc/, the specification vspec/spec/, the replay harness vspec/cmd/replay/. Defects found are in known-findings.txt.",
}
for p in props:
    i = p["id"]
    if i in checks:
        m["checks"].append({
            "property": i,
            "quick_cmd": "bash check.sh " + i,
            "thorough_cmd": "bash check.sh " + i,
            "technique": "deductive verification of the real code: " + checks[i],
            "level": "proof",
            "level_note": NOTE,
        })
    else:
        m["not_applicable"].append({"property": i, "reason": pending.get(i, "no contracts written yet; see DESIGN.md")})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
