#!/usr/bin/env python3
# Writes MANIFEST.json.
import json
T={
"C01":("property-based testing: grammar-derived expressions with their tree, compared node for node","Every generated expression is valid by construction and its expected tree comes from the derivation, never from the parser."),
"C02":("property-based testing: operator sequences against a reference precedence climber, plus parenthesising metamorphic relation","All ordered operator pairs and triples are enumerated on every run, longer sequences are random."),
"C03":("property-based testing: grammar-derived statement programs with their tree","Expected tree comes from the derivation."),
"C04":("property-based testing: grammar-derived function-heavy programs with their tree","Expected tree comes from the derivation; the context rules for yield/await/strict are the generator's own."),
"C05":("property-based testing: grammar-derived class and object programs with their tree","Expected tree comes from the derivation."),
"C06":("property-based testing: grammar-derived pattern-heavy programs with their tree","Expected tree comes from the derivation."),
"C07":("property-based testing: grammar-derived modules with their tree, and the Script/Module variant","Expected tree comes from the derivation."),
"C08":("property-based testing: literals and directives placed in derived programs, text compared verbatim","Text whose token boundaries the external scanner sees differently is discarded and counted."),
"C09":("metamorphic property-based testing: semicolons left out per the insertion rules, restricted productions, joined statements","The insertion rules are implemented independently in the token renderer."),
"C10":("metamorphic property-based testing: the same tokens in random layouts give the same tree","Layouts preserve exactly the line terminators that matter."),
"C11":("property-based testing: recorded comments in random gaps compared with the handler's calls","Oracle: the list of comments the renderer wrote."),
"C12":("metamorphic property-based testing: concatenation, wrapping and repeated context-sensitive probes","Oracle: trees of the parts."),
"C13":("differential property-based testing: all constructors, setter orders, iterator stepping and parse on the same text","Valid and broken programs."),
"C14":("differential property-based testing: tolerant against non-tolerant on valid and mutated programs, tolerable mistakes planted with their expected tree","Oracle: the non-tolerant parse and the tree of the derivation."),
"C15":("property-based testing: early errors planted at random places of derived programs, with a corrected twin","Rows of the table of early errors; the twin keeps the rejection from being for another reason."),
"C16":("property-based testing: strict-mode rules planted in strict and in sloppy code of derived programs","Strictness of the place is computed by the generator."),
"C17":("property-based testing: truncation, bracket and required-token mutations of derived programs","Only mutations that leave the program incomplete or unbalanced by construction."),
"C18":("property-based testing: a token that cannot occur planted at a known gap, positions from an independent line counter","Oracle: the offset where the renderer put the token."),
"C19":("property-based testing: contextual keywords as names, and renaming metamorphic relation","Oracle: tree of the derivation, and the tree under renaming."),
"C20":("fuzzing: token sequences (random, mutated, truncated, deeply nested) in all modes, crash and step-budget oracle","A deterministic step count (log records of the parser) decides that a parse does not end; wall-clock time decides nothing."),
}
import sys,subprocess
have=[l.split()[0] for l in subprocess.check_output(["harness/target/release/harness","list"],text=True).split("\n") if l]
props=[json.loads(l)["id"] for l in open("properties.jsonl")]
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[]}
for p in props:
    if p in have:
        m["checks"].append({"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","technique":T[p][0],"level":"exploration",
          "level_note":T[p][1]+" Held on every generated case; nothing is claimed about inputs that were not generated. Trusts the scanner crate ress for token boundaries, the tree types of resast, and the generator's reading of ECMAScript 2018 (validated against acorn at development time)."})
    else:
        m["not_applicable"].append({"property":p,"reason":"not built yet"})
json.dump(m,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
