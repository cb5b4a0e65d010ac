#!/usr/bin/env python3
"""Writes MANIFEST.json.  Not needed by any check."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("fuzzing with structured, mutated, random and extreme sources; oracle: termination with a value or errors", "Arbitrary texts, mutated programs and extreme sizes through every entry point, each in a process whose death or hang is confirmed in a fresh one."),
 "C02": ("property-based round trip: generated trees, random legal layouts, parse", "Trees of every construct written in random legal layouts; depth and size bounded by the generator."),
 "C03": ("metamorphic and model-based: operator expressions against a precedence table and their parenthesised forms", "All pairs and triples of operators enumerated, longer ones drawn."),
 "C04": ("differential fuzzing against an independent reference grammar", "Mutated programs, token soups and valid programs; the oracle is a second parser written from the grammar."),
 "C05": ("differential fuzzing against an independent reference scanner", "Arbitrary Unicode texts, lexical garbage and programs."),
 "C06": ("model-based generation of nested blocks and faulty outdents", "Generated block structures with any widths, and planted indentation faults."),
 "C07": ("metamorphic: random edits of comments, blanks, spacing, indentation width and line ends", "Edits at any places of generated and mutated sources."),
 "C08": ("metamorphic: line breaks put into every token boundary, against the joined form", "All boundaries of generated programs, with random decoration."),
 "C09": ("property-based: positions of every node against the token bookkeeping of the generator", "Generated programs in random layouts and errors of mutated sources."),
 "C10": ("property-based: generated literals and words against their values", "Random doubles, digit strings, string contents and words."),
 "C11": ("property-based: generated nests of jumps against a walk over the tree", "Random nests of all enclosing constructs."),
 "C12": ("model-based: generated programs against an independent resolver", "Random programs over few names with deep nesting."),
 "C13": ("model-based and by construction: programs with planted offences", "Every rule in random contexts; errors compared with an independent resolver."),
 "C14": ("enumerated sizes and model-based random programs", "All sizes 0 to 300 of every kind of scope, and random programs."),
 "C15": ("stateful model-based testing of REPL sessions (library and process)", "Random sequences of accepted and rejected lines; a smaller number in the real process."),
 "C16": ("differential: the command's output against the library's result", "Real runs of the command on generated files."),
 "C17": ("differential: the WebAssembly build in node against the native library", "Real calls of parseString in node on generated sources."),
 "C18": ("property-based round trip over styles of map literals", "Generated maps in all styles, with planted repeated keys."),
 "C19": ("metamorphic: calls with and without parentheses, and argument list sizes enumerated", "Generated calls in both styles; sizes around the limit."),
 "C20": ("metamorphic: concatenation of generated sources", "Pairs of generated and mutated programs."),
 "C21": ("fault injection: lexical errors put into generated sources, against the bookkeeping", "Any number of faults of every kind at random places."),
 "C22": ("fault injection: broken statements among good ones, against the bookkeeping", "Random lists of statements with planted faults."),
 "C23": ("metamorphic and model-based: for loops against their while forms", "All combinations of header parts in random contexts."),
 "C24": ("metamorphic: renamings and the comparison of resolved with parsed trees", "Random programs, with and without scoping errors."),
 "C25": ("metamorphic: bodies in braces against indented ones", "Random programs with any mixture of styles."),
 "C26": ("differential between the entry points", "Arbitrary texts with and without final line ends."),
 "C27": ("metamorphic: repeated, after histories and on several threads", "Random histories of sources and concurrent calls."),
}
done = os.environ.get("DONE")
ids = [json.loads(l)["id"] for l in open(f"{root}/properties.jsonl")]
if done: ids = [i for i in ids if i in done.split()]
m = {
 "version": 1,
 "setup_cmd": "./build.sh all",
 "checks": [{
   "property": i,
   "quick_cmd": f"./check.sh {i} quick",
   "thorough_cmd": f"./check.sh {i} thorough",
   "technique": T[i][0], "level": "exploration", "level_note": T[i][1],
 } for i in ids],
 "not_applicable": [],
 "notes": "No hooks in /repo are needed: the checks use its public interface. See DESIGN.md.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1); open(f"{root}/MANIFEST.json","a").write("\n")
