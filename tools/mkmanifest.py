"""Writes MANIFEST.json."""
import json, jsonschema
T = {
 'C01': ("exhaustive enumeration of numbers x locales on the real code against a UTS #35 model",
         "Every shipped locale on every number of completely enumerated ranges (integers, decimals to 3-5 places, long fractions, boundaries of width and residue). Beyond the ranges nothing is claimed. Trusts the vendored CLDR 37 data and the reference evaluator, which is itself checked on every CLDR sample; recorded findings are matched per locale by their exact deviating semantics."),
 'C03': ("exhaustive enumeration of numeral shapes on the real code against a digit-string model",
         "All digit words over a 5-letter alphabet to length 9 (10), all integers/decimals to a bound, all long shapes with zero runs and 64-bit boundaries. Trusts std's str-to-f64 for the absolute value."),
 'C04': ("exhaustive enumeration of integer values on the real code",
         "Complete for all 8/16/32-bit types; 64-bit types on all magnitudes below 2^26 (2^33) and structured bit patterns."),
 'C05': ("exhaustive enumeration of float bit patterns on the real code against the printed-numeral model",
         "Thorough tier covers every finite f32; f64 on all exponents x structured mantissas and all short decimals with neighbours. Trusts std float printing."),
 'C06': ("exhaustive enumeration of strings to a length bound, judged by a numeral automaton",
         "All strings over four alphabets to depth 5-9 (+1), every code point in five contexts, all single/double insertions into numerals. Longer junk is not claimed."),
 'C07': ("exhaustive enumeration of identifiers against the CLDR locale sets",
         "All 2-3 letter languages with suffixes, 5-8 letter languages over a small alphabet, listed locales x scripts x regions x variants, all 2-3 letter languages x all 2-letter regions (thorough: all 2-letter and listed languages x all 4-letter scripts)."),
 'C08': ("explicit-state exploration of operation histories on the real code (fork-based, fresh-process oracle)",
         "All operation sequences to depth 3 over 51 operations, all ordered pairs over alphabets of up to 8,000 operations, repetitions to 70,000; each result compared with that of a fresh process. Longer histories are not claimed."),
 'C09': ("systematic schedule exploration of the real machine code under a single-stepping scheduler (two threads, preemption bound 1; bounds 2 and 3 and a third thread at the accesses to shared memory; bound 2 everywhere for the shortest calls)",
         "Every instruction boundary of one call with a whole concurrent call run there, for all pairs of the call alphabet, as first calls of the process, with shared objects, and warmed up (long calls at a stride in the quick tier; 430 s time limit, reported in the evidence); two preemptions everywhere for the shortest pairs, two, three and a third thread around every access to shared memory for the pairs that conflict; afterwards a few calls look for what a race left behind; hang detection. Weak-memory effects, more than three threads and preemptions of the third are not explored."),
 'C10': ("exhaustive enumeration of the rule grammar within bounds, replayed on the real parser",
         "All relations, spellings, spacings, and/or structures and numbers within the bounds."),
 'C11': ("exhaustive enumeration of token and character strings and single mutations, replayed on the real parser with a write-back check",
         "All token sequences to depth 5 (6), all character strings to depth 6 (7), all single edits of CLDR lines (every second one in the quick tier) and double edits of short ones."),
 'C12': ("exhaustive enumeration of rule lines, comparing the two parser entry points",
         "As for C11, plus all condition x junk x sample-tail combinations."),
 'C13': ("exhaustive enumeration of sample lists within bounds, replayed on the real parser",
         "All lists to 3 (4) entries over an alphabet of values and ranges, spacings, lengths to 5000. Zeros in sample fractions are a recorded finding (the AST cannot hold them)."),
 'C14': ("exhaustive enumeration of rule sets; generated code is compiled into the consuming library and explored on enumerated numbers against the UTS #35 model",
         "All relation shapes over the alphabets, combinations to three relations, category subsets; each generated rule set is executed on about 10,000 numbers. Recorded findings are matched by their exact deviating semantics."),
 'C15': ("exhaustive lookups in generated tables compiled into the consuming library",
         "32 (more in thorough) tables of 1 to 4,000 locales; every source locale and a set of absent identifiers is looked up and fingerprinted."),
 'C16': ("exhaustive enumeration of input-resource sequences on the real generator against an acceptance model",
         "All sequences of 37 resource kinds to depth 4, of the main kinds to depth 4 (5); 1.4 million edits of a resource (all single ones, all cuts, pairs of a few kinds), judged where names, shapes and the version decide."),
 'C17': ("exhaustive enumeration of presentations of one data set and of generator call histories",
         "All permutations of locales/categories/members of a bounded data set, all call histories to depth 5 (6) against fresh-process results."),
 'C18': ("exhaustive differential exploration of shipped against regenerated tables, both compiled",
         "Every locale and type on all integers and decimals of the enumerated ranges."),
 'C19': ("exhaustive enumeration of tool runs (inputs x output states x flags x faults) on the real binary",
         "All one- and two-file input lists over 11 kinds, 7 output states, unusual output names, absolute and relative, all flags, formatter faults and write faults at enumerated positions, in a scratch directory."),
 'C21': ("exhaustive enumeration of operand records x locales on the real code",
         "All combinations of edge values of n, i, v and f with four patterns of w and t, on every shipped locale and type. Records between the edge values are not claimed."),
 'C22': ("exhaustive enumeration of token strings and edits of rule lines, replayed on the real parser against an independent recogniser",
         "All token sequences to depth 5 (6), all single edits of CLDR lines (every second one in the quick tier) and double edits of short ones, both entry points. Spacing is not judged here."),
 'C23': ("exhaustive exploration of call histories (each stream of calls alone, all pairs, all triples of the light ones) on the real code, one process each, observing the allocator's live bytes",
         "10,379 histories over 26 streams of ever new arguments, each up to 9 windows of 600 to 100,000 turns; growth in all windows is a violation. Mixtures of four and more streams only in the thorough tier; leaks below 2 KB per window are not seen."),
 'C24': ("exhaustive exploration of call histories in processes sealed against system calls, and of the same calls under enumerated environments",
         "676 histories with every outside system call trapped (if the sandbox refuses seccomp this part is skipped and the evidence says so); all streams of calls under 40 environments (directories, times, locales, switches) and under 11 values of every variable that the code asks for."),
 'C20': ("exhaustive enumeration of numbers x locales x argument types on the real code",
         "Every shipped locale and type, every applicable of 27 representations, on enumerated numbers."),
}
T['C02'] = T['C01']
m = {"version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough", "technique": "model checking: " + T[k][0], "level": "model_checking", "level_note": T[k][1]} for k in sorted(T)],
 "not_applicable": [],
 "notes": "No hooks in /repo. Genuine defects repaired in /repo as fix: commits and those recorded instead are listed in known_findings.json."}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
