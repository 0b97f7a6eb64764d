"""What each check builds and how many cases it runs."""
F = ["Feature"]
FC = ["Feature", "Configuration"]
FCS = ["Feature", "Configuration", "Solver"]
PROPS = {
    "C06": dict(srcs=["c06.cpp"], groups=F, quick=100000, thorough=3000000,
                rule="Texts: random expression trees spelled with random spacing, operator spelling and "
                     "redundant parentheses; the same with one or two edits; token sequences; byte strings. "
                     "Non-trivial: a tree with an operator, or any damaged/random text; counted by tree or text."),
    "C07": dict(srcs=["c07.cpp"], groups=F, quick=60000, thorough=2000000,
                rule="Random constraint trees over all operators (part of them well typed), constructed directly and "
                     "inside models. Non-trivial: more than two nodes; counted by tree."),
    "C08": dict(srcs=["c08.cpp"], groups=F, quick=100000, thorough=3000000,
                rule="Sequences of builder calls: spelled-out trees, the same with close-all calls inserted or one "
                     "damage, and random call sequences. Non-trivial: more than two calls; counted by sequence."),
    "C20": dict(srcs=["c20.cpp"], groups=F, quick=60000, thorough=2000000,
                rule="Texts: well-formed step functions in any spacing and side, damaged ones, token sequences, byte "
                     "strings; functions constructed directly. Each is evaluated at 12 reals and 12 integers. "
                     "Counted by text or operands."),
    "C18": dict(srcs=["c18.cpp"], groups=FC, quick=60000, thorough=2000000,
                rule="Histories of option stores (UTF-8 names and values, near-boolean and near-integer values) and "
                     "JSON texts, valid and damaged. Non-trivial: more than one store, or any JSON text; counted by "
                     "history or text.",
                assumptions=["names and values are valid UTF-8 (llvm::json demands it)"]),
    "C21": dict(srcs=["c21.cpp"], groups=F, quick=60000, thorough=2000000,
                rule="Random ranges with near-miss partners, qualified names from a token alphabet, and histories of "
                     "up to 12 location edits; counted by content."),
    "C01": dict(srcs=["c01.cpp"], groups=F, quick=12000, thorough=400000,
                rule="Random descriptions (features of all kinds, trees of several shapes, locations, exclusions, "
                     "constraints over the textual operators, non-identifier names), each written as XML by an own "
                     "writer in random style (option order, edge by parent / child / both / default, white space, "
                     "comments, CDATA, character references, ignored elements). Counted by described model."),
    "C24": dict(srcs=["c24.cpp"], groups=F, quick=15000, thorough=500000,
                rule="Models whose sibling sets exclude one another fully, with one pair missing, one optional child, "
                     "duplicates or text-form exclusions; all 128 cases of three siblings. Counted by model."),
    "C10": dict(srcs=["c10.cpp"], groups=F, quick=30000, thorough=1000000,
                rule="Histories of up to 4 in-place transactions of up to 14 operations (all 12 kinds, subjects by "
                     "name or by pointer, group nodes too) on random models, 40% of them with operations that must be "
                     "refused; some aborted or committed twice. Counted by model and history."),
    "C11": dict(srcs=["c11.cpp"], groups=F, quick=30000, thorough=1000000,
                rule="Copy transactions of up to 16 operations (all kinds, half of them with operations that must be "
                     "refused, subjects by name or by pointer into the original, including its group nodes), "
                     "committed, committed twice, aborted, or committed after the original is gone; valid histories "
                     "are repeated in place. Counted by model and history."),
    "C12": dict(srcs=["c12.cpp"], groups=FCS, quick=20000, thorough=800000,
                rule="Random models with constraints of all kinds and any groups; up to 3 rounds of single removals "
                     "(free function, in place, by copy) and set removals in any order, by name or pointer, recursive "
                     "or not; all 128 subsets of a fixed tree. Counted by model and history."),
    "C09": dict(srcs=["c09.cpp"], groups=F, quick=20000, thorough=800000,
                rule="Random, loaded or already edited models (any groups, several locations, step functions, features "
                     "of no kind); then the clone or the original is edited or destroyed. Counted by model."),
    "C25": dict(srcs=["c25.cpp"], groups=F, quick=20000, thorough=800000,
                rule="Random descriptions played in up to three random call orders, 40% with one fault (feature twice, "
                     "edge or constraint or group naming a missing feature, cycle, root below a feature); an eighth "
                     "of all orders of a small description. Counted by description."),
    "C03": dict(srcs=["c03.cpp"], groups=F, quick=15000, thorough=500000,
                rule="Random models of the XML format (built through the API, loaded or cloned; all attributes, 64-bit "
                     "values, step functions, locations, alternative groups, constraints, texts with markup, white "
                     "space and non-ASCII characters), 12% models beyond the format; files in missing, directory and "
                     "full places. Counted by model."),
    "C15": dict(srcs=["c15.cpp"], groups=FCS, quick=4000, thorough=150000,
                rule="Random trees of up to 9 features (all group kinds, value lists, ranges with step functions, all "
                     "constraint kinds; part loaded from a document) whose configurations are found by brute force; "
                     "larger trees counted in closed form with each configuration judged on its own; every tree and "
                     "grouping of three features. Counted by model."),
    "C16": dict(srcs=["c16.cpp"], groups=FCS, quick=5000, thorough=300000,
                rule="One to three random well-typed constraints over three options and two numeric features, each "
                     "assignment compared with direct evaluation; every operator alone and in pairs; 64-bit extremes. "
                     "Counted by world and constraints.",
                assumptions=["constraints are well-typed (ill-typed ones abort in Z3)", "division is left out"]),
    "C17": dict(srcs=["c17.cpp"], groups=FCS, quick=6000, thorough=250000,
                rule="Histories of up to 27 calls on a solver (features in any order, names, value domains, groups, "
                     "constraints before and during enumeration, validity queries, current / next, repeated and "
                     "misplaced calls), then to the end and beyond; requests for N configurations at all boundaries; "
                     "iterators read several times per place. Counted by model and history.",
                assumptions=["new options are not added once enumeration has begun"]),
    "C04": dict(srcs=["c04.cpp"], groups=F, quick=15000, thorough=600000,
                rule="Random SXFM documents (all line types, nested and nameless groups, ids equal to, inside of or "
                     "different from names, names of any characters, CNF formulas in any spelling) in random style "
                     "(indentation string, base level, blank lines, comments, CDATA, character references, meta), "
                     "half of them again in another dress; every tree of three lines. Counted by described model."),
    "C05": dict(srcs=["c05.cpp"], groups=F, quick=90000, thorough=1200000,
                rule="Valid SXFM documents with one or two damaged tree lines (level, type, colon, cardinality, name, "
                     "order), damaged constraints, other indentation strings, or damaged text (tags, entities, cuts, "
                     "bytes); lines over the format's alphabet; byte strings. A strict own reader decides whether the "
                     "document must load (and as what), must be refused, or is left open. Counted by text."),
    "C02": dict(srcs=["c02.cpp"], groups=F, quick=40000, thorough=1500000,
                rule="Valid XML models with one or two changes inside the grammar (parents, children, names, implied and "
                     "excluded options, constraints, duplicated, removed or moved options), changes of the element tree "
                     "(removed, doubled, renamed, moved elements, attributes, texts), or damaged text (cuts, inserted tags, "
                     "entities, document types, bytes); byte strings. An own reader decides validity, refusal and content, "
                     "or leaves the verdict open. Counted by text."),
    "C26": dict(srcs=["c26.cpp"], groups=F, quick=14000, thorough=600000,
                rule="Histories of up to six steps (transactions of up to eight operations, copy transactions, clones whose "
                     "original is kept, shrunk or destroyed, removals, merges) on constraint-rich models built, loaded from "
                     "XML or from SXFM; every list of every feature is compared with the reference model after each step. "
                     "Counted by start model and history."),
    "C14": dict(srcs=["c14.cpp"], groups=F, quick=7000, thorough=500000,
                rule="Random trees with groups and names clashing in case and around letters, each built in three orders "
                     "(transaction, builder), cloned, edited by transactions; every way of iterating, all pairs compared, "
                     "ordered vectors under random insertions and removals, all 120 insertion orders of a five-feature "
                     "tree; chains, stars and combs of 400. Counted by model."),
    "C13": dict(srcs=["c13.cpp"], groups=F, quick=15000, thorough=600000,
                rule="Pairs of models: the second is the first with features removed, added, moved, changed in kind, "
                     "optionality, values, group membership or locations (in part the first changed too), or another model; "
                     "merged strictly, leniently, the other way round, with themselves and repeatedly, with the inputs "
                     "destroyed; 22 directed differences both ways. Counted by pair."),
    "C19": dict(srcs=["c19.cpp"], groups=["Feature", "Configuration", "Solver", "Sampling"], quick=12000, thorough=500000,
                rule="Random models whose output strings are empty, shared, spaced or made of quotes, backslashes, YAML and "
                     "JSON punctuation, control and non-ASCII characters; up to 120 configurations with absent, selected, "
                     "unselected, numeric and textual values, overwritten options and unknown options, in part the solver's "
                     "own samples. The document is read by LLVM's YAML reader, 400 of them by PyYAML. Counted by model and "
                     "configurations."),
    "C22": dict(srcs=["c22.cpp"], groups=["Feature"], quick=12000, thorough=500000, prepare="prep_c22",
                rule="Random models (groups, all constraint operators, locations, names and output strings with markup, quotes, "
                     "backslashes and braces), also cloned; an own DOT reader compares nodes, cells, edges and groups with the "
                     "reference model, Graphviz reads 360 of the graphs. The instrumented viewer runs on valid and on broken "
                     "files with its options. Counted by model.",
                assumptions=["texts are UTF-8 without control characters"]),
    "C23": dict(srcs=["c23.cpp"], groups=["Feature"], quick=250, thorough=20000, prepare="prep_c23", chunk=4,
                rule="Batches of twelve scenarios executed by both the C++ library and the instrumented Python module: histories "
                     "on loaded models (additions, removals, merges, locations, writing), objects kept after everything above "
                     "them was dropped and memory reused, constraint and model builder call sequences (also broken ones), "
                     "standalone features and locations, good and bad files, 53 misuses. Everything visible is compared. "
                     "Counted by scenario."),
    "C27": dict(srcs=["c27.cpp", "parts:c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20 c21 "
                      "c24 c25 c26"], groups=["Feature", "Configuration", "Solver", "Sampling"], quick=6000, thorough=200000, chunk=25,
                rule="The cases and directed inputs of 24 other monitors and own workloads of failing, refused and abandoned "
                     "operations (damaged documents and texts, unwritable and missing files, broken builders, transactions "
                     "committed, aborted and dropped, enumerations given up), each repeated in one process with the "
                     "allocator's live bytes and the open files read after every repetition. Counted by workload and case."),
    "C28": dict(srcs=["c28.cpp", "parts:c01 c02 c03 c04 c05 c06 c07 c08 c09 c10 c11 c12 c13 c14 c15 c16 c17 c18 c19 c20 c21 "
                      "c24 c25 c26"], groups=["Feature", "Configuration", "Solver", "Sampling"], quick=2400, thorough=60000, chunk=8,
                san="thread",
                rule="Teams of 2 to 5 threads started together: each running cases of 24 other monitors on objects of its own "
                     "(a monitor that fails only next to other threads, or any report of the thread sanitizer, is a "
                     "violation), or all reading one generated model (12 kinds of reads, in different orders, compared with "
                     "the read alone). Counted by the team's tasks and the interleaving in which they began and ended.",
                technique="runtime monitoring: ThreadSanitizer build of the real code, teams of threads on separate and on "
                          "shared models, happens-before race detection and results compared with those of a thread alone",
                note="Held in every schedule observed; the race detector reports unordered accesses of the library code "
                     "also when the schedule did no harm, so what counts is that both accesses were executed. libxml2, Z3 and "
                     "LLVM are not instrumented: what the library does to them shows as wrong results and crashes. Trusts "
                     "that libxml2 was initialized by the program, as it asks for.",
                assumptions=["the program calls xmlInitParser() before it starts threads (libxml2's own rule)",
                             "accesses inside libxml2, Z3 and LLVM are not watched"]),
}
