"""What each check runs: build configurations (S stable / N nightly rules, P pemdas / J pejmdas,
o with compile-time optimisation / n without) and how its evidence counts are to be read."""

ALL = ["SPo", "SPn", "SJo", "SJn", "NPo", "NPn", "NJo", "NJn"]
OPT = ["SPo", "SJo", "NPo", "NJo"]
STABLE = ["SPo", "SPn", "SJo", "SJn"]

MACHINE = ("distinct configurations of the specification's pushdown machine (stack of frames, mode, "
           "values held) reached by the enumerated texts")
MACHINE_T = "steps of that machine over all texts and build configurations"
EXPRS = "distinct expressions (as printed) reached by parsing, folding and simplifying"
CASES = "distinct enumerated inputs"

PLAN = {}


def add(id, quick, thorough, bounds, transitions, states_are, transitions_are, **kw):
    PLAN[id] = dict(configs={"quick": quick, "thorough": thorough}, bounds=bounds, transitions=transitions,
                    states_are=states_are, transitions_are=transitions_are, **kw)


add("C01", ["SPo", "SPn", "SJo", "NPo"], ALL,
    {"texts": "all strings over a 32-character alphabet to length 3 (4 thorough), all token sequences to length 5 (6), every ASCII string of length 2",
     "values": "16 special numbers for every variable of the accepted token sequences",
     "depth": "26 families of nesting to depth 400, 34 of repetition to 1500, words and literals to 100000 characters"},
    ["accepted", "rejected"], CASES, "runs of parse and of everything that follows it (print, compare, evaluate, simplify, bind, render)")
add("C02", ["SPo", "SPn", "SJn"], ALL,
    {"texts": "all token sequences over operators, operands, parentheses and calls to the depth in `cases`, pruned only where the machine's stack admits no valid completion within 2 tokens",
     "sizes": "operands of n bytes of every kind between every two operators, n to 24 and around powers of two to 1024 (to 140 and 5000 thorough)",
     "values": "every operator and built-in on dense values with 44 partners, and on 30 corner values with each other and the numbers of the source, partners as variable and as literal"},
    ["model_steps"], MACHINE, MACHINE_T)
add("C03", ["SPo", "SPn", "SJo", "SJn"], ALL,
    {"texts": "all sequences of juxtaposed operands, operators and parentheses; every identifier/number/parenthesis adjacency",
     "sizes": "operands of n bytes of every kind between every two operators, n to 24 and around powers of two to 1024 (to 140 and 5000 thorough)"},
    ["model_steps"], MACHINE, MACHINE_T)
add("C04", ["SPo", "SPn", "SJn"], ALL,
    {"numbers": "all strings over 0-9 . _ e E + - forming literals to the bound in `cases`, every exponent from -330 to 310, halfway cases of every power of two to 2^127, mantissas to 10000 digits, exponents to 5000 digits",
     "identifiers": "all strings over an identifier alphabet to length 3, each bound in each kind of context"},
    ["model_steps", "names", "pairs"], MACHINE, MACHINE_T + ", and names and pairs of tokens told apart")
add("C05", ["SPo", "SJo", "NPo"], OPT,
    {"shadows": "contexts that redefine every built-in name, used by every text over them",
     "trees": "all expression trees to 2 operators over 7 leaves, 5 unary and 7 binary forms; to 4 operators over smaller alphabets; all tokens sequences to length 5 (6)",
     "values": "grids of 4 to 8 special values per variable, exhaustively combined; 300 to 400 irregular ones for trees to 2 operators",
     "dense": "every operator and built-in on dense values with 44 partners, and on 30 corner values with each other and the numbers of the source, partners as variable and as literal"},
    ["values_compared"], EXPRS, "evaluations compared with the unoptimised reference")
add("C06", ["SPo", "SJo", "NPo"], OPT,
    {"shadows": "contexts that redefine every built-in name, used by every text over them",
     "trees": "all constant trees to 2 operators over 17 leaves, to 3 over 5; every pair of 42 values under every operator; every built-in",
     "dense": "every operator and built-in on dense values with 44 partners, and on 30 corner values with each other and the numbers of the source, partners as variable and as literal"},
    ["constant_expressions", "mixed_expressions"], EXPRS, "constant and partly constant expressions folded and compared")
add("C07", ["SPo", "SPn", "NPo"], ALL,
    {"shadows": "contexts that redefine every built-in name, used by every text over them",
     "histories": "every ordered choice of variables to fix, one by one and together, in place and consuming, on every tree to 2 operators (3 over a smaller alphabet)",
     "values": "grids of 3 to 8 special values per variable, exhaustively combined",
     "dense": "every operator and built-in on dense values with 44 partners, and on 30 corner values with each other and the numbers of the source, partners as variable and as literal"},
    ["values_compared"], EXPRS, "partially evaluated expressions evaluated and compared")
add("C08", ["SPo", "SPn"], STABLE + ["NPo"],
    {"routes": "eval, eval_unchecked, eval_no_vars(_unchecked), bind to bind9, bind_n with 21 sizes to 65, bind_n_runtime; every order of names to 6, every subset used, every repetition of one name; every bound call repeated; all trees to 2 operators, 3 over a smaller alphabet, and chains of unary operators",
     "dense": "every operator and built-in on dense values with 44 partners, and on 30 corner values with each other and the numbers of the source, partners as variable and as literal"},
    ["routes"], CASES, "sets of routes compared")
add("C09", ["SPo", "SPn", "NPo"], ALL,
    {"sets": "every subset of a universe of names for every expression (all trees to 2 operators, 3 over a smaller alphabet); 0 to 600 missing names"},
    ["complete", "incomplete"], CASES, "assignments tried against every checked entry point")
add("C10", ["SPo", "SPn", "NPo"], ALL,
    {"sets": "every subset of a universe of names as declared variables for every expression; every simplification of every expression (all trees to 2 operators, 3 over a smaller alphabet, and chains of unary operators)"},
    ["lists", "simplified"], EXPRS, "declaration lists tried and simplifications taken")
add("C11", ["SPo", "SJn"], STABLE + ["NPo"],
    {"histories": "every sequence of context operations to the depth in `cases`, all reachable contexts of the model, clones observed at every step",
     "probes": "every name through every interface, and equality with 9 neighbouring contexts",
     "redefinitions": "2 and 3 definitions of a name after 0 to 1000 others"},
    ["operations", "probes"], "distinct contexts of the model reached", "operations applied and probes (look-ups through every interface) answered")
add("C12", ["SPo", "SPn", "NPo"], ALL,
    {"shadows": "contexts that redefine every built-in name, used by every text over them",
     "calls": "every count of arguments from 0 to the bound for every arity, and every composition of functions; calls under every operator and pair of operators, counted and logged"},
    ["call_traces", "macro_calls", "compositions", "accepted", "rejected"], "distinct (arity, argument count) pairs and call traces of the model", "calls made and calls refused")
add("C13", ["SPo", "SPn", "NPo", "NPn"], ALL,
    {"names": "every string over the letters of built-in names to length 3 and every edit of every built-in name",
     "values": "every built-in on grids of special values and on 1 to 6 arguments, variadic ones on up to 600 with each special value at each place"},
    ["values", "plain_names", "builtin_names"], "distinct (built-in, arguments) pairs", "values compared and names classified")
add("C14", ["SPo", "SJn"], STABLE + ["NPo"],
    {"edits": "every token inserted, removed, replaced or exchanged with the next in 22 well-formed texts of up to 20 tokens",
     "texts": "all token sequences to the depth in `cases` with multi-byte characters and white space at every place",
     "sizes": "19 mistakes 1 to 10000 characters into a text, 13 in front of up to 65536 characters of 10 kinds; every message rendered to column 16000"},
    ["model_steps"], MACHINE, MACHINE_T)
add("C15", ["SPo", "SPn", "SJo", "NPo"], ALL,
    {"trees": "all trees to 2 operators (3 over smaller alphabets), each also after every simplification to 2 variables over 17 values; all literals m·10^e for e from -330 to 308",
     "dense": "every operator and built-in on dense values with 44 partners, and on 30 corner values with each other and the numbers of the source, partners as variable and as literal"},
    ["round_trips", "values_compared"], EXPRS, "prints parsed again and values compared")
add("C16", ["SPo", "SPn", "NPo"], ALL,
    {"faults": "a panic in every call of a user function, at every place and in every operation of the histories in `cases`"},
    ["fault_runs"], "distinct (history, fault point) outcomes", "runs with one injected fault")
add("C19", ["SPo", "SJn"], STABLE + ["NPo"],
    {"histories": "every sequence of operations to the depth in `cases` against the same operation done first in a fresh process"},
    ["operations"], "distinct histories", "operations whose answer was compared with the answer in a fresh process")
add("C20", ["SPo", "SPn", "NPo"], ALL,
    {"pairs": "all pairs from pools of expressions to 2 operators (3 thorough), all swaps of operands to 1 operator under 5 surroundings; neighbouring constants; pairs across contexts that differ in one definition; pairs that differ in one of two resembling names"},
    ["pairs", "swaps", "reflexive"], CASES, "pairs of expressions compared")
add("C21", ["SPo", "SPn", "SJo"], STABLE + ["NPo"],
    {"names": "every name over an identifier alphabet to length 3, every edit of every built-in name, long names to 70000 characters; each as variable, constant and function and in every interface taking names"},
    ["model_steps", "names", "pairs"], MACHINE, MACHINE_T + ", names and pairs of names told apart")
add("C22", ["SPn", "SJo"], STABLE + ["NPo"],
    {"texts": "all token sequences to the depth in `cases`, each with every white space character in every gap, in all gaps and in none"},
    ["model_steps", "variants"], CASES, "spaced variants compared with the unspaced text")
add("C23", ["SPo", "SPn"], STABLE + ["NPo"],
    {"values": "all pairs (and the triples that equality and order relate) from pools of functions (7 names, 5 arities, 5 bodies, and one body under several names and arities), symbols, contexts (every subset of 6 definitions in two orders), parsers, expressions to 2 operators, parse errors (every text of up to 3 of 15 tokens that is refused), error kinds, evaluation and bind errors"},
    ["pairs", "triples"], "distinct values", "pairs and triples of values compared")
add("C24", ["SPo", "SPn"], STABLE + ["NPo"],
    {"histories": "every sequence of 3 (4 thorough) of 30 operations on a parser, its context, expressions, errors and bound functions, of 4 (6) of 13; the whole life of every token sequence to length 4 (5) and every tree to 2 (3) operators; 20 families to 400 repetitions; every mistake behind and inside texts of up to 260 repetitions"},
    ["observed_runs"], CASES, "runs observed by the allocator")
add("C18", ["SPo"], ["SPo"],
    {"sessions": "every sequence of up to 3 (4 thorough) lines over 12 lines and up to 2 (3) over 40: valid, with variables, malformed, blank, exit in all its variants; with the end of input after every line, in the middle of a line and at every question for a variable; unusable answers, infinities and NaN; every printable character before and after an answer; 45000 lines with every one and two printable characters at the beginning or the end, and commands of other programs; lines to 100000 characters"},
    ["lines_answered"], "distinct session histories", "lines answered and compared with the library and with a session of their own", repl=True)
add("C17", ["TPo"], ["TPo", "TPn", "TJo"],
    {"schedules": "every schedule with at most 2 preemptions (3 thorough) of every pair of 16 operations on shared objects, with at most 1 (2) of every two operations against one, of every three threads, and of every re-entrant operation against another thread",
     "scheduling_points": "every access of instrumented code to a word that two threads access, one of them writing (found by iteration to a fixed point), every call of a user function, the start and end of each operation, every blocking",
     "memory": "sequential consistency; accesses inside the precompiled standard library are not preempted",
     "re-entrance": "every nesting of the operations inside user functions to depth 3 (4), and chains of 4 to 12 (24), 33 and 65 re-entries",
     "types": "Send and Sync of every public type and bound function",
     "turns": "up to 8 threads taking turns in every rotation"},
    ["scheduling_points"], "distinct complete schedules", "scheduling points passed (each a choice of the running thread)", traces="executions",
    assumptions=["the instrumented build (nightly rules, ThreadSanitizer instrumentation with the scheduler as its run-time) behaves as the plain build",
                 "preempting before an access that no other thread conflicts with leads to no new outcome"])
