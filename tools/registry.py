"""Source of properties.jsonl and MANIFEST.json (run tools/generate.py after a change)."""

R = []


def P(id, title, statement, over, text, why, files, mech, how, note):
    R.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=files.split(), mech=mech, how=how, note=note))


GR = "rosemary/graphs/algorithms/"
NT = "rosemary/number_theory/"
CO = "rosemary/combinatorics/"
ALG = "rosemary/algebra/"

P("P01", "Graph objects behave as undirected weighted simple graphs under every history",
  "After every sequence of vertex and edge additions, deletions and neighborhood removals, every query of a graph (vertices, edges, weights, degrees, neighborhoods, density, matrices) answers exactly as the mathematical weighted graph built by the same sequence, and invalid operations raise their documented errors without changing it. Copies, induced subgraphs and complements equal their definitions and share no state with the original.",
  "histories inputs", "every sequence of mutations of one graph, or of two graphs where one was derived from the other, and every query afterwards",
  "the tests build a few fixed graphs and query them once; nothing quantifies over mutation orders, re-insertion, deletion of absent elements, or aliasing between a graph and its copies",
  "rosemary/graphs/graphs.py", [("adjacency dictionaries kept symmetric by every mutator", "rosemary/graphs/graphs.py:Graph")],
  "explicit-state exploration of operation histories on real Graph objects against a set model",
  "Exhaustive for every history of the stated length over the stated operation alphabet; longer histories and other vertex types are extrapolated.")

P("P02", "Priority queues agree with a multiset under every operation history",
  "Under every sequence of insertions, minimum queries, deletions of the minimum, key decreases and merges, the heaps return what a multiset of the same values would, in nondecreasing order, and report their size and emptiness exactly. Operations on empty heaps and on absent values fail as documented, and structures of thousands of elements still work.",
  "histories inputs", "every operation history over the stated alphabet, every construction order and every small content",
  "tests drain a handful of hand-built heaps; heap restructuring depends on the whole history, ties and merge order",
  "rosemary/data_structures/heaps.py", [("leftist rank and pairing rules", "rosemary/data_structures/heaps.py")],
  "explicit-state exploration of heap operation histories against a multiset model",
  "Exhaustive within the history depth and content bounds; the large shapes are fixed families.")

P("P03", "Disjoint sets and counting sieves agree with their set models in every history",
  "After every sequence of unions and finds, two elements have the same representative exactly when the unions connect them, and the named variant reports the name last given to each class. A counting sieve answers every partial sum with the number of unmarked positions so far, whatever was marked in whatever order.",
  "histories", "every sequence of unions, finds, marks and partial-sum queries",
  "tests perform one fixed series of unions; path compression and rank rules depend on order",
  "rosemary/data_structures/unionfind.py rosemary/data_structures/bit_sieve.py",
  [("union by rank with path compression", "rosemary/data_structures/unionfind.py"), ("Fenwick-tree updates", "rosemary/data_structures/bit_sieve.py")],
  "explicit-state exploration of union/find and mark/query histories against a partition and a set model",
  "Exhaustive within the stated sizes and depths.")

P("P04", "Graph constructors and loaders produce exactly the graph they define",
  "Complete, coprime-pairs, grid, odd, Petersen and random graph constructors produce exactly the vertices and edges of their definitions for every size, including the smallest, and random graphs respond to every outcome of their draws. Loading a graph file yields exactly the listed edges and weights, whatever the line endings, headers and repetitions.",
  "inputs configurations", "every size up to a bound, every outcome of the first random draws, every small file over a line alphabet",
  "tests check one or two sizes of each family and no file with duplicates or unusual lines",
  "rosemary/graphs/graphs.py", [("constructors and file loaders", "rosemary/graphs/graphs.py")],
  "bounded-exhaustive enumeration of sizes, files and random outcomes against the definitions",
  "Exhaustive within the size bounds.")

P("P05", "Shortest path algorithms are exact on every graph, source and target",
  "For every graph, source and target, every shortest path algorithm returns the exact distances of exactly the reachable vertices, predecessors that form a tree of shortest paths, and paths of the reported length. Negative cycles that can be reached are reported, and none is reported when there is none; all algorithms agree with each other.",
  "inputs", "every weighted graph up to a size, every source and target, every vertex label kind and insertion order, every small directed weighting with negative arcs",
  "tests compare two or three textbook graphs; ties, disconnected vertices, zero and negative weights and label kinds are not sampled",
  GR + "paths.py", [("relaxation, bucket queues, pairing heaps, bidirectional search", GR + "paths.py")],
  "bounded-exhaustive enumeration of weighted graphs, sources and targets, executing every algorithm against a fixpoint model",
  "Exhaustive for all graphs within the bounds; assumes mutually comparable vertices.")

P("P06", "Minimum spanning trees are minimum; all spanning trees come once, lightest first",
  "On every weighted graph each minimum spanning tree algorithm returns an acyclic set of edges of the graph that spans every component, with minimum total weight and the weight it reports, from whatever root and whatever random vertex choice. The enumeration of spanning trees yields every spanning tree exactly once in nondecreasing order of weight, or just the first of them when asked for a number.",
  "inputs schedules", "every weighted graph up to a size, every root, every outcome of the first random vertex choices",
  "tests check one weight on one graph; ties, forests and the completeness of the enumeration are never covered",
  GR + "spanning_trees.py", [("edge exchanges of the enumeration; set merging of the greedy algorithms", GR + "spanning_trees.py")],
  "bounded-exhaustive enumeration of weighted graphs, roots and random outcomes against exhaustive lists of spanning trees",
  "Exhaustive within the bounds; enumeration asked for connected graphs only.")

P("P07", "Steiner heuristics return trees over the terminals within twice the optimum",
  "For every connected graph with positive weights and every set of terminals, each Steiner heuristic returns a tree of edges of the graph that contains all terminals, has no non-terminal leaves, weighs what is reported and at most twice the optimum. The graph is left unchanged.",
  "inputs", "every small connected weighted graph with every terminal set, and structured families with Steiner points",
  "tests check three instances with known weights; the approximation guarantee quantifies over all of them",
  GR + "steiner_trees.py", [("terminal distance graphs and pruning", GR + "steiner_trees.py")],
  "bounded-exhaustive enumeration of graphs and terminal sets against the exhaustive optimum",
  "Exhaustive within the bounds.")

P("P08", "Searches visit exactly what is reachable, in a legal order; components partition",
  "From every start, breadth-first and depth-first searches visit each reachable vertex exactly once, in an order their definitions allow, and their trees reach the same vertices over edges of the graph (shortest ones for breadth-first). Under a depth limit breadth-first visits exactly the vertices within the limit, depth-first only such vertices (on trees, all of them). Connected components partition the vertices and connectivity is decided accordingly, also on very long paths and when searches are consumed in an interleaved way.",
  "inputs schedules", "every graph up to a size, every start and depth limit, every interleaving of two searches being consumed",
  "tests traverse fixed trees; depth limits, cycles and interleaved consumption are not sampled",
  GR + "traversal.py " + GR + "connectivity.py", [("frontier and visited bookkeeping", GR + "traversal.py")],
  "bounded-exhaustive enumeration of graphs, starts, limits and generator interleavings against reachability",
  "Exhaustive within the bounds.")

P("P09", "Clique enumerations list maximal cliques once; clique optimisation is optimal",
  "Every enumeration of maximal cliques yields each maximal clique of the graph exactly once and nothing else. Every maximum clique and maximum weight clique algorithm returns a clique of the graph of maximum size or weight, with the size or weight it reports, for every labelling and every positive weighting.",
  "inputs schedules", "every graph up to a size under relabellings, every small weighting, every interleaving of two enumerations",
  "tests use a few graphs; pruning bounds fail only on particular vertex orders and weightings",
  GR + "cliques.py", [("branching with bounds and pivots", GR + "cliques.py")],
  "bounded-exhaustive enumeration of graphs and weightings against exhaustive clique lists",
  "Exhaustive within the bounds.")

P("P10", "Colorings are proper and use the colors they report; exact ones are minimal",
  "On every graph, including empty, edgeless and complete ones, every coloring algorithm returns a proper coloring of all vertices with exactly the number of colors it reports, in either output form, whatever vertex order or random choice is used. The exact algorithms use the chromatic number of colors.",
  "inputs schedules", "every graph up to a size under relabellings, every vertex order, every outcome of the first random choices",
  "tests color a few fixed graphs; backtracking exactness and boundary graphs are not covered",
  GR + "coloring.py", [("greedy, saturation and branch-and-bound searches", GR + "coloring.py")],
  "bounded-exhaustive enumeration of graphs, orders and random outcomes against the exhaustive chromatic number",
  "Exhaustive within the bounds.")

P("P11", "Independent set routines return independent sets; exact ones are maximum",
  "On every graph each independent set routine returns a set of pairwise nonadjacent vertices, maximal where promised, of the size it reports; the exact routine returns a maximum one and the enumeration yields every maximal independent set exactly once. This holds whatever random choices are made and on graphs of hundreds of vertices.",
  "inputs schedules", "every graph up to a size, every outcome of the first random choices",
  "tests check two or three graphs", GR + "independent_sets.py", [("complement cliques and greedy removals", GR + "independent_sets.py")],
  "bounded-exhaustive enumeration of graphs and random outcomes against exhaustive set lists",
  "Exhaustive within the bounds.")

P("P12", "Hamiltonian path enumerations are complete and every counter agrees with them",
  "On every graph each enumeration yields every Hamiltonian path exactly once and only those, and every counting method, by search, dynamic programming over vertex subsets or inclusion-exclusion, returns that number.",
  "inputs schedules", "every graph up to a size under relabellings, every outcome of the first random choices",
  "tests count paths on two grids and a complete graph", GR + "hamiltonian_paths.py", [("subset dynamic programming with caches; inclusion-exclusion over walks", GR + "hamiltonian_paths.py")],
  "bounded-exhaustive enumeration of graphs against all permutations of the vertices",
  "Exhaustive within the bounds; a path and its reversal count separately.")

P("P13", "Graphic sequence tests decide exactly which degree sequences are realisable",
  "For every integer sequence, in every order, both tests for graphic sequences answer exactly whether a simple graph with those degrees exists, agree with each other, and leave the sequence unchanged.",
  "inputs", "every integer sequence up to a length and range",
  "tests check a few sequences; odd sums, negative and too large entries and orders are not quantified",
  GR + "degree_sequences.py", [("Havel-Hakimi reduction, Erdos-Gallai inequalities", GR + "degree_sequences.py")],
  "bounded-exhaustive enumeration of sequences against the degree sequences of all graphs",
  "Exhaustive within the bounds.")

P("P14", "Matrix arithmetic is exact, checks shapes, and leaves operands alone",
  "Sums, differences, products, scalar multiples, negations, row and column deletions and determinants of matrices over integers and fractions equal their definitions for all shapes, and incompatible or non-square operands raise the documented errors. No operation changes its operands, and matrices never share rows with each other or with the data they were built from.",
  "inputs histories", "all pairs of small matrices and shapes, all small square matrices for determinants, all short call histories",
  "tests multiply a few square matrices; zero pivots, shape mismatches and aliasing are not reached",
  ALG + "matrices/matrices.py", [("fraction-free elimination with pivoting", ALG + "matrices/matrices.py")],
  "bounded-exhaustive enumeration of matrices and operation histories against the definitions",
  "Exhaustive within the bounds.")

P("P15", "Polynomial ring arithmetic is exact whichever algorithm its size selects",
  "Sums, differences, products, powers, negation, evaluation, comparison, degrees and coefficients of polynomials over integers and fractions obey the definitions of the polynomial ring, mixed freely with numbers on either side, for all operand lengths including the zero polynomial and lengths around the switch between multiplication algorithms. Operands are never changed.",
  "inputs", "all pairs of short coefficient lists, all length pairs around algorithm switches, powers up to a bound",
  "tests multiply two samples; the recursive product has length-dependent branches",
  ALG + "polynomials/polynomials.py " + ALG + "polynomials/algorithms.py", [("recursive Karatsuba product and binary powering", ALG + "polynomials/algorithms.py")],
  "bounded-exhaustive enumeration of coefficient lists and lengths against schoolbook arithmetic",
  "Exhaustive within the bounds.")

P("P16", "Polynomial division identities hold and the gcd of polynomials is the gcd",
  "Pseudo-division of polynomials, and plain division wherever the divisor is monic up to sign or divides exactly, satisfy their identities with a remainder of smaller degree than the divisor; contents and primitive parts multiply back. The greatest common divisor of two integer polynomials divides both, is divisible by every common divisor and vanishes only for two zero polynomials.",
  "inputs", "all dividends and divisors of small degree and coefficients, planted common factors and long remainder sequences",
  "tests divide a couple of samples", ALG + "polynomials/polynomials.py", [("subresultant remainder sequences", ALG + "polynomials/polynomials.py")],
  "bounded-exhaustive enumeration of polynomial pairs against exact rational arithmetic",
  "Exhaustive within the bounds.")

P("P17", "Truncated power series operations agree with exact series arithmetic",
  "Products, powers and inverses of truncated power series have exactly the coefficients of the exact series up to the requested precision, for every length, precision and switch-over threshold, including series with zero constant term where they have powers. The expansions of the eta product and of the modular discriminant have their exact coefficients.",
  "inputs", "all short coefficient lists, all length pairs and precisions around algorithm switches",
  "tests check single examples", ALG + "power_series/power_series.py", [("recursive products, Newton steps, power recurrences", ALG + "power_series/power_series.py")],
  "bounded-exhaustive enumeration of series against schoolbook arithmetic",
  "Exhaustive within the bounds.")

P("P18", "Generators of arrangements list every object exactly once in documented order",
  "Permutations, multiset permutations, partial arrangements, combinations and mixed-radix tuples are generated completely, without repetition, and in the order documented, for all sizes including zero and sizes larger than the set. The input is never changed, and generators consumed in any interleaving do not disturb each other.",
  "inputs schedules", "all multisets up to a size, all radix lists, all interleavings of two generators",
  "tests list a few small cases; boundary sizes, repeated elements and interleaving are not sampled",
  CO + "generation/permutations.py " + CO + "generation/combinations.py " + CO + "generation/tuples.py",
  [("in-place successor rules", CO + "generation/permutations.py")],
  "bounded-exhaustive enumeration of multisets and generator interleavings against itertools-level definitions",
  "Exhaustive within the bounds.")

P("P19", "Integer partitions are enumerated exactly under every combination of constraints",
  "For every integer and every combination of allowed parts, number of parts and distinctness, the generated partitions are exactly the multisets of allowed parts with that sum and number of parts, each listed once.",
  "inputs configurations", "all integers, part sets, numbers of parts and distinctness flags up to a bound",
  "tests list partitions of a few integers without combining constraints",
  CO + "generation/partitions.py", [("recursive descent over sorted parts", CO + "generation/partitions.py")],
  "bounded-exhaustive enumeration of constraints against direct enumeration",
  "Exhaustive within the bounds.")

P("P20", "Counting functions agree with exhaustive enumeration of what they count",
  "Bell and Stirling numbers, binomial and multinomial coefficients, numbers of partitions of integers, of pairs and into powers, domino and triomino tilings and necklaces equal the number of the objects they count, for all arguments including zero and degenerate ones, as single values and as lists.",
  "inputs", "all arguments up to a bound, by listing the objects; recurrences and identities further up",
  "tests compare a few values with published tables",
  CO + "enumeration/enumeration.py", [("recurrences and product formulas", CO + "enumeration/enumeration.py")],
  "bounded-exhaustive enumeration of arguments against explicit enumeration of the counted objects",
  "Exhaustive within the bounds.")

P("P21", "Exact cover solvers find exactly the exact covers; their reductions are exact",
  "For every family of sets each exact cover solver yields every exact cover once and nothing else, whatever the order and type of the elements, and streams of solutions can be consumed in any interleaving. Langford pairings, domino tilings, Latin squares and Sudoku completions obtained through exact cover are exactly the objects they encode.",
  "inputs schedules", "all small set families, all interleavings of solution streams, all puzzles derived from a full grid by blanking and corrupting",
  "tests solve one instance each", CO + "optimization/exact_cover.py", [("dancing-links style cover and uncover with undo", CO + "optimization/exact_cover.py")],
  "bounded-exhaustive enumeration of set systems and solution-stream schedules against subset enumeration",
  "Exhaustive within the bounds.")

P("P22", "Knapsack solvers: exact ones are optimal, all are feasible and honest",
  "For every list of items and every capacity, each exact knapsack solver returns a selection of maximum value within capacity; every solver, heuristic ones under every random choice, returns a feasible selection of given items, each used at most once, worth exactly the value reported.",
  "inputs schedules", "all small item lists and capacities, multisets with ties, all first random outcomes of the heuristic",
  "tests solve two instances", CO + "optimization/knapsack.py", [("branching with bounds, dynamic programming", CO + "optimization/knapsack.py")],
  "bounded-exhaustive enumeration of instances and random outcomes against all subsets",
  "Exhaustive within the bounds.")

P("P23", "Traveling salesman: exact solvers are optimal, heuristics return honest tours",
  "For every set of points or distance matrix the exact solvers return a tour of minimum length, and every heuristic returns a closed tour through all points exactly once with exactly the length it reports, whatever random choices are made. Local search results cannot be improved by reversing any segment and are never longer than the tour started from.",
  "inputs schedules", "all small point sets and distance matrices, starting tours, and outcomes of the first random draws",
  "tests solve a couple of fixed instances", CO + "optimization/tsp.py " + CO + "optimization/genetic_tsp.py",
  [("reduced-matrix bounds, segment reversals, crossover", CO + "optimization/tsp.py")],
  "bounded-exhaustive enumeration of instances and random outcomes against all tours",
  "Exhaustive within the bounds; lengths compared to a relative error of 1e-9.")

P("P24", "The alphametic solver yields exactly the digit assignments that solve the puzzle",
  "For every addition puzzle over words the solver finds a solution exactly when one exists, and everything it yields assigns distinct digits to distinct letters, no leading zeros, and satisfies the sum; all solutions are found, each once.",
  "inputs", "all word shapes and letter patterns up to a bound, and classic puzzles",
  "tests solve two puzzles", CO + "recreational/alphametics.py", [("signature arithmetic over digit permutations", CO + "recreational/alphametics.py")],
  "bounded-exhaustive enumeration of puzzles against all digit assignments",
  "Exhaustive within the bounds.")

P("P25", "Elementary integer arithmetic is exact over the whole integer range",
  "Greatest common divisors and least common multiples with Bezout coefficients, modular powers and inverses, integer roots and logarithms, bit counts, Jacobi symbols and valuations are exact for all integers, negative, zero, and far beyond machine words and floating-point precision, and documented invalid arguments raise errors.",
  "inputs", "all small arguments, and structured arguments around powers up to hundreds of bits",
  "tests sample small values; floating-point shortcuts fail only near large perfect powers",
  NT + "core.py", [("Euclidean and Newton iterations, binary methods", NT + "core.py")],
  "bounded-exhaustive enumeration of arguments (small ranges, neighbourhoods of powers) against Python integer definitions",
  "Exhaustive within the ranges and windows.")

P("P26", "Chinese remaindering returns the one solution below the product of the moduli",
  "For every system of congruences with pairwise coprime moduli, the solution satisfies every congruence and lies between zero and the product of the moduli, for any representatives of the residues, directly or with precomputed data, and in any order.",
  "inputs", "all systems of up to five moduli below bounds with every solution, and large moduli",
  "tests solve two systems", NT + "core.py", [("Garner-style or product reconstruction", NT + "core.py")],
  "bounded-exhaustive enumeration of moduli and residues against the solution planted",
  "Exhaustive within the bounds.")

P("P27", "Primality tests are exact, or err only as documented, for every base drawn",
  "Deterministic primality tests answer exactly; probabilistic tests never reject a prime, whatever bases are drawn, and for a given base accept exactly the numbers satisfying its congruence. The probable prime test combines enough bases to accept no composite below 3*10^24. The next prime is the least prime above the argument, and a random prime is a prime of the requested interval, whatever is drawn.",
  "inputs schedules", "all integers up to a bound and windows further up, all bases, all outcomes of the random draws",
  "tests try a few primes and let the bases be random", NT + "primes/primality.py", [("Miller-Rabin witnesses and trial division, Lucas-Lehmer", NT + "primes/primality.py")],
  "bounded-exhaustive enumeration of integers, bases and random outcomes against a sieve",
  "Exhaustive within the ranges.")

P("P28", "Every prime sieve and generator yields exactly the primes of its range, in order",
  "For every bound all prime sieves return the same list: all primes up to the bound in increasing order; the list of first primes has exactly the requested length, and a range of primes holds exactly the primes from its lower end up to but excluding its upper end, however it is segmented.",
  "inputs", "all bounds up to a limit, bounds around squares, ranges around segment ends",
  "tests compare two or three bounds; wheel and segment boundaries matter for every residue",
  NT + "primes/sieves.py", [("wheels, segments, quadratic forms", NT + "primes/sieves.py")],
  "bounded-exhaustive enumeration of bounds and ranges against a reference sieve",
  "Exhaustive within the ranges.")

P("P29", "Prime counting and prime summing agree with counting and summing the primes",
  "For every bound all prime counting and prime summing methods return exactly the number and sum of the primes up to it, and tables of counts are exact at every entry, including negative, zero and tiny bounds and bounds at perfect squares and cubes.",
  "inputs", "all bounds up to a limit, windows around squares, cubes and fourth powers, published values",
  "tests check a few powers of ten; recursion boundaries lie at perfect powers",
  NT + "primes/prime_counting.py", [("Legendre, Meissel, Lehmer and Lagarias-Miller-Odlyzko recursions", NT + "primes/prime_counting.py")],
  "bounded-exhaustive enumeration of bounds against cumulative sieve counts",
  "Exhaustive within the ranges.")

P("P30", "Every factoring algorithm returns a divisor, nontrivial wherever it promises one",
  "On every composite the complete factoring methods return a nontrivial divisor, and on primes they say so; the randomized methods return a divisor or admit failure, whatever is drawn. Smooth factorizations and dependency searches used by the continued fraction method are exact.",
  "inputs schedules", "all composites up to a bound and semiprimes of windows, all outcomes of the first random draws, all small relation matrices",
  "tests factor a few numbers with random seeds", NT + "factorization/algorithms.py",
  [("trial division, Fermat and Lehman searches, rho cycles, continued fraction relations", NT + "factorization/algorithms.py")],
  "bounded-exhaustive enumeration of integers, random outcomes and relation matrices against divisibility",
  "Exhaustive within the ranges; continued fraction method asked about composites only.")

P("P31", "Factorizations multiply back, are made of primes, and determine the divisors",
  "The factorization of every nonzero integer lists its primes in increasing order with exponents that multiply back to it, whatever method switches are set and whatever is drawn. All divisor lists (all, unitary, prime, pairs, over ranges) are exactly right for integers and factorizations alike, including one and negative integers, and never change a factorization passed in.",
  "inputs configurations schedules", "all integers of a symmetric range, products of primes beyond the precomputed ones, method switches, random draws",
  "tests factor a dozen numbers", NT + "factorization/factorization.py", [("cascade of factoring methods with recursion", NT + "factorization/factorization.py")],
  "bounded-exhaustive enumeration of integers, options and random outcomes against a reference factorization",
  "Exhaustive within the ranges.")

P("P32", "Arithmetic functions equal their definitions as values, tables, ranges and sums",
  "Totient, Moebius, divisor counts and sums, radical, universal exponent and related arithmetic functions equal their definitions for every positive integer, given as an integer or as a factorization, one at a time, as a table, over a range, or summed up to a bound; invalid arguments raise the documented errors.",
  "inputs", "all integers up to a bound, all table lengths, all short ranges, all sum bounds, windows around squares",
  "tests compare a few values; table and sum block boundaries are not sampled",
  NT + "arithmetic_functions/functions.py " + NT + "arithmetic_functions/sieves.py " + NT + "arithmetic_functions/sums.py",
  [("multiplicative formulas, sieves by blocks, hyperbola sums", NT + "arithmetic_functions/sieves.py")],
  "bounded-exhaustive enumeration of integers, table lengths and ranges against definitions",
  "Exhaustive within the ranges.")

P("P33", "Totient preimages are complete and sound",
  "For every positive integer the listed totient preimages are exactly the integers whose totient it is, in increasing order, given an integer or its factorization; invalid arguments raise the documented errors.",
  "inputs", "all integers up to a bound and structured large ones", "tests invert a few values",
  NT + "arithmetic_functions/inverse_functions.py", [("search over divisors plus one that are prime", NT + "arithmetic_functions/inverse_functions.py")],
  "bounded-exhaustive enumeration of values against a totient table of everything that can be a preimage",
  "Exhaustive within the range.")

P("P34", "Primitive roots, orders, roots of unity and discrete logs agree with the powers",
  "Multiplicative orders, primitive roots (least, all, Fibonacci), roots of unity and discrete logarithms agree with the actual powers of the residues for every modulus and residue; where none exists this is reported as documented.",
  "inputs schedules", "all residues of all moduli up to a bound, prime windows, outcomes of random draws",
  "tests check a few primes", NT + "zn_arithmetic.py", [("orders from factored totients, baby-step giant-step and rho logarithms", NT + "zn_arithmetic.py")],
  "bounded-exhaustive enumeration of moduli and residues against power tables",
  "Exhaustive within the bounds.")

P("P35", "Solving congruences yields exactly the residues that satisfy them",
  "Square roots modulo primes, prime powers and composites, and solutions of linear and quadratic congruences, are exactly the residues that satisfy the congruence, listed once in increasing order and in the standard range, whatever random draws are made; no solution means an empty list.",
  "inputs schedules", "all coefficients and moduli up to a bound, all residues, outcomes of random draws",
  "tests solve a few congruences", NT + "zn_arithmetic.py", [("Tonelli-Shanks, lifting and remaindering", NT + "zn_arithmetic.py")],
  "bounded-exhaustive enumeration of moduli, coefficients and random outcomes against all residues",
  "Exhaustive within the bounds; quadratics with nonzero leading coefficient and modulus at least two.")

P("P36", "Continued fractions of quadratic irrationals are exact with least period",
  "Partial quotients, convergents, preperiod and period of every quadratic irrational equal those of the exact continued fraction, with the least preperiod and period, for positive and negative numerators and denominators, and several expansions consumed in any interleaving do not disturb each other.",
  "inputs schedules", "all discriminants and numerators up to a bound, all interleavings of three expansions",
  "tests expand a few square roots", NT + "continued_fractions.py", [("integer recurrence on complete quotients", NT + "continued_fractions.py")],
  "bounded-exhaustive enumeration of irrationals and generator interleavings against exact integer arithmetic",
  "Exhaustive within the bounds.")

P("P37", "Pell equations: fundamental solutions, classes and enumerations are exact",
  "For every nonsquare D and nonzero N the fundamental solution is the least positive one, class representatives generate every solution, and enumerations yield exactly the positive solutions in order up to their bound; unsolvable equations and invalid arguments are reported as documented.",
  "inputs", "all D and N of a window with exhaustive search of solutions up to a bound",
  "tests solve about ten equations", NT + "diophantine_equations/pell.py", [("continued fraction and Lagrange-Matthews-Mollin search", NT + "diophantine_equations/pell.py")],
  "bounded-exhaustive enumeration of equations against exhaustive search",
  "Exhaustive within the bounds.")

P("P38", "Power, square and factorial classification of integers is exact",
  "An integer, given directly or as a factorization, is recognised as a square, perfect power, k-th power, squarefree number or factorial exactly when it is one, with the right root and the largest exponent, for small integers and for integers and their neighbours of hundreds of bits.",
  "inputs", "all integers of a range, all residue classes at 10^18, powers up to hundreds of bits with neighbours",
  "tests check a few integers; residue tables fail on single classes", NT + "classification.py", [("residue tables and integer roots", NT + "classification.py")],
  "bounded-exhaustive enumeration of integers and factorizations against exact roots",
  "Exhaustive within the ranges.")

P("P39", "Bounded divisors, rich integers, Bernoulli numbers and progressions are exact",
  "The largest divisor of n below a bound, the integer with most divisors below a bound, Bernoulli numbers and longest arithmetic progressions in a list of integers equal their definitions for every argument.",
  "inputs", "all pairs n, bound up to a limit, all bounds, all subsets of an interval",
  "tests check single values", NT + "misc.py " + NT + "arithmetic_progressions.py", [("pruned searches over exponents; pair tables", NT + "misc.py")],
  "bounded-exhaustive enumeration of arguments against definitions",
  "Exhaustive within the bounds.")

P("P40", "Answers never depend on earlier calls; memoized functions answer as originals",
  "In one process every call answers as it does when it is the first call, whatever was called before anywhere in the library and whatever the caller did to earlier results, and no call changes its arguments. A memoized function returns what the original returns for the same arguments, including falsy results, computes each at most once, and remembers no failures.",
  "histories", "all ordered pairs of calls over the whole library, all sequences of up to three analyses of one graph object, all call sequences of memoized functions",
  "tests run each function once in isolation; leaked state shows only in histories",
  "rosemary/utilities.py rosemary/graphs/graphs.py " + NT + "factorization/factorization.py", [("no module state is modified; results are fresh objects", "rosemary")],
  "explicit-state exploration of call histories in forked processes against the first-call answers",
  "Exhaustive over ordered pairs of the listed calls.")
