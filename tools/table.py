#!/usr/bin/env python3
"""The properties, and the manifest that claims them. Run from anywhere: rewrites
/verif/properties.jsonl and /verif/MANIFEST.json."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
A = "src/algorithm/two_phase/"
D = "src/data/linear_program/"
L = "src/data/linear_algebra/"
I = "src/io/"
TECH = "model checking: bounded exhaustive exploration of the real code against an exact reference model"
P = []
def prop(id, title, statement, over, text, why, files, mech, level_note, observe=None, technique=TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, note=level_note, technique=technique))

prop("P01", "The two-phase simplex method returns the truth about a program",
     "For every linear program handed over in matrix form (equality, range, upper and lower rows, bounded variables) the solver reports infeasible exactly when no feasible point exists, unbounded exactly when the objective can be improved without limit, and otherwise a point that is feasible and optimal. The answer is exact, whichever basis inverse representation is used, and also for redundant rows, degeneracy and long runs.",
     ["inputs", "configurations"], "all programs in matrix form, with either basis inverse representation",
     "Tests solve a handful of fixed programs; the verdict must hold for every coefficient pattern, including rank-deficient and degenerate ones.",
     [A+"mod.rs", A+"phase_one.rs", A+"phase_two.rs", A+"tableau/mod.rs", A+"tableau/inverse_maintenance/carry/mod.rs", A+"matrix_provider/matrix_data.rs"],
     [("two phases", A+"mod.rs solve_relaxation"), ("ratio test", A+"tableau/mod.rs select_primal_pivot_row"), ("artificial variables and redundant rows", A+"phase_one.rs")],
     "Every program of the listed grids and structured families is solved by the real code with both inverses and compared with an independent exact oracle; bounded by program size (2x3, 3x3 and structured up to 35 rows) and coefficient alphabets.",
     observe="SolveRelaxation::solve_relaxation and MatrixProvider::reconstruct_solution")
prop("P02", "A general-form program is solved to its true optimum",
     "For every general-form program (any mix of equality, range, upper and lower rows; free, one-sided, boxed and fixed variables, lower bounds not above upper bounds; minimise or maximise; constant objective term) standardising, solving and mapping back reports the true verdict, and the returned values satisfy the original rows and bounds, are named as the original variables, and are optimal. The reported objective is that of the returned values including the constant term, with the sign of the equivalent minimisation for a maximisation that reaches the simplex method.",
     ["inputs"], "all general-form programs",
     "Tests check individual conversions on single examples; a wrong shift, sign or order only shows for particular combinations of bounds, kinds and signs.",
     [D+"general_form/mod.rs", D+"elements.rs", A+"matrix_provider/matrix_data.rs"],
     [("variable shifting, flipping and splitting, row sign and order", D+"general_form/mod.rs standardize"), ("back-transformation", D+"general_form/mod.rs compute_full_solution_with_reduced_solution")],
     "All programs on grids up to 2x3/3x2 with all row kinds and seven bound shapes, end to end against an exact oracle.",
     observe="Solution returned by compute_full_solution_with_reduced_solution")
prop("P03", "Presolving never changes the answer",
     "Presolving a general-form program, once or repeatedly, never changes whether it is feasible, whether it is bounded, or its optimal value; when presolving settles the program outright the reported result is the truth. Every feasible vertex of the presolved program maps back to a feasible point of the original program with exactly the objective value reported for it, including the values of removed variables.",
     ["inputs", "histories"], "all general-form programs and all orders in which presolve rules fire on them",
     "Per-rule tests exercise one rule on one program; soundness is about sequences of rules that feed each other through queues, counters and tightened bounds.",
     [D+"general_form/presolve/mod.rs", D+"general_form/presolve/updates.rs", D+"general_form/presolve/counters.rs", D+"general_form/presolve/queues.rs", D+"general_form/presolve/rule/slack.rs", D+"general_form/presolve/rule/domain_propagation.rs", D+"general_form/presolve/rule/bound_constraint.rs", D+"general_form/presolve/rule/fixed_variable.rs", D+"general_form/mod.rs"],
     [("rules", D+"general_form/presolve/rule/"), ("bookkeeping", D+"general_form/presolve/updates.rs"), ("applying changes and reconstructing removed variables", D+"general_form/mod.rs")],
     "All programs on the P02 grids plus four sparse families that trigger rule chains, presolved once and twice; end to end against the oracle and vertex by vertex against the reference model.",
     observe="GeneralForm::presolve, compute_full_solution_with_reduced_solution")
prop("P04", "Standard form is an exact image of the general form",
     "Standardising a general-form program yields a program of non-negative variables and equality rows whose feasible set maps onto the original's: every vertex maps back to a feasible original point with the same objective (up to the sign of a maximisation), the best vertex is as good as the original optimum, and it is empty exactly when the original is.",
     ["inputs"], "all general-form programs and all vertices of their standard form",
     "Tests compare one standardised program with an expected literal; they say nothing about points other than an optimum, or about other sign and bound combinations.",
     [D+"general_form/mod.rs", A+"matrix_provider/matrix_data.rs"],
     [("transform_variables, make_b_non_negative, make_minimization_problem, reorder_constraints_by_type", D+"general_form/mod.rs"), ("virtual slack and bound rows", A+"matrix_provider/matrix_data.rs")],
     "All programs on grids up to 2x2 (thorough: sparse 4x3 too) and all vertices of each standard form.",
     observe="derive_matrix_data as a MatrixProvider; reconstruct_solution; compute_full_solution_with_reduced_solution")
prop("P05", "Scaling is lossless",
     "Scaling a program and scaling it back restores it exactly. Solving the scaled program and scaling the answer back solves the original program, and every vertex of the scaled program maps back to a feasible point of the original with the right objective; scaling never fails, whatever the numbers.",
     ["inputs"], "all programs and the prime factorisations of their numbers",
     "Tests scale a few fixed programs; factors interact between rows, columns, costs, bounds and ranges.",
     [D+"general_form/presolve/scale/mod.rs", D+"general_form/presolve/scale/rational/mod.rs"],
     [("per-factor greedy scaling", D+"general_form/presolve/scale/rational/mod.rs solve_single"), ("application and inverse", D+"general_form/presolve/scale/mod.rs")],
     "All programs on grids up to 2x2 and 3x2 with numbers sharing the factors 2 and 3 and with fractions, scaled after and before standardising.",
     observe="Scalable::scale, Scalable::scale_back, Scaling::scale_back")

T = A+"tableau/"
C = T+"inverse_maintenance/carry/"
M = A+"matrix_provider/"
HIST = "model checking: exhaustive exploration of operation histories of the real code against an exact reference model"
prop("P06", "Both basis inverse representations are exact through every update history",
     "After any history of column replacements, row removals and refactorisations the maintained inverse of the basis, whether as explicit rows or as LU factors with eta updates, equals the exact inverse of the current basis: generating a column, a single element, a row of the inverse or a change of basis gives exactly what that inverse gives.",
     ["histories", "inputs"], "all invertible bases and all sequences of replacements, removals and refactorisations",
     "Tests replay one or two updates on single matrices; an error in a permutation, spike or eta file needs several updates with particular zero patterns.",
     [C+"lower_upper/mod.rs", C+"lower_upper/decomposition/mod.rs", C+"lower_upper/decomposition/pivoting.rs", C+"lower_upper/eta_file.rs", C+"lower_upper/permutation/mod.rs", C+"basis_inverse_rows.rs"],
     [("LU decomposition, forward and backward substitution", C+"lower_upper/"), ("explicit inverse rows", C+"basis_inverse_rows.rs"), ("representation-independent contract", C+"mod.rs BasisInverse")],
     "All histories of a few replacements over small column alphabets from all small invertible matrices, plus all short replacement patterns repeated past the refactorisation threshold (>30 replacements), and all removals of unit columns; dimension up to 5 (structured: 9).",
     observe="BasisInverse: identity, invert, change_basis, generate_column, generate_element, basis_inverse_row, right_multiply_by_row_slice, remove_basis_part, should_refactor", technique=HIST)
prop("P07", "The simplex bookkeeping matches the basis after every step",
     "At every moment of a run, in either phase, the maintained right-hand side, objective value, relative costs and generated columns are exactly those defined by the current basis and the original data; no basic variable is ever negative, and every entering column is improving.",
     ["histories", "inputs"], "all programs and all moments of all runs of the two phases",
     "A wrong bookkeeping value is invisible in an end-to-end test as long as the final basis happens to be right.",
     [C+"mod.rs", T+"mod.rs", T+"kind/artificial/fully.rs", T+"kind/artificial/partially.rs", T+"kind/non_artificial.rs"],
     [("row updates of b, objective and the cost row", C+"mod.rs change_basis"), ("hand-over from phase one to phase two", C+"mod.rs from_artificial, from_artificial_remove_rows"), ("tableau from any basis", C+"mod.rs from_basis")],
     "A monitoring InverseMaintainer intercepts every call of real runs over all programs of the grids; and tableaus are created from every feasible basis in every row order.",
     observe="InverseMaintainer of the running algorithm; Tableau::relative_cost, generate_column, generate_element, objective_function_value, current_bfs")
prop("P08", "Every pivot keeps feasibility and improves by exactly the promised amount",
     "From any feasible basis, bringing in any column with negative relative cost either proves the program unbounded, or leads through the ratio test to a feasible basis whose objective is lower by exactly step length times relative cost; when no column is improving the basis is optimal. Each pivot rule only ever selects improving columns, according to its own criterion, and selects one whenever there is one.",
     ["inputs", "histories"], "all programs, all their feasible bases and all improving columns",
     "Tests follow one path from one start; the ratio test, ties and the choice between columns matter in states such a path never visits.",
     [T+"mod.rs", A+"phase_two.rs", A+"strategy/pivot_rule.rs", C+"mod.rs"],
     [("ratio test with ties", T+"mod.rs select_primal_pivot_row"), ("bring_into_basis", T+"mod.rs"), ("pivot rules", A+"strategy/pivot_rule.rs")],
     "The complete state graph of the second phase (all feasible bases, all improving columns) for every program of the grids with both inverses, and every selection of all four pivot rules during real runs from every feasible basis.",
     observe="Tableau::{select_primal_pivot_row, bring_into_basis, is_in_basis, relative_cost}; PivotRule::{select_primal_pivot_column, after_basis_update}")
prop("P09", "The simplex method terminates under every pivot rule",
     "From every feasible basis of every program, however degenerate, the second phase ends under each of the pivot rules the library offers: it never keeps returning to the same basis, and the verdict it ends with is the same under all rules.",
     ["histories", "inputs"], "all programs, starting bases and pivot rules",
     "Cycling needs particular degenerate programs and orderings; tests never contain one by accident.",
     [A+"strategy/pivot_rule.rs", A+"phase_two.rs", T+"mod.rs"],
     [("degenerate steps", A+"strategy/pivot_rule.rs"), ("tie breaking in the ratio test", T+"mod.rs select_primal_pivot_row")],
     "All degenerate programs of the grids from their slack basis, and textbook cycling programs (Beale, Hoffman, Sierksma, ...) under every permutation of rows and columns from every feasible basis, with revisits of bases counted.",
     observe="phase_two::primal with each pivot rule")
prop("P10", "The first phase decides feasibility and hands over a sound basis",
     "For any provider, with no, some or all rows offering an initial basis column, in any order, the first phase reports infeasible exactly when no feasible point exists; otherwise it names as redundant a set of rows without which the rest has full rank, counts the artificial variables left, and hands over a feasible basis from which phase two starts.",
     ["inputs", "configurations"], "all equality-form programs and all initial bases they may offer",
     "Tests use a few full-rank programs; rank deficiency and partial starting bases interact with the numbering of artificial and removed rows.",
     [A+"phase_one.rs", A+"mod.rs", M+"filter/generic_wrapper.rs", T+"kind/artificial/partially.rs", T+"kind/artificial/fully.rs", C+"mod.rs"],
     [("removal of artificial variables", A+"phase_one.rs remove_artificial_basis_variables"), ("specialisations for partial and full initial bases", A+"phase_one.rs"), ("going on without redundant rows", T+"kind/non_artificial.rs from_artificial_removing_rows")],
     "All equality-form programs of the grids, including rank deficiency up to 4, with every subset of rows offering a unit column in every column order; both inverses.",
     observe="FeasibilityComputeTrait::compute_bfs_giving_im, Tableau::from_artificial, from_artificial_removing_rows")
prop("P11", "Hiding rows of a program gives exactly the program without them",
     "A view of a program from which rows are hidden, at once or one by one in any order, is in every respect the program without those rows: its sizes, columns, right-hand side, costs, bound rows, initial basis and the numbering back to the original rows.",
     ["histories", "inputs"], "all programs, all sets of hidden rows and all deletion orders",
     "Index shifting errors need several hidden rows around an element; tests hide one or two rows of one program.",
     [M+"filter/generic_wrapper.rs", M+"filter/mod.rs", M+"matrix_data.rs", M+"column/mod.rs"],
     [("index arithmetic over sorted hidden rows", M+"filter/generic_wrapper.rs"), ("filtering a column", M+"matrix_data.rs into_filtered")],
     "All subsets and all deletion orders for providers with up to six (thorough: eight) rows with pairwise distinct numbers, including every kind of row and bound of MatrixData.",
     observe="RemoveRows as MatrixProvider, PartialInitialBasis and Filtered", technique=HIST)
prop("P12", "The virtual equality form of a program is laid out as documented",
     "The matrix handed to the simplex method consists of the program's equality, range, upper and lower rows followed by its bound and range rows, with slack columns of the documented signs and positions; every column, however it is read, its costs, the right-hand side, the offered initial basis and the reconstruction of the variables' values agree with that matrix.",
     ["inputs"], "all programs in matrix form and all ways of reading their columns",
     "Tests look at a few columns of two fixed programs; block boundaries coincide or vanish for particular counts of rows, ranges and bounds.",
     [M+"matrix_data.rs", M+"column/mod.rs", M+"variable.rs"],
     [("column groups and block boundaries", M+"matrix_data.rs")],
     "All counts of rows of each kind (up to 4, thorough 5) with all bound patterns, and all zero patterns of small programs, every column of each.",
     observe="MatrixData as MatrixProvider and PartialInitialBasis")

prop("P13", "An MPS file is read as exactly the program it describes",
     "Reading an MPS file gives the program its fields describe: every row with its type, right-hand side and range, every column with its type, coefficients, cost and combined bounds, and the objective sense; sections may repeat and combine as the format allows. A file that contradicts itself (unknown or duplicate names, conflicting bounds, right-hand sides or ranges) is rejected instead of being read as something else.",
     ["inputs"], "all files made of the sections and records of the format",
     "Tests read a few example files; the meaning of a file depends on the order and combination of bounds, ranges, markers and groups.",
     [I+"mps/mod.rs", I+"mps/convert.rs", I+"mps/parse/mod.rs", I+"mps/parse/free.rs", I+"mps/parse/fixed.rs"],
     [("bounds, ranges, right-hand sides combined", I+"mps/convert.rs"), ("section state machine", I+"mps/parse/mod.rs")],
     "Every file of the listed families (sequences of up to 4-5 bounds, up to 3 right-hand side and range values per row, up to 4 rows and columns, markers, sections in any order) in both formats against an independent reading of the fields.",
     observe="parse_free, parse_fixed, conversion of MPS into GeneralForm")
prop("P14", "No input text makes the reader panic",
     "Whatever the text of a file, reading, converting, presolving and solving it ends with a program, a verdict or an error; it never panics, overflows or recurses endlessly, and every error can be displayed together with its causes.",
     ["inputs"], "all texts",
     "Tests feed well-formed files and a few single mistakes; panics sit in combinations such as truncated fields, foreign characters, repeated sections and conflicting records.",
     [I+"mps/parse/mod.rs", I+"mps/parse/free.rs", I+"mps/parse/fixed.rs", I+"mps/convert.rs", I+"error.rs", I+"mps/number/parse.rs"],
     [("line splitting and slicing", I+"mps/parse/fixed.rs"), ("errors and their display", I+"error.rs")],
     "All sequences of listed lines up to length 4-5, all one and two line edits, all one and two character edits and all truncations of three base files, in both formats and for rational and real numbers.",
     observe="parse_free, parse_fixed, TryInto<GeneralForm>, Display and source of the errors, solve")
prop("P15", "Numbers are read exactly or refused",
     "A decimal number text is read as exactly the rational number it denotes, and any other text, or a number that the type cannot hold, is refused with an error; there is no rounding, wrapping or partial reading.",
     ["inputs"], "all number texts",
     "Tests parse a handful of numbers; signs, leading zeros, missing digits and the limits of 64 bits combine in many ways.",
     [I+"mps/number/parse.rs"],
     [("decimal expansion to a fraction", I+"mps/number/parse.rs")],
     "All texts over number characters up to length 7-11, over foreign characters up to length 4-5, and digits around the 64-bit limits, for rationals and floating point; and the numbers inside files.",
     observe="Parse::parse, and the coefficients of programs read from files")
prop("P16", "The layout of a file does not change what is read",
     "The same program is read whatever the layout of its file: free or fixed format, blanks, tabs and line ends, one or two values per line, comments and empty lines anywhere, order of independent records, and whether it is parsed from a text or imported from a file by name. Names with blanks are kept in fixed format.",
     ["inputs"], "all files and all layouts of them",
     "Tests fix one layout per file; layouts interact with section state and with column positions.",
     [I+"mod.rs", I+"mps/parse/free.rs", I+"mps/parse/fixed.rs", I+"mps/parse/mod.rs"],
     [("splitting lines into fields", I+"mps/parse/free.rs"), ("fixed columns", I+"mps/parse/fixed.rs"), ("choice by file extension", I+"mod.rs")],
     "Five kinds of files in every combination of the listed layouts, noise before any one or two lines, every field shape of fixed format, all orders of rows and columns, and ten kinds of file names.",
     observe="parse_free, parse_fixed, io::import")
prop("P17", "The number type of the data does not change the answer",
     "A program whose numbers fit has the same verdict, optimal value and feasible solution values whether its data is held as 32 or 64 bit or as big rationals, with presolve and scaling or without, and whether its numbers were given directly or read from a file and converted from one type to the other.",
     ["inputs", "configurations"], "all programs that fit, in every number type supported for data",
     "Tests fix one type per program, mostly 64 bit; mixed-type arithmetic and comparisons are separate code paths that are used between the parts.",
     [D+"general_form/mod.rs", L+"vector/sparse.rs", I+"mps/convert.rs", I+"mps/number/parse.rs", D+"general_form/presolve/scale/rational/mod.rs", A+"tableau/inverse_maintenance/carry/mod.rs"],
     [("shifting a solution in its own type", L+"vector/sparse.rs shift_value"), ("conversion when reading", I+"mps/convert.rs"), ("mixed arithmetic", A+"tableau/inverse_maintenance/ops.rs")],
     "Every program of five grids (whole and fractional numbers) in Rational32, Rational64 and RationalBig, with and without presolve and scaling and through files, against the exact oracle.",
     observe="GeneralForm<Rational32>, <Rational64> and <RationalBig> solved in RationalBig; parse_free::<Rational64>")

prop("P18", "Vectors and columns behave as the mathematical vectors they stand for",
     "After any history of operations a sparse or dense vector, and any kind of column, equals the mathematical vector it stands for: its length, every element however it is read, inner products, norms, sums, text and equality agree, and a sparse vector never stores a zero or loses its ordering.",
     ["histories", "inputs"], "all vectors and all sequences of operations on them",
     "Tests apply one operation to one vector; mistakes sit in cancellations, empty vectors, first and last positions and sequences of operations.",
     [L+"vector/sparse.rs", L+"vector/dense.rs", L+"vector/mod.rs", M+"column/mod.rs", M+"column/identity.rs"],
     [("merging of sorted entries, shifting, removal of indices", L+"vector/sparse.rs"), ("columns and their iterators", M+"column/mod.rs")],
     "All histories of up to four operations from all vectors of up to four elements over small alphabets, with small and big rationals.",
     observe="Vector, SparseVector, DenseVector, SparseColumn, DenseColumn and IdentityColumn", technique=HIST)
prop("P19", "Sparse matrices behave as the mathematical matrices they stand for",
     "After any history of insertions, removals of rows and columns, concatenations and changes of ordering, a sparse matrix in row or column major ordering equals the mathematical matrix it stands for, however it is read.",
     ["histories", "inputs"], "all matrices, both orderings and all sequences of operations on them",
     "Tests apply one operation to one matrix; index shifts only fail for particular sets of removed rows and columns and for empty ones.",
     [L+"matrix.rs"],
     [("ordering changes, concatenation, removal of rows and columns", L+"matrix.rs")],
     "All histories of up to four operations from all matrices up to 4x4 over small alphabets in both orderings.",
     observe="SparseMatrix and MatrixOrder", technique=HIST)
prop("P20", "Network programs are incidence matrices and solve to the true path or flow",
     "The incidence matrix built from the adjacency of a directed graph, with any set of vertices left out, has exactly one column per arc with the documented signs, and its columns, filtered or not, agree with it. Shortest path, maximum flow and transport programs that use it are solved to the value that graph theory gives, with an optimal basic point that is a valid path or flow.",
     ["inputs"], "all directed graphs with values on their arcs",
     "Tests and examples solve one graph of each kind; removed vertices shift indices and network programs are highly degenerate and rank deficient.",
     [D+"network/representation.rs", D+"network/mod.rs", A+"mod.rs", A+"phase_one.rs", A+"phase_two.rs"],
     [("columns of arcs, left-out vertices", D+"network/representation.rs"), ("redundant conservation rows", A+"phase_one.rs")],
     "All graphs of up to four vertices with small values (five with few arcs), all sets of left-out vertices, against Bellman-Ford, minimum cuts and enumeration.",
     observe="IncidenceMatrix, ArcIncidenceColumn; SolveRelaxation on providers using them")
prop("P21", "Solutions are compared, and program elements flipped, by their definition",
     "Two solutions are probably equal exactly when their objectives agree, they name the same variables and, from ten variables on, more than the asked fraction of values agrees; the elementary relations of rows, bounds and variable kinds convert, flip and print as documented.",
     ["inputs"], "all pairs of solutions and all elements",
     "The existing tests never compare solutions that differ in some of many values or in the order of names.",
     [D+"solution.rs", D+"elements.rs"],
     [("fraction of equal values", D+"solution.rs is_probably_equal_to"), ("conversions", D+"elements.rs")],
     "All pairs of solutions up to three variables over all names, and of eight to twelve variables over all numbers of differences; all elements.",
     observe="Solution::is_probably_equal_to; Not, From, Display of the elements")

NOT_APPLICABLE = []
NOTES = "No hooks: everything is observed through the public API."

def main():
    with open(V/"properties.jsonl", "w") as f:
        for p in P:
            o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
            if p["observe"]: o["anchors"]["observe_at"] = [p["observe"]]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(o) + "\n")
    m = {"version": 1, "setup_cmd": "./check.sh build",
         "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                     "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P],
         "not_applicable": NOT_APPLICABLE, "notes": NOTES}
    (V/"MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
main()
