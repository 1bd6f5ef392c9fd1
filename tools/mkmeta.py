"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json (claims = the check modules that exist)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, tech, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, tech=tech, note=note, state=state))


p("C01", "A verification condition built from a Python function is sound",
  "If invariants and a postcondition satisfy the verification condition generated for a Python function for all "
  "values of its variables, then every terminating execution of that function satisfies the postcondition. "
  "Equivalently: whenever some execution returns a value the postcondition rejects, the verification condition is false under some assignment, "
  "whatever the invariants are.",
  ["programs", "inputs"],
  "all programs of the accepted Python subset (assignment, nested if/else and while, early return, list/set mutation, tuples, chained comparisons), all inputs",
  "the existing tests only synthesise a handful of fixed programs (most need an external solver that CI does not have) and never compare a VC with an execution",
  ["metalift/frontend/python.py", "metalift/vc_util.py", "metalift/analysis.py", "metalift/ir.py"],
  [("statement and expression visitor building asserts", "metalift/frontend/python.py: VCVisitor"),
   ("loop and postcondition predicates", "metalift/frontend/python.py: PredicateTracker")],
  ["Driver.analyze(...) then calling the result; Driver.asserts"],
  "Hypothesis-generated programs executed by a tracing interpreter; the VC is evaluated with adversarial invariants/postconditions that reject exactly one observed return",
  "random search over programs <= ~12 statements and small inputs; the refuting assignment is searched among recorded loop-head states, which exists whenever the VC is the standard one")
p("C02", "A verification condition built from a Python function is complete",
  "The verification condition generated for a Python function is true under every assignment when the invariants describe exactly the reachable loop states "
  "and the postcondition describes exactly the function's results, and its predicates range over the function's arguments and in-scope variables in the documented order.",
  ["programs", "inputs"],
  "all programs of the accepted subset; all assignments to the VC's variables",
  "no existing test evaluates a VC; a VC that is too strong only shows up as a synthesis failure",
  ["metalift/frontend/python.py", "metalift/vc_util.py", "metalift/ir.py"],
  [("statement and expression visitor building asserts", "metalift/frontend/python.py: VCVisitor"),
   ("state merge at joins", "metalift/frontend/python.py: visit_if_stmt")],
  ["Driver.asserts, Driver.inv_tracker.predicates"],
  "Hypothesis-generated programs; the VC evaluated under true invariants/postcondition on trace-derived, perturbed and random assignments",
  "truth of the VC is checked on sampled assignments (trace states, perturbations, small random values), not all")
p("C03", "Analyses do not influence one another",
  "The verification condition, predicates and variables produced for a function depend only on that function and its arguments: repeating an analysis, or analysing other functions before it "
  "in the same process, gives the same result, and analysing never modifies the argument objects it is given.",
  ["histories", "programs"],
  "all sequences of analyses in one process, same or separate drivers",
  "existing tests analyse one function per process",
  ["metalift/frontend/python.py", "metalift/frontend/llvm.py", "metalift/analysis.py", "metalift/ir.py"],
  [("fresh state per call", "metalift/frontend/python.py: MetaliftFunc.__call__"), ("variable registry", "metalift/analysis.py: VariableTracker")],
  ["Driver.asserts, Driver.var_tracker, Driver.inv_tracker after each analysis"],
  "Hypothesis histories of analyses compared with the same analysis in a fresh process image (fork)",
  "histories of up to 4 analyses over generated programs")
p("C04", "A verification condition built from LLVM code is sound",
  "If invariants and a postcondition satisfy the verification condition generated from a compiled function, every terminating execution of that function satisfies the postcondition.",
  ["programs", "inputs"],
  "all single-function control-flow graphs in the supported instruction set, with branches, loops and returns in several blocks; all inputs",
  "the tests that exercise the LLVM front end need clang 11 and racket, and use fixed programs",
  ["metalift/frontend/llvm.py", "metalift/analysis.py", "metalift/models.py", "metalift/vc_util.py"],
  [("block visitor", "metalift/frontend/llvm.py: VCVisitor"), ("loop-info parsing", "metalift/analysis.py: parse_loops"), ("CFG set-up", "metalift/analysis.py: setup_blocks")],
  ["Driver.analyze(...) then calling the result; Driver.asserts"],
  "Hypothesis-generated LLVM functions interpreted by a reference interpreter; adversarial postconditions rejecting one observed return",
  "random search; refuting assignments taken from recorded loop-head states")
p("C05", "A verification condition built from LLVM code is complete",
  "The verification condition generated from a compiled function is true under every assignment when the invariants describe exactly the reachable loop-head states and the postcondition exactly the results; "
  "its predicates range over the function's arguments (sorted by name), the variables the loop writes and the in-scope variables its grammar names, and the grammars are given these variables.",
  ["programs", "inputs"],
  "all supported control-flow graphs; all assignments",
  "no existing test evaluates a VC",
  ["metalift/frontend/llvm.py", "metalift/analysis.py", "metalift/models.py"],
  [("block visitor and state merge", "metalift/frontend/llvm.py: VCVisitor"), ("loop-info parsing", "metalift/analysis.py: parse_loops")],
  ["Driver.asserts"],
  "Hypothesis-generated LLVM functions; VC evaluated under exact invariants on sampled assignments",
  "sampled assignments")
p("C06", "The LLVM block-normalising pass preserves behaviour",
  "Running the block-normalising compiler pass leaves every function with the same results on every input, and afterwards no block that has several predecessors is entered directly by a conditional branch.",
  ["programs", "inputs"],
  "all functions with reducible or irreducible control flow in the compiler's input language; all inputs",
  "no existing test runs the pass on its own; the drivers run it only on fixed programs",
  ["llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp"],
  [("edge splitting", "llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp")],
  ["opt -load libAddEmptyBlocksPass.so -addEmptyBlock"],
  "Hypothesis-generated LLVM modules, differential execution before/after the pass",
  "random CFGs up to ~12 blocks, bounded inputs and steps")
p("C07", "Expressions emitted to Rosette mean the same",
  "The Rosette text emitted for any well-typed expression or function definition evaluates, over the shipped runtime library, to the same value as the expression on every input.",
  ["inputs", "programs"], "all typed expressions and (recursive) definitions over the supported operators and types; all environments",
  "existing tests compare a few fixed strings at best",
  ["metalift/ir.py", "metalift/rosette_translator.py", "metalift/utils/utils.rkt"],
  [("to_rosette methods", "metalift/ir.py: to_rosette"), ("operator spelling", "metalift/ir.py: RosetteName / get_list_fn")],
  ["Expr.to_rosette()"],
  "differential: emitted text run in a Racket-subset interpreter versus a reference evaluator, over generated typed expressions",
  "trusts the Racket-subset interpreter; Racket itself is not installed")
p("C08", "Expressions emitted to SMT-LIB are well-sorted and mean the same",
  "The SMT-LIB text emitted for any well-typed expression or function definition parses, is well-sorted against the shipped SMT library, declares the right signature and has the same value as the expression on every input.",
  ["inputs", "programs"], "all typed expressions and definitions over the supported operators and types, negative literals and nested tuples included; all environments",
  "existing tests compare a few fixed strings at best",
  ["metalift/ir.py", "metalift/utils/tuples.smt", "metalift/utils/list-axioms.smt", "metalift/utils/integer-fn-axioms.smt"],
  [("toSMT methods", "metalift/ir.py: toSMT"), ("type names", "metalift/ir.py: toSMTType")],
  ["Expr.toSMT()"],
  "differential: emitted text sort-checked, parsed by cvc5 and evaluated versus a reference evaluator, over generated typed expressions",
  "trusts the SMT-LIB mini evaluator; syntax and sorts cross-checked with cvc5")
p("C09", "Code emitted to Python means the same",
  "Python source emitted for any well-typed expression or function definition, when executed, gives the expression's value on every input.",
  ["inputs", "programs"], "all typed expressions and definitions that the Python back end supports; all environments",
  "existing tests check a handful of end-to-end outputs",
  ["metalift/ir.py"], [("codegen / to_python methods", "metalift/ir.py: to_python")], ["Expr.to_python()"],
  "differential: emitted Python executed versus a reference evaluator, over generated typed expressions",
  "random search up to depth ~5")
p("C10", "The generated SMT verification file decides exactly the verification condition",
  "The verification file written for a target language, candidate definitions and a verification condition is accepted by a solver, defines every function before use with its own meaning "
  "(including higher-order functions specialised to their function arguments), and its assertion holds for an assignment exactly when the verification condition is false for it.",
  ["programs", "inputs", "configurations"],
  "all dependency orders of target functions, all higher-order call patterns, all variable sets; all assignments",
  "tests run one or two fixed benchmarks and do not look at the file",
  ["metalift/smt_util.py", "metalift/ir.py"],
  [("file assembly, topological sort", "metalift/smt_util.py: toSMT"), ("higher-order specialisation", "metalift/smt_util.py")],
  ["the written .smt file"],
  "generated libraries/candidates/VCs; the file is parsed, sort-checked and evaluated against the reference meaning of the VC",
  "trusts the SMT-LIB mini evaluator; cross-checked with cvc5 parsing")
p("C11", "The operator API builds the expression it denotes and rejects ill-typed uses",
  "Applying the documented operators and methods to integer, boolean, list, set, tuple and matrix objects builds an object of the right type whose value equals that of the corresponding operation on values, "
  "and operands of the wrong type given to the arithmetic, ordering, logical, conditional, choice, element-adding and set operations are rejected with an error rather than building a wrong expression.",
  ["inputs", "programs"], "all operator/operand-type combinations (either side a literal or an object), all nestings",
  "tests use a fixed selection of operators inside grammars",
  ["metalift/ir.py"], [("operator overloads", "metalift/ir.py: Int, Bool, List, Set, Tuple, Matrix")], ["Object operators; Object.src"],
  "generated operator terms evaluated both directly on values and through the built expression",
  "random search; list of operations from the public classes")
p("C12", "Expression equality, hashing, copying and rewriting are structural",
  "Two expressions compare equal exactly when they have the same structure and types, equal expressions hash equally, copies equal their originals, and mapping or substitution over an expression changes exactly the "
  "targeted sub-expressions without modifying the original.",
  ["inputs", "programs"], "all pairs of expressions including near-equal mutants; all replacements",
  "no existing test covers them; the front ends, grammars and simplifier all rely on them",
  ["metalift/ir.py"], [("__eq__/__hash__/map_args/rewrite/replace", "metalift/ir.py: Expr")], ["Expr equality, hash, map_args, rewrite, replaceExpr"],
  "generated expressions and single-point mutations compared with structural equality of their specifications",
  "random search")
p("C13", "Simplifying a verification condition preserves its meaning",
  "Simplification and equality optimisation of a verification condition produce a condition with the same validity, preserve the value of every other expression, and leave the input expression unchanged.",
  ["inputs", "programs"], "all boolean expressions including nested implications, conjunctions and repeated or cyclic equalities; all assignments",
  "tests only see it as part of end-to-end runs",
  ["metalift/ir.py", "metalift/synthesis_common.py", "metalift/synthesize_auto.py"],
  [("simplify", "metalift/ir.py: simplify"), ("equality optimisation", "metalift/optimize_useless_equality")], ["Expr.simplify(), optimize"],
  "generated VCs; equivalence checked by exhaustive evaluation over small domains",
  "small finite domains for each variable")
p("C14", "A Rosette grammar contains exactly the user's candidate programs",
  "The grammar emitted to Rosette for a synthesis template derives, for every way of resolving its choices, exactly the expressions the template describes, with the template's parameters in order.",
  ["inputs", "programs"], "all templates with nested, shared and repeated choices",
  "tests only check that some solution is found for fixed templates",
  ["metalift/ir.py", "metalift/rosette_translator.py"], [("grammar extraction", "metalift/ir.py: Synth.to_rosette, findChoices / findCommonExprs")], ["Synth.to_rosette()"],
  "generated templates; language of the emitted grammar enumerated and compared (as sets of semantic values) with the template's",
  "bounded number of choice resolutions")
p("C15", "A SyGuS grammar contains exactly the user's candidate programs",
  "The SyGuS problem emitted for a synthesis template is well-sorted and its grammar derives exactly the expressions the template describes.",
  ["inputs", "programs"], "all templates with nested, shared and repeated choices",
  "the SyGuS path has no test that inspects the grammar",
  ["metalift/ir.py", "metalift/synthesize_cvc5.py"], [("synth-fun emission", "metalift/ir.py: Synth.toSMT")], ["Synth.toSMT()"],
  "as C14, on the emitted synth-fun", "bounded number of choice resolutions")
p("C16", "Symbolic inputs of a synthesis problem cover exactly the bounded domain",
  "The symbolic variables declared for a synthesis problem have the declared types and, over all assignments, denote exactly the values of that type within the requested list-length bound (lists and sets up to the bound; matrices and tensors with up to that many rows, each row as long as the bound), built from independent symbols that are all quantified over.",
  ["inputs", "configurations"], "all variable types (integers, booleans, lists, sets, tuples, matrices, tensors) and bounds",
  "tests use a few fixed variables and cannot observe coverage",
  ["metalift/rosette_translator.py", "metalift/utils/bounded.rkt"], [("variable generation", "metalift/rosette_translator.py: gen_var / generate_vars"), ("bounded constructors", "metalift/utils/bounded.rkt")],
  ["declared variables in the .rkt file"],
  "generated variable sets; the emitted declarations evaluated under enumerated symbol assignments, the set of produced values compared with the domain",
  "small bounds and a two-value integer domain")
p("C17", "The generated Rosette problem asserts exactly the verification condition",
  "The Rosette problem written for a synthesis task accepts a candidate for given variable values exactly when the verification condition holds for that candidate, and in later rounds additionally rejects exactly the candidates already returned.",
  ["programs", "inputs", "configurations"], "all target languages, templates, conditions, previously found candidates and unbounded/bounded configurations",
  "tests need racket and never look at the problem",
  ["metalift/rosette_translator.py"], [("problem assembly", "metalift/rosette_translator.py: to_rosette"), ("assertions", "metalift/rosette_translator.py: gen_assert")], ["the written .rkt file"],
  "generated tasks; the file interpreted by a Racket-subset interpreter with every grammar resolution, compared with the reference VC",
  "trusts the Racket-subset interpreter")
p("C18", "A Rosette solution is read back as the same function",
  "Parsing the solver's printed solution for any candidate yields function definitions of the declared types that have the same value as the printed text on every input.",
  ["inputs", "programs"], "all candidate bodies over the operators the back end emits, literals, variables, nested lets and calls",
  "tests parse the output of a few fixed runs",
  ["metalift/synthesize_rosette.py", "metalift/ir.py"], [("solution parser", "metalift/synthesize_rosette.py: to_expr / to_synthesize")], ["to_expr on solver output"],
  "round trip: generated expressions printed, parsed back and compared by value (and by type)",
  "random search; prints the forms Racket prints for define forms")
p("C19", "A cvc5 candidate is read back as the same function",
  "Parsing the SyGuS solver's printed candidate for any function yields definitions of the declared types with the same value as the printed text on every input.",
  ["inputs", "programs"], "all candidate bodies over the operators of the SyGuS back end",
  "the cvc5 path has no passing test in this environment",
  ["metalift/synthesize_cvc5.py"], [("candidate parser", "metalift/synthesize_cvc5.py: toExpr / extractFuns")], ["parsing of candidate text"],
  "round trip over generated candidates", "random search")
p("C20", "Synthesis returns only verified candidates and always concludes",
  "Whatever sequence of candidates and verdicts the solvers produce, synthesis returns only candidates that the verifier accepted, asks again excluding rejected ones, reports failure as an error when the search is exhausted, "
  "and leaves no solver process running.",
  ["schedules", "fault_sequences", "histories"], "all finite sequences of solver (or language model) answers: candidate, verdict, no solution, crash",
  "tests need the real solvers, and never inject rejections or failures",
  ["metalift/synthesize_rosette.py", "metalift/synthesize_auto.py", "metalift/synthesize_cvc5.py", "metalift/process_tracker.py", "llmlift_scripts/synthesis.py"],
  [("synthesis loop", "metalift/synthesize_rosette.py: synthesize"), ("verification", "metalift/synthesis_common.py: verify_synth_result"), ("process tracking", "metalift/process_tracker.py"),
   ("language-model loop", "llmlift_scripts/synthesis.py: run_llm_synthesis_algorithm")],
  ["synthesize() result, processes started"],
  "stateful: scripted fake racket/cvc5 executables driven by generated answer sequences, compared with a model of the loop",
  "fake solvers; answers are generated scripts, real solvers are not available (racket) or used as an oracle")
p("C21", "Tidying synthesised functions never changes what they compute",
  "Removing conditionals whose condition is constant (a literal, or a call of a function whose body is a literal) from a set of synthesised functions keeps every function's name, parameters, type and value on every input, "
  "leaves the given functions unmodified, and the reported set of used functions is exactly the set of functions called in their bodies.",
  ["programs", "inputs"],
  "all sets of functions with nested conditionals, constant predicates defined inside or outside the set, uninterpreted and recursive functions",
  "no existing test covers it",
  ["metalift/synthesis_common.py", "metalift/ir.py"], [("pruning", "metalift/synthesis_common.py: prune_fn_decls"), ("used functions", "metalift/synthesis_common.py: get_used_fn_names")], ["prune_fn_decls and get_used_fn_names results"],
  "generated function sets; every function evaluated before and after pruning", "random search")
p("C22", "The Rosette runtime library implements its functions",
  "Every list, set, matrix, tuple and integer function of the shipped Rosette library returns the mathematically specified value on every input of its documented domain, and never modifies its arguments.",
  ["inputs", "histories"], "all inputs of every library function; call sequences sharing values",
  "the library is only exercised indirectly by end-to-end tests that need racket",
  ["metalift/utils/utils.rkt"], [("library definitions", "metalift/utils/utils.rkt")], ["library functions"],
  "differential: library source interpreted versus reference functions over generated inputs", "trusts the Racket-subset interpreter")
p("C23", "The SMT library agrees with the Rosette library and its axioms are true",
  "Every definition and axiom of the shipped SMT library holds of the intended functions, pins their values on concrete inputs, and agrees with the Rosette runtime library on every input where both are defined.",
  ["inputs"], "all inputs of every defined function; all instances of every axiom",
  "no existing test evaluates an axiom",
  ["metalift/utils/list-axioms.smt", "metalift/utils/tuples.smt", "metalift/utils/integer-fn-axioms.smt", "metalift/utils/map-axioms.smt", "metalift/utils/utils.rkt"],
  [("axioms and definitions", "metalift/utils/*.smt")], ["library text"],
  "generated instances of every axiom and definition evaluated against standard models and the Rosette library", "trusts the SMT-LIB mini evaluator")
p("C24", "The tensor DSL means the same in every representation",
  "Each function of the tensor DSL has the same value when evaluated from its declaration, from its Rosette text, from its SMT text and from its Python text, matches its element-wise or reduction definition, and every axiom shipped for it is true.",
  ["inputs"], "all DSL functions, all vector/matrix shapes and scalars",
  "tests run fixed benchmarks and need racket",
  ["metalift/utils/tenspiler/axioms.py", "metalift/utils/tenspiler/constants.py", "metalift/utils/tenspiler/tenspiler_common.py"],
  [("DSL declarations", "metalift/utils/tenspiler/tenspiler_common.py"), ("axioms", "metalift/utils/tenspiler/axioms.py")], ["DSL definitions and axioms"],
  "differential between representations and element-wise reference over generated tensors", "shapes up to 4x4x2, integers up to 10^6")
p("C25", "Solutions written in Python are read as the program they are",
  "Parsing a Python solution over the DSL yields definitions with the same value as executing that Python on every input, and code outside the supported form is rejected with an error; unwrapping a language model's answer (code fences, ite() calls) keeps the program.",
  ["inputs", "programs"], "all solution programs over the supported statement and expression forms",
  "the parser has no test",
  ["llmlift_scripts/parser.py", "llmlift_scripts/utils.py"], [("mypy-AST to IR translation", "llmlift_scripts/parser.py: mypy_node_to_ir"), ("answer unwrapping", "llmlift_scripts/utils.py: replace_ite")], ["check_solution() result", "replace_ite() result"],
  "generated Python solutions executed directly versus evaluation of the parsed definitions", "random search")

p("C26", "What a driver reports is the analysed function; right candidates are reported",
  "Running a driver to the end (analyze, call, synthesize) reports for each function an expression that has the value the executed function returns on every input that satisfies the preconditions; candidates that are wrong are never reported, the first right candidate (with adequate invariants) is, and the synthesis problem holds for it.",
  ["inputs", "programs", "histories"], "all supported programs with one or two functions, preconditions, target languages, grammars and answers of the solver",
  "the tests never run a driver, since the solver is not installed",
  ["metalift/frontend/python.py", "metalift/frontend/llvm.py", "metalift/synthesis_common.py", "metalift/synthesize_rosette.py", "metalift/smt_util.py", "metalift/rosette_translator.py"],
  [("synthesis driver, Python", "metalift/frontend/python.py: Driver.synthesize"), ("synthesis driver, LLVM", "metalift/frontend/llvm.py: Driver.synthesize, get_actual_ps_fn_decl"), ("candidate verification", "metalift/synthesis_common.py: verify_synth_result")],
  ["MetaliftFunc.codegen() argument", "VerificationFailed", "Driver.get_actual_ps_fn_decl()", "synthesisLogs/*.rkt"],
  "generated programs, grammars and candidate sequences through the whole driver with a stand-in solver and the real cvc5; oracle: an interpreter of the source programs", "random search; programs for which cvc5 is fast")


p("C27", "LLMLift verifies the language model's answer, and nothing else",
  "The file that LLMLift sends to the SMT solver or Rosette for an accepted language-model answer decides the verification condition with the answer's summary and invariants: every function it defines, and the condition, has the value that executing the answered Python text gives, whatever the order of parameters, lambdas, DSL functions and refused earlier answers.",
  ["inputs", "programs", "histories"], "all verification conditions, single and double loops, and all answers in the supported Python subset over the DSL; both verification methods",
  "a wrongly assembled file verifies wrong answers or rejects right ones only for some parameter orders, lambdas or function dependencies, and no test covers llmlift_scripts",
  ["llmlift_scripts/synthesis.py", "llmlift_scripts/parser.py", "llmlift_scripts/utils.py", "llmlift_scripts/dsl.py", "metalift/smt_util.py", "metalift/rosette_translator.py"],
  [("verification", "llmlift_scripts/synthesis.py: run_llm_synthesis_algorithm and the functions it calls"), ("reading answers", "llmlift_scripts/parser.py: check_solution")],
  ["the .smt file given to cvc5", "the .rkt file given to racket", "result of run_llm_synthesis_algorithm"],
  "generated conditions and Python answers through the whole verification with stand-in model and solvers; the captured SMT or Rosette file is evaluated against executing the answers", "random search; single and double loops over integers, lists and matrices")


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "mlcheck", "checks")) if f.startswith("c") and f.endswith(".py")}
    na_file = os.path.join(V, "tools", "na.json")
    na = json.load(open(na_file)) if os.path.exists(na_file) else {}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            d = dict(id=x["id"], title=x["title"], statement=x["statement"],
                     quantifier=dict(over=x["over"], text=x["qtext"]), why_tests_cant=x["why"],
                     anchors=dict(files=x["files"], mechanism=[dict(name=a, where=b) for a, b in x["mech"]],
                                  observe_at=x["observe"], hook_needed=None))
            assert len(x["title"]) <= 80, x["id"]
            for fn in x["files"]:
                if not os.path.exists(os.path.join("/repo", fn)):
                    print("missing anchor", x["id"], fn)
            f.write(json.dumps(d) + "\n")
    checks, nas = [], []
    for x in P:
        if x["id"] in have and x["id"] not in na:
            checks.append(dict(property=x["id"], quick_cmd=f"./check {x['id']} --tier quick",
                               thorough_cmd=f"./check {x['id']} --tier thorough",
                               evidence_file=f"evidence/{x['id']}.json",
                               technique="property-based testing (Hypothesis): " + x["tech"],
                               level="exploration", level_note=x["note"]))
        else:
            nas.append(dict(property=x["id"], reason=na.get(x["id"], "check not built yet")))
    m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=nas,
             notes="All checks are generated-input search (Hypothesis) against explicit oracles; see DESIGN.md. No hooks in /repo are needed.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
