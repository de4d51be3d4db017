"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

ALL_EL = ["FIAT/finite_element.py", "FIAT/polynomial_set.py", "FIAT/dual_set.py", "FIAT/expansions.py",
          "FIAT/serendipity.py", "FIAT/tensor_product.py", "FIAT/hdivcurl.py", "FIAT/enriched.py",
          "FIAT/mixed.py", "FIAT/hdiv_trace.py", "FIAT/bernstein.py", "FIAT/reference_element.py",
          "FIAT/quadrature.py", "FIAT/quadrature_schemes.py", "FIAT/functional.py"]

prop("C01", "Threads sharing objects get the answers of solo calls",
     "When several threads query the same cells, elements, dual sets, polynomial sets, expansion sets, functionals and "
     "quadrature rules at the same time, every call returns exactly the answer it would return if it were the only call "
     "ever made on a freshly built object. No interleaving makes a call fail, or return values belonging to another "
     "caller's points, derivative order, entity or degree.",
     ["schedules"],
     "Every interleaving of any number of threads, each making any sequence of queries (tabulation of any order at any "
     "points on any sub-entity, support computation, Riesz maps, geometry and quadrature queries) on shared objects, "
     "including the first ever query on each object.",
     "The tests are single-threaded and make one or two queries per object; no test runs two calls at once, so any state a "
     "query parks on a shared object, class or module while it works is invisible to them.",
     ALL_EL,
     [("queries compute in locals; lazily filled tables are published only when complete", "FIAT/serendipity.py tabulate; FIAT/finite_element.py entity_support_dofs"),
      ("evaluation reads coefficients and derivative matrices without writing them", "FIAT/polynomial_set.py PolynomialSet.tabulate"),
      ("Riesz matrix assembled locally", "FIAT/dual_set.py to_riesz")],
     [("basis / basis_callable", "lazily filled derivative tables of a serendipity element", "FIAT/serendipity.py"),
      ("_entity_support_dofs", "per-element cache of support computations", "FIAT/finite_element.py")],
     ["tabulate", "entity_support_dofs", "DualSet.to_riesz", "create_quadrature", "Cell queries"])

prop("C02", "Concurrent construction builds the elements sequential code builds",
     "Cells, quadrature rules, polynomial sets and elements (simple and composite) that are built at the same time in "
     "different threads, from private or from shared cells and components, have the same basis functions, degrees of "
     "freedom, entity association, mappings and value shapes as when each is built alone. What else is being built or "
     "tabulated at that moment, in whatever family, degree, variant or cell geometry, makes no difference and makes no build fail.",
     ["schedules", "configurations"],
     "Every interleaving of constructions of any supported family, degree, variant and cell (including cells of the same "
     "kind with different vertex coordinates), alone or mixed with queries.",
     "Tests build elements one after another in one thread; a value parked in a class or module variable between two "
     "steps of a constructor is never seen by another constructor.",
     ["FIAT/*.py"],
     [("constructors keep intermediate state in locals", "all element and dual-set constructors"),
      ("cells used internally are built on demand or immutable", "FIAT/reference_element.py ufc_simplex, default_simplex; FIAT/discontinuous_pc.py hypercube_simplex_map")],
     [("hypercube_simplex_map", "process-wide cells shared by hypercube families", "FIAT/discontinuous_pc.py"),
      ("TRIANGLE, TETRAHEDRON", "process-wide cells", "FIAT/kong_mulder_veldhuizen.py")],
     ["element constructors", "create_quadrature", "make_quadrature"])

prop("C03", "A query that fails or is interrupted leaves no trace",
     "If a query is cut short at any point by an interrupt, by memory exhaustion or by an error of its own arguments, then "
     "repeating it and making any other query on the same or related objects gives the answers of objects that never saw "
     "the failure. The failing call itself either raises or returns the right answer; it never returns a wrong one.",
     ["crash_points", "fault_sequences"],
     "Every point at which a query can be interrupted or an operation it performs can fail, every sequence of such failures, "
     "and every query made afterwards.",
     "No test interrupts a call or makes an allocation fail; tests of rejected arguments never use the object again.",
     ALL_EL,
     [("no query modifies an object before its result is complete", "tabulate of every element, entity_support_dofs, to_riesz"),
      ("lazily filled entries are inserted in a single step after they are computed", "FIAT/serendipity.py, FIAT/finite_element.py")],
     [("basis / basis_callable", "lazily filled derivative tables", "FIAT/serendipity.py"),
      ("_entity_support_dofs", "support cache", "FIAT/finite_element.py")],
     ["all queries"])

prop("C04", "A failed construction leaves cells, components and library intact",
     "If building an element, quadrature rule or polynomial set fails or is interrupted at any point, the cells and component "
     "elements it was given, all other existing objects and the library's own shared data still behave as if the attempt had "
     "never been made. Repeating the construction then gives the element an undisturbed construction gives.",
     ["crash_points", "fault_sequences"],
     "Every interruption point inside every constructor, including constructors of composite elements over shared "
     "components, followed by any queries and constructions.",
     "Tests only check that some constructions raise; none fails a construction in the middle and none re-uses what it was given.",
     ["FIAT/hdivcurl.py", "FIAT/discontinuous.py", "FIAT/restricted.py", "FIAT/enriched.py", "FIAT/nodal_enriched.py",
      "FIAT/mixed.py", "FIAT/tensor_product.py", "FIAT/bubble.py", "FIAT/finite_element.py", "FIAT/dual_set.py"],
     [("constructors only write to the object being built", "all constructors"),
      ("wrappers copy or re-create the parts they adapt", "FIAT/hdivcurl.py, FIAT/discontinuous.py, FIAT/restricted.py")],
     observe=["element constructors", "queries on the components afterwards"])

prop("C05", "Answers do not depend on what was asked before",
     "The answer to a call depends only on its arguments and on how the objects involved were built, not on which calls were "
     "made earlier in the process, by which client, in which order or how often. This includes earlier calls with the same "
     "shapes but different values, with equal-looking cells of different geometry, with other degrees, variants and derivative orders, and calls that raised.",
     ["histories"],
     "Every interleaved history of constructions and queries by any number of client sessions over any objects.",
     "Each test makes a short fixed sequence of calls, usually one per object, so stale or wrongly keyed state carried from "
     "one call to a later one is not exercised.",
     ["FIAT/*.py"],
     [("no memo keyed by less than everything the answer depends on", "whole library"),
      ("cell equality ignores geometry, so nothing may be cached by cell alone", "FIAT/reference_element.py Cell.__eq__/__hash__")],
     observe=["every public query and constructor"])

prop("C06", "Composite elements and their components do not disturb each other",
     "Wrapping elements into tensor-product, H(div)/H(curl), flattened, enriched, nodally enriched, mixed, restricted, "
     "discontinuous, bubble or trace elements leaves the wrapped elements answering every query as before, during and after the "
     "wrapping and however the composite is used. Several composites over the same components, built and used in any order or at the same "
     "time, answer as composites over private copies would.",
     ["histories", "schedules"],
     "Every order and interleaving of building composites over shared components (including the same component used twice and composites of composites) and of querying either side.",
     "Tests build each composite from fresh components and look only at the composite.",
     ["FIAT/tensor_product.py", "FIAT/hdivcurl.py", "FIAT/enriched.py", "FIAT/nodal_enriched.py", "FIAT/mixed.py",
      "FIAT/restricted.py", "FIAT/discontinuous.py", "FIAT/bubble.py", "FIAT/hdiv_trace.py", "FIAT/quadrature_element.py"],
     [("H(div)/H(curl) wrappers adapt a new tensor-product element, not the given one", "FIAT/hdivcurl.py"),
      ("component nodes, numbering and coefficients are read, never edited", "FIAT/enriched.py, FIAT/restricted.py, FIAT/mixed.py, FIAT/nodal_enriched.py")],
     observe=["tabulate, entity_dofs, mapping, dual_basis of components and composites"])

prop("C07", "Callers' arguments are never modified, even for a moment",
     "No call changes the arrays, lists, dictionaries or tuples the caller passed to it: points, weights, coefficients, index "
     "lists, degree-of-freedom tables, vertices or component lists. The caller's data is unchanged at every instant during the call as "
     "another thread would see it, and after the call returns, raises or is interrupted.",
     ["schedules", "fault_sequences"],
     "Every call with every admissible argument type, observed at every instant of its execution and after every failure point in it.",
     "Tests throw their arguments away; a change in place, in particular one that is undone before returning, cannot be seen.",
     ["FIAT/polynomial_set.py", "FIAT/expansions.py", "FIAT/bernstein.py", "FIAT/hdiv_trace.py", "FIAT/serendipity.py",
      "FIAT/tensor_product.py", "FIAT/quadrature_element.py", "FIAT/restricted.py", "FIAT/mixed.py", "FIAT/jacobi.py",
      "FIAT/barycentric_interpolation.py", "FIAT/orthopoly.py", "FIAT/reference_element.py"],
     [("arguments are copied or only read", "all tabulators, jacobi, orthopoly, transforms")],
     observe=["argument objects before, during and after the call"])

prop("C08", "Tables handed out belong to the caller",
     "A caller may overwrite, extend or clear the tables of basis function values, Riesz matrices, and quadrature points and weights it "
     "was given, at any moment, without changing any answer given to anyone later or concurrently. A table once handed "
     "out never changes because of later calls.",
     ["histories", "schedules"],
     "Every sequence and interleaving of queries and of arbitrary in-place modifications of their results by the callers.",
     "Tests never write to a result and never look at a result again after a later call.",
     ["FIAT/polynomial_set.py", "FIAT/finite_element.py", "FIAT/quadrature.py", "FIAT/quadrature_element.py", "FIAT/bernstein.py",
      "FIAT/serendipity.py", "FIAT/hdiv_trace.py", "FIAT/tensor_product.py", "FIAT/expansions.py", "FIAT/jacobi.py"],
     [("tabulation allocates its result", "every tabulate"), ("rule accessors copy", "FIAT/quadrature.py get_points/get_weights")],
     observe=["results of tabulate, to_riesz, get_points, get_weights"])

prop("C09", "Independent processes agree bit for bit",
     "Processes that build the same elements and ask the same questions get bit-for-bit identical basis functions, degree of "
     "freedom numbering, quadrature rules and tables, as parallel form compilers rely on. Hash randomisation, memory addresses, "
     "the order and number of other objects built, garbage collection, the state of random generators, working directory, print options and environment make no difference.",
     ["configurations", "schedules"],
     "Every pair of processes on the same installation, differing in hash seed, heap layout, ambient settings and the order of unrelated work.",
     "The test suite runs in one process with one hash seed and compares with tolerances.",
     ["FIAT/*.py"],
     [("sets are only used for membership or sorted before use", "FIAT/reference_element.py, FIAT/dual_set.py, FIAT/tensor_product.py"),
      ("ordered dictionaries for point gathering", "FIAT/dual_set.py")],
     observe=["digest of every element's numbering, nodes, coefficients and tables"])

prop("C10", "Process-wide state is left alone",
     "After any call returns, fails or is interrupted, process-wide state is what it was before: warning filters, floating-point error handling, random "
     "generator states (what the symbolic library draws for itself excepted), print options, environment, working directory, standard streams, signal handlers, recursion limit, locale, "
     "open files, threads, garbage collector settings, module search path and third-party global settings. Concurrent calls leave it unchanged once they have all finished.",
     ["fault_sequences", "schedules", "histories"],
     "Every call, completed or cut short at any point, alone or interleaved with others.",
     "Tests do not look at process-wide state and never cut a call short.",
     ["FIAT/*.py"],
     [("the library changes no global setting", "whole library")],
     [("warning filters", "process-wide list, formerly changed by constructors called without a variant", "FIAT/check_format_variant.py")],
     ["interpreter and numpy settings around every call"])

prop("C11", "Object lifetime, collection and memory reuse do not affect answers",
     "Answers stay right however objects are created, dropped, garbage-collected and replaced by others that reuse their "
     "memory, and whenever caches of the underlying symbolic and numeric libraries are emptied. An object remains fully usable after the cells, "
     "components, rules or wrappers it was built from or with are dropped.",
     ["histories", "schedules"],
     "Every history of creating and dropping objects, with garbage collections and third-party cache evictions at arbitrary points, also in the middle of calls.",
     "Tests keep their objects alive for the whole test and never collect or evict in the middle of a call.",
     ["FIAT/*.py"],
     [("objects hold strong references to what they need", "FIAT/finite_element.py, FIAT/expansions.py, FIAT/tensor_product.py"),
      ("nothing is keyed by object identity", "whole library")],
     observe=["tabulate and construction after collection points"])

prop("C12", "Every call completes in bounded work; none blocks another for ever",
     "Every call returns or raises within a bounded amount of work that does not grow with the number of earlier calls, of other threads or of earlier "
     "failures. Once failures stop, no thread waits for ever on another, whether the others finished, failed in the middle or are stalled between calls.",
     ["schedules", "fault_sequences", "histories"],
     "Every interleaving, stall and failure sequence, with work counted in simulated steps relative to the same call made alone in a fresh process.",
     "The tests have no concurrency and no failures, and measure no work, so a lock that is leaked on failure, a spin on a flag or a table scanned ever more slowly does not show.",
     ["FIAT/*.py"],
     [("no locks are held and no flags are waited for", "whole library"),
      ("iterations converge from fixed initial guesses", "FIAT/quadrature.py, FIAT/orthopoly.py")],
     observe=["simulated steps per call"])

prop("C13", "Failing or re-entrant callbacks and point sequences do no harm",
     "Functions to be integrated, projected or evaluated, and user-defined point sequences and quadrature rules, may raise at any evaluation or call back into the "
     "library on the same objects. An exception they raise reaches the caller, nested calls get right answers, and the outer and all later answers are the same as if "
     "the callback had been well-behaved and passive.",
     ["fault_sequences", "schedules"],
     "Every evaluation index at which a callback can fail or re-enter, every nested query, on every object.",
     "Tests use simple lambdas that neither fail nor re-enter.",
     ["FIAT/quadrature.py", "FIAT/polynomial_set.py", "FIAT/functional.py", "FIAT/finite_element.py", "FIAT/quadrature_element.py"],
     [("no state is parked on objects across a callback", "FIAT/quadrature.py integrate; FIAT/polynomial_set.py project; FIAT/functional.py __call__")],
     observe=["integrate, project, functional evaluation, tabulate with user sequences"])

prop("C14", "Elements keep their defining contract through any disturbed history",
     "Whatever concurrent use, failures, interruptions and other constructions an element was built and used amid, it still satisfies its mathematical contract: "
     "the published degrees of freedom applied to its tabulated basis give the identity, degrees of freedom partition over the cell's entities, "
     "tables of derivatives agree with differences of the tables one order below, tabulating on a sub-entity equals tabulating at the mapped points, and quadrature rules integrate the polynomials of their degree exactly.",
     ["schedules", "fault_sequences", "histories"],
     "Every history of interleaved constructions, queries and failures, for every nodal family.",
     "Tests check the contract on undisturbed elements only; comparing runs with each other cannot notice a disturbance that affects all of them alike.",
     ["FIAT/finite_element.py", "FIAT/dual_set.py", "FIAT/functional.py", "FIAT/polynomial_set.py", "FIAT/quadrature_schemes.py"],
     [("nodal basis from inverting the dual matrix", "FIAT/finite_element.py CiarletElement"),
      ("entity ids assigned per topological entity", "dual sets of all families")],
     observe=["dual_basis, tabulate, entity_dofs, create_quadrature"])

prop("C15", "Memory held does not grow with the number of calls",
     "The memory that the library holds depends on the objects that are alive, not on how many calls were made: queries repeated with ever new points, functions or "
     "coefficients, calls that raise or are interrupted, and objects built and dropped again leave nothing behind beyond caches of bounded size.",
     ["histories", "fault_sequences", "schedules"],
     "Every session of queries, constructions and failures, repeated without end, for every object.",
     "Tests end after a few calls and measure no memory, so a table keyed by points, a registry of what was built or a log of failures does not show.",
     ["FIAT/*.py"],
     [("nothing is remembered at module or class level but tables of fixed size", "whole library"),
      ("tables made on first use belong to their object and are made once", "FIAT/serendipity.py, FIAT/expansions.py, FIAT/reference_element.py")],
     observe=["memory allocated in FIAT's files and still held, after collection and with the symbolic library's cache emptied"])

# --- pure functions of the input: not simulation targets -------------------
def pure(id, title, statement, text, why, files, mechanism):
    prop(id, title, statement, ["inputs", "configurations"], text, why, files, mechanism)

pure("C20", "Nodal bases are dual to the published degrees of freedom",
     "For every nodal element family, supported degree, variant and cell, applying the i-th published degree of freedom to the j-th basis function gives 1 when i equals j and 0 otherwise.",
     "All families x degrees x variants x cells.", "Tests sample a few families and degrees.",
     ["FIAT/finite_element.py", "FIAT/dual_set.py", "FIAT/functional.py", "FIAT/nodal_enriched.py"],
     [("generalised Vandermonde inversion", "FIAT/finite_element.py CiarletElement.__init__")])
pure("C21", "Derivative tables are the derivatives of the value tables",
     "Every table of derivatives of any order returned with a tabulation is the corresponding partial derivative of the tabulated basis functions, at every point of the cell and on every sub-entity.",
     "All elements x orders x points x entities.", "Tests compare low orders at a handful of points.",
     ["FIAT/polynomial_set.py", "FIAT/expansions.py", "FIAT/bernstein.py", "FIAT/serendipity.py", "FIAT/tensor_product.py", "FIAT/hdivcurl.py"],
     [("derivative matrices", "FIAT/polynomial_set.py"), ("product rule over factors", "FIAT/tensor_product.py")])
pure("C22", "Quadrature rules are exact for the polynomials of their degree",
     "A quadrature rule requested for a degree integrates every polynomial of that degree over the cell exactly, with its points inside the closed cell, for every cell and scheme.",
     "All cells x degrees x schemes x polynomials.", "Tests cover some degrees of some cells.",
     ["FIAT/quadrature.py", "FIAT/quadrature_schemes.py", "FIAT/orthopoly.py", "FIAT/jacobi.py"],
     [("tabulated and collapsed Gauss rules", "FIAT/quadrature_schemes.py")])
pure("C23", "Shared degrees of freedom give the continuity of the space",
     "Functions on neighbouring cells that agree in the degrees of freedom of a shared entity have there the continuity of their space: values, normal or tangential components, normal-normal components or normal derivatives.",
     "All conforming families x degrees x shared entities and orientations.", "Tests check traces for very few elements.",
     ["FIAT/lagrange.py", "FIAT/raviart_thomas.py", "FIAT/nedelec.py", "FIAT/brezzi_douglas_marini.py", "FIAT/regge.py", "FIAT/hellan_herrmann_johnson.py", "FIAT/argyris.py"],
     [("nodes attached to entities in the order of the reference cell", "dual sets")])
pure("C24", "Degrees of freedom partition over the entities of the cell",
     "Each degree of freedom belongs to exactly one entity of the cell, the numbering covers the whole space, and the degrees of freedom of an entity's closure are those of its sub-entities.",
     "All elements.", "Tests check a few families.",
     ["FIAT/dual_set.py", "FIAT/tensor_product.py", "FIAT/enriched.py", "FIAT/mixed.py", "FIAT/restricted.py"],
     [("closure computed from sub-entities", "FIAT/dual_set.py")])
pure("C25", "Tabulating on a sub-entity equals tabulating at the mapped points",
     "Tabulating an element on a sub-entity of its cell at points of the sub-entity gives the tables obtained by tabulating on the cell at the images of those points.",
     "All elements x entities x points.", "Tests cover some tensor-product cases.",
     ["FIAT/finite_element.py", "FIAT/tensor_product.py", "FIAT/reference_element.py"],
     [("entity transforms", "FIAT/reference_element.py get_entity_transform")])
pure("C26", "Cell geometry and topology are consistent",
     "Normals are orthogonal to tangents and outward, volumes add up, entity transforms map sub-entities onto themselves, and connectivity agrees with vertex incidence, for every cell.",
     "All cells x entities.", "Tests check selected cells.",
     ["FIAT/reference_element.py"], [("explicit topology tables", "FIAT/reference_element.py")])
pure("C27", "Expansion bases are orthogonal polynomial bases",
     "The expansion functions of degree n are mutually orthogonal polynomials spanning all polynomials of degree n on their cell.",
     "All cells x degrees.", "Tests check low degrees.",
     ["FIAT/expansions.py", "FIAT/jacobi.py"], [("Dubiner recurrences", "FIAT/expansions.py")])
pure("C28", "Composite elements are the algebraic combination of their parts",
     "Tensor-product basis functions are products of factor basis functions, enriched and mixed elements list the parts' functions in blocks, restricted elements a subset, and H(div)/H(curl) wrappers place them in the stated component with the stated sign.",
     "All component combinations.", "Tests cover a few combinations.",
     ["FIAT/tensor_product.py", "FIAT/enriched.py", "FIAT/mixed.py", "FIAT/restricted.py", "FIAT/hdivcurl.py"],
     [("block assembly", "FIAT/enriched.py, FIAT/mixed.py")])
pure("C29", "Spaces contain the polynomials they promise",
     "Every element's space contains the full polynomial space its family and degree promise, has the promised dimension and reproduces polynomials by interpolation.",
     "All families x degrees.", "Tests check dimensions of some families.",
     ["FIAT/raviart_thomas.py", "FIAT/nedelec.py", "FIAT/serendipity.py", "FIAT/discontinuous_pc.py"],
     [("explicit space construction", "element modules")])
pure("C30", "Unsupported requests are rejected",
     "Asking for an unsupported cell, degree, variant, scheme or restriction raises an error instead of returning an element or rule with another meaning.",
     "All invalid requests.", "Tests check a few messages.",
     ["FIAT/check_format_variant.py", "FIAT/quadrature_schemes.py", "FIAT/restricted.py", "FIAT/hdiv_trace.py"],
     [("explicit guards", "constructors")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
