#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe, hook_needed=hook)))
S = "lib/nikfemm/src/"
prop("C01", "Models on different threads do not disturb each other",
 "Programs that each build, mesh, solve and evaluate their own models (magnetostatic, current density, multi-layer, or plain matrices, vectors and geometry) on different threads of one process, sharing no object, each get exactly the results they would get alone: bit for bit, exceptions included (a minimum enclosing circle within rounding, since it draws from the C library's random generator). Every one of them completes under every interleaving.",
 ["schedules", "programs"], "every interleaving of any number of caller threads that share no nikfemm object, for every mix of programs",
 "All tests are single-threaded; no test ever has two models in flight, so no interleaving is reached.",
 [S+"triangle/triangle.cpp", S+"mesh/mesh.hpp", S+"algebra/solvers.cpp", S+"magnetostatic/simulation.cpp", S+"current_density/multilayer_simulation.cpp", S+"geometry/circle.cpp"],
 [("all working state is in locals and in the model object", S+"magnetostatic/simulation.cpp generateSystem/solve"), ("predicate constants and point-location random seed of the mesher", S+"triangle/triangle.cpp exactinit/triangleinit")],
 ["return values and exceptions of every public call", "drawing and mesh contents"],
 [("splitter, epsilon, *errbound*", "exact-arithmetic constants recomputed by every meshing call", S+"triangle/triangle.cpp exactinit"), ("randomseed", "point-location sampling state", S+"triangle/triangle.cpp randomnation")])
prop("C02", "Solving and evaluating a generated model are read-only and shareable",
 "Once a model's system has been generated, solving it and evaluating fields and integrals on it (curl, gradient, force, torque, stress, area, mass, barycentre, inertia, power density, products, norms and element access of its matrices; setting voltages on one's own copy of the system and solving that) change neither the model nor the system. Any number of such calls may run at the same time on the same model from several threads and in any order, and each returns exactly what it returns when run alone.",
 ["schedules", "histories"], "every interleaving and every order of solve and evaluation calls on one shared generated model",
 "Tests call each query once, on one thread, on a model nobody else uses.",
 [S+"magnetostatic/simulation.cpp", S+"mesh/mesh.hpp", S+"current_density/simulation.cpp", S+"current_density/multilayer_simulation.cpp", S+"algebra/solvers.cpp", S+"algebra/non_linear.cpp", S+"algebra/csr.cpp", S+"algebra/math.cpp"],
 [("solve builds its own compressed matrix and right-hand side", S+"magnetostatic/simulation.cpp solve"), ("integrals work on copies of polygons and local tables", S+"magnetostatic/simulation.cpp getSurroundingRegionBlockIntegralAssets")],
 ["return values of concurrent calls", "contents of drawing, mesh and system before and after"])
prop("C03", "Results do not depend on the process environment",
 "For the same sequence of calls the results are bit-for-bit the same whatever memory the allocator hands out (addresses and previous contents of heap and stack), whatever the clock reads or does (including jumping backwards), whatever the state of the C library's random generator, whatever the process locale (for example one with a decimal comma), whatever the number of processors, the environment variables and the process id, and whether or not the console accepts the library's log output.",
 ["configurations", "fault_sequences"], "every heap and stack content and layout, clock reading, random-generator state, process locale and console behaviour",
 "Tests run in one environment: fresh zeroed heap, C locale, working console, real clock.",
 [S+"mesh/mesh.hpp", S+"triangle/triangle.cpp", S+"utils/utils.cpp", S+"magnetostatic/simulation.cpp", S+"magnetostatic/mesh.cpp", S+"current_density/mesh.cpp", S+"algebra/non_linear.hpp", S+"geometry/circle.cpp"],
 [("every field is initialised before use", S+"mesh/mesh.hpp, "+S+"triangle/triangle.cpp"), ("options are passed to the mesher as text", S+"mesh/mesh.hpp Mesh::mesh, "+S+"triangle/triangle.cpp parsecommandline"), ("the clock is read for log messages only", S+"magnetostatic/simulation.cpp solve")],
 ["return values, exceptions, drawing and mesh contents"])
prop("C04", "Results do not depend on what the process did before",
 "A model built and evaluated after any history of other library calls in the same process - other models generated, solved, evaluated, still alive, destroyed, or interleaved with it call by call, and calls that were rejected or failed part-way - behaves exactly as the same model in a fresh process (a minimum enclosing circle: within rounding).",
 ["histories", "fault_sequences"], "every history of earlier and interleaved calls on other objects, including rejected and aborted ones",
 "Each test case runs in its own fresh process with one model.",
 [S+"triangle/triangle.cpp", S+"mesh/mesh.hpp", S+"drawing/drawing.hpp", S+"magnetostatic/simulation.cpp", S+"current_density/simulation.cpp", S+"current_density/multilayer_simulation.cpp", S+"algebra/solvers.cpp", S+"geometry/circle.cpp"],
 [("no result is cached outside the model object", "all of "+S), ("mesher state is initialised on each call", S+"triangle/triangle.cpp triangleinit/exactinit")],
 ["return values, exceptions, drawing and mesh contents"])
prop("C05", "Allocation failure anywhere surfaces as an exception",
 "If any memory allocation inside any library call fails (any single one, a burst, all large ones, or everything past a memory budget), that call either throws a C++ exception to its caller or delivers exactly its normal result: it never crashes, exits or aborts the process, hangs, or returns a wrong or partial result. The objects involved can still be destroyed, and the same work started afresh afterwards succeeds with the normal result.",
 ["fault_sequences"], "every subset of allocations inside every call failing",
 "No test makes an allocation fail.",
 [S+"mesh/mesh.hpp", S+"triangle/triangle.cpp", S+"algebra/coo.hpp", S+"algebra/csr.cpp", S+"algebra/solvers.cpp", S+"drawing/drawing.hpp", S+"magnetostatic/simulation.cpp", S+"current_density/multilayer_simulation.cpp"],
 [("C++ containers throw std::bad_alloc", "all of "+S), ("trimalloc checks and triexit throws", S+"triangle/triangle.cpp trimalloc/triexit"), ("input and output arrays of the mesher are malloc/realloc-ed", S+"mesh/mesh.hpp Mesh::mesh, addKelvinBoundaryConditions")],
 ["outcome of the call", "process survival", "results of later calls"])
prop("C06", "A call that failed can simply be repeated",
 "If a call on a model or matrix fails because of a transient resource failure, the caller may repeat that call on the same object once the cause is gone, as often as needed, and then continue: from there on everything (drawing, mesh, system, solution, evaluations) is exactly as if the failure had never happened.",
 ["fault_sequences", "histories"], "every failing allocation point in every call of every program, and every number of failed attempts before the successful one",
 "No test makes a call fail and then repeats it.",
 [S+"drawing/drawing.hpp", S+"mesh/mesh.hpp", S+"magnetostatic/simulation.cpp", S+"current_density/simulation.cpp", S+"current_density/multilayer_simulation.cpp", S+"algebra/system.hpp", S+"algebra/coo.hpp"],
 [("drawing calls re-use points and segments that are already there", S+"drawing/drawing.hpp drawSegment"), ("system generation restores the drawing it modifies when it fails", S+"magnetostatic/simulation.cpp, "+S+"current_density/simulation.cpp, "+S+"current_density/multilayer_simulation.cpp generateSystem")],
 ["digests of drawing, mesh, system and results after the successful repeat"])
prop("C07", "All memory is released exactly once and never accessed outside its life",
 "After the objects of a program have been destroyed, every byte the library allocated for them has been released, exactly once, for every history of calls: models re-generated, generated models copied, assigned or stored in containers, and calls that threw half-way. No library call reads or writes a heap block outside its bounds or after its release.",
 ["histories", "fault_sequences"], "every sequence of calls, copies, re-generations, failures and destructions",
 "Tests exit without checking what is still allocated and never copy, re-generate or fail a model.",
 [S+"mesh/mesh.hpp", S+"triangle/triangle.cpp", S+"current_density/multilayer_simulation.cpp", S+"current_density/simulation.cpp", S+"algebra/non_linear.hpp"],
 [("mesh arrays are freed by the mesh destructor", S+"mesh/mesh.hpp ~Mesh"), ("mesher pools are freed at the end of a meshing call", S+"triangle/triangle.cpp triangledeinit")],
 ["ledger of live heap blocks", "bounds of every instrumented access"])
prop("C08", "A file-writing call that returns has written the whole file",
 "If a call that writes a file (matrix dump, matrix picture, drawing picture, node or element field picture) returns normally, the file has the complete content; if the file could not be opened, written in full, flushed or closed, the call throws an exception. In both cases no file stays open, the model is unchanged, and the same call succeeds once the disk works again.",
 ["fault_sequences"], "every placement of open, write (short, interrupted, failing, disk full), flush and close errors in every file-writing call",
 "No test writes a file to a failing disk, and no test reads a written file back.",
 [S+"algebra/csr.cpp", S+"drawing/drawing.hpp", S+"mesh/mesh.hpp"],
 [("the stream is checked after opening", S+"algebra/csr.cpp BaseCSR::write_to_file"), ("images are encoded and written through OpenCV", S+"drawing/drawing.hpp plotToFile, "+S+"mesh/mesh.hpp *PlotToFile, "+S+"algebra/csr.cpp BaseCSR::plot")],
 ["bytes on the simulated disk", "open descriptors", "outcome of the call"])
prop("C09", "The minimum enclosing circle does not depend on the random draws",
 "The minimum enclosing circle of a finite set of points contains all of them and is no larger than the smallest possible circle (both within rounding), whatever values the random generator delivers while it is computed and whichever way the points are given (list or set). The input is not needed in any particular order.",
 ["schedules", "inputs"], "every sequence of random draws (constant, extreme, adversarial, pseudo-random) and point order, over finite point sets",
 "No test calls it; a test would see the one random sequence the C library starts with.",
 [S+"geometry/circle.cpp", S+"geometry/circle.hpp"],
 [("Welzl's algorithm with random pivots", S+"geometry/circle.cpp welzlHelper"), ("initial shuffle", S+"geometry/circle.cpp getMinimumEnclosingCircle")],
 ["returned circle against an independent exhaustive reference"])
prop("C10", "Python: every failure is a Python exception and the interpreter survives",
 "No call into the Python module ends the interpreter, corrupts it, or returns a wrong value because something failed below it: geometry the library rejects, a model it cannot mesh, wrong or out-of-range arguments, or a failing allocation (in C++ or in Python) makes that call raise a Python exception; a call rejected for its arguments changes nothing. Afterwards the interpreter, the objects involved and new objects remain usable, and repeating the call without the failure gives the normal result.",
 ["fault_sequences", "histories"], "every failing allocation and every rejected call in every sequence of calls of the module",
 "The Python test runs one successful scenario.",
 ["python/nikfemm.cpp"],
 [("argument checks raise TypeError/ValueError", "python/nikfemm.cpp"), ("C++ exceptions are translated at the boundary", "python/nikfemm.cpp")],
 ["Python exceptions", "process survival", "returned lists"])
prop("C11", "Python: dropping the objects releases everything",
 "After any sequence of calls into the Python module, successful or failing, once the program drops its references every C++ object and every Python object the module created has been released: repeating a sequence does not make the process hold more memory or more Python objects.",
 ["histories", "fault_sequences"], "every sequence of calls, including raising ones and ones that fail on allocation",
 "The Python test runs once and exits; nothing checks reference counts or memory.",
 ["python/nikfemm.cpp"],
 [("deallocators delete the C++ objects", "python/nikfemm.cpp *_dealloc"), ("result tuples own their items", "python/nikfemm.cpp generateSystem/solve")],
 ["allocator ledgers of both languages before and after", "reference counts"])
prop("C12", "Copies of a model or system are independent of the original",
 "Copying or assigning a model, mesh or system (before or after its system was generated) gives an object that behaves exactly like the original did at that moment; from then on any interleaving of calls on the two, from one thread or several, and the destruction of either, never affects the other. If the copy itself fails for lack of memory, the original is unaffected.",
 ["histories", "schedules", "fault_sequences"], "every interleaving of calls on original and copy, every moment of copying, and every failing allocation while copying",
 "No test copies a generated model.",
 [S+"mesh/mesh.hpp", S+"magnetostatic/simulation.hpp", S+"current_density/simulation.cpp", S+"current_density/multilayer_simulation.hpp", S+"algebra/system.hpp", S+"algebra/non_linear.hpp"],
 [("mesh arrays are duplicated by copy construction and assignment", S+"mesh/mesh.hpp"), ("container members copy themselves", S+"drawing/drawing.hpp, "+S+"algebra/coo.hpp")],
 ["results of every call on both objects", "process survival"])
prop("C13", "Library calls leave the process's settings as they found them",
 "Whatever state its caller put the process and the thread in (floating-point rounding mode and flush-to-zero, C and C++ locale, formatting state of the standard streams, signal handlers and mask, terminate and new handlers, umask, working directory, environment, resource limits, timers, priority, CPU affinity, open descriptors, seeding of rand() (numbers may be drawn from it), OpenCV's thread setting), every nikfemm call leaves it exactly as it was, whether the call returns, is refused, or fails half-way for lack of memory, a failing disk or a failing console, and while other threads run nikfemm too.",
 ["configurations", "fault_sequences", "schedules"], "every setting the caller may have chosen, every call, and every way the call can end",
 "Tests run with default settings and never look at them; a setting left changed on an error path shows up in the caller's own code, not in nikfemm's results.",
 [S+"triangle/triangle.cpp", S+"algebra/solvers.cpp", S+"algebra/csr.cpp", S+"mesh/mesh.hpp", S+"drawing/drawing.hpp", S+"magnetostatic/simulation.cpp", S+"utils/utils.cpp"],
 [("the mesher's start-up code, where the original Triangle sets floating-point control words", S+"triangle/triangle.cpp exactinit"), ("log and print functions write to stdio and to local streams", S+"utils/utils.cpp, "+S+"algebra/csr.cpp")],
 ["settings of the process and the thread before and after every call"])
prop("C14", "A call that is refused changes nothing",
 "A call the library refuses (a shape that crosses what is drawn, a point that lies in no polygon, an impossible mesh setting, an index that is out of range, a file that cannot be made) leaves the drawing, mesh, model, system and matrix exactly as they were: the program that carries on after the refusal gets bit for bit the results it would have got had it never made the call, however often the call is repeated and also if memory ran out inside it.",
 ["histories", "fault_sequences"], "every refused call at every place of every program, repeated, with any allocation in it failing",
 "Tests make no refused calls on a model that is used afterwards.",
 [S+"drawing/drawing.hpp", S+"mesh/mesh.hpp", S+"magnetostatic/simulation.cpp", S+"current_density/simulation.cpp", S+"current_density/multilayer_simulation.cpp", S+"algebra/coo.hpp"],
 [("shapes are checked before, or taken back after, drawing", S+"drawing/drawing.hpp"), ("arguments are checked before a matrix or boundary value is stored", S+"algebra/coo.hpp, "+S+"current_density/simulation.cpp")],
 ["results of every later call", "contents of drawing, mesh, system and matrix"])
# properties this family cannot decide (pure functions of their input): see MANIFEST.json not_applicable
prop("C50", "The computed field solves the stated problem",
 "The solution returned for a magnetostatic or current-density model satisfies the assembled linear or non-linear equations to the stated tolerance, and converges to the analytic field as the mesh is refined.",
 ["inputs"], "every drawable geometry, material assignment and mesh setting",
 "Tests compare no field with a reference.", [S+"magnetostatic/simulation.cpp", S+"current_density/simulation.cpp", S+"algebra/solvers.cpp"],
 [("SSOR-preconditioned conjugate gradients to a residual bound", S+"algebra/solvers.cpp")], ["solution vector"])
prop("C51", "Compressed matrices equal the coordinate matrices they are built from",
 "For every symmetric coordinate matrix with a full diagonal, every entry read from the compressed matrix equals the coordinate entry, and products, triangular parts and factorisations agree with dense arithmetic.",
 ["inputs"], "every symmetric coordinate matrix with a full diagonal", "Tests sample a few small matrices.",
 [S+"algebra/csr.cpp", S+"algebra/math.cpp", S+"algebra/coo.hpp"], [("sort by key and prefix sum", S+"algebra/csr.cpp BaseCSR")], ["matrix entries and products"])
prop("C52", "Fixing a node value keeps the system symmetric and exact",
 "Imposing a Dirichlet value makes the solution take that value at the node and leaves the solution at all other nodes equal to that of the eliminated system; imposing several in any order gives the same system.",
 ["inputs"], "every system, node set and values", "No test imposes and checks boundary values.",
 [S+"algebra/system.hpp"], [("row and column elimination", S+"algebra/system.hpp addDirichletBoundaryCondition")], ["system after imposing"])
prop("C53", "The mesh conforms to the drawing",
 "Every generated mesh covers the drawn domain without gaps or overlaps, contains every drawn point and segment, respects the area and angle bounds, and gives each triangle the region it lies in.",
 ["inputs"], "every drawing and mesh setting", "Tests check that meshing runs.",
 [S+"mesh/mesh.hpp", S+"triangle/triangle.cpp"], [("constrained Delaunay refinement", S+"triangle/triangle.cpp")], ["mesh arrays"])
prop("C54", "Geometric predicates are consistent",
 "Containment, intersection, distance and orientation answers for points, segments, polygons and circles are mutually consistent and invariant under translation and vertex rotation.",
 ["inputs"], "every finite coordinate input", "No test covers degenerate input.",
 [S+"geometry/polygon.cpp", S+"geometry/segment.cpp"], [("predicates", S+"geometry/segment.cpp")], ["return values"])
prop("C55", "Integral quantities agree with geometry",
 "Area, mass, barycentre and inertia of a region equal the values of the drawn shape, and forces on a body in a uniform field balance.",
 ["inputs"], "every drawable region", "Tests compute no integral.",
 [S+"mesh/mesh.hpp", S+"magnetostatic/simulation.cpp"], [("sums over elements", S+"mesh/mesh.hpp")], ["return values"])
prop("C56", "Python results equal the C++ results",
 "For the same calls and arguments the lists returned by the Python module hold exactly the numbers the C++ classes compute.",
 ["inputs"], "every argument list", "The Python test prints results and compares nothing.",
 ["python/nikfemm.cpp"], [("conversion loops", "python/nikfemm.cpp")], ["returned lists"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
