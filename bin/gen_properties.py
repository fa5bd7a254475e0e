#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator only for readability)."""
import json, os
I = "src/include/"
INTP, TPL, BSP, LU, BM, MESH, POOL, UTIL, AL = (I + f for f in (
    "Interpolation.hpp", "InterpolationTemplate.hpp", "BSpline.hpp",
    "BandLU.hpp", "BandMatrix.hpp", "Mesh.hpp", "DedicatedThreadPool.hpp",
    "util.hpp", "aligned-allocator.hpp"))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Interpolation reproduces the data at every grid point",
 "An interpolation function built from data on a Cartesian grid evaluates, at every grid point, to the data value given there (up to floating-point rounding). "
 "On a periodic dimension this includes the point that closes the period, where the function takes the value of the first point, whatever dummy value was supplied there.",
 ["inputs", "configurations"],
 "every data set, grid size from the smallest solvable one up, spline order, number of dimensions, mix of periodic/aperiodic and uniform/non-uniform dimensions, coordinate range and build option",
 "The tests check a few orders on two or three fixed meshes, compiled only with the cell layout and without dummy points; smallest grids, even orders, mixed periodicity in several dimensions and the default layout are never built.",
 [INTP, TPL, BSP, LU],
 [("collocation matrix assembly", TPL + ": build_solver_"), ("dimension by dimension solve", TPL + ": solve_for_control_points_"), ("knot vectors", INTP + ": create_knot_vector_")],
 [("control points", "spline coefficients", BSP + ": control_points_")], ["InterpolationFunction::operator()"])

prop("C02", "Between grid points the value is that of the defining spline",
 "Everywhere inside the interpolation range the function equals the unique tensor-product spline of the chosen order that passes through the data, for the knots the library documents: clamped ends with averaged interior knots on an aperiodic dimension, and on a periodic dimension the grid points (odd order) or the midpoints between them (even order). "
 "In particular it depends linearly on the data and, on aperiodic dimensions, it reproduces every polynomial of degree up to the order in each coordinate.",
 ["inputs", "configurations"],
 "every data set, evaluation point, grid shape and spacing, order, dimension count, periodicity mix and build option",
 "The tests compare a few dozen points of a few fixed cases against Mathematica output; whole cells, orders and layouts are never evaluated.",
 [INTP, TPL, BSP],
 [("basis recursion", BSP + ": base_spline_value"), ("segment search with hint", BSP + ": get_knot_iter / " + INTP + ": add_hint_for_spline"), ("knot placement", INTP + ": create_knot_vector_")],
 [("knots", "knot vector per dimension", BSP + ": knots_")], ["InterpolationFunction::operator()"])

prop("C03", "Outside the range an aperiodic dimension continues its end polynomial",
 "Unchecked evaluation (values and derivatives) at a coordinate outside the range of an aperiodic dimension is defined: it continues the polynomial piece of the nearest end of that dimension, independently of where the other coordinates lie.",
 ["inputs", "configurations"],
 "every point outside the range in any subset of the dimensions, at any distance, for every order, shape, periodicity mix and build option",
 "No test evaluates outside the range except to see the checked accessors throw.",
 [BSP, INTP],
 [("clamped segment search", BSP + ": get_knot_iter"), ("hint clamping", INTP + ": add_hint_for_spline / derivative_helper")],
 [], ["InterpolationFunction::operator()", "InterpolationFunction::derivative"])

prop("C04", "Periodic dimensions repeat exactly with the given period",
 "Moving a coordinate of a periodic dimension by any whole number of periods (the length of the given range, in either direction) changes neither the value nor any derivative, including at coordinates that fall exactly on grid points, on cell boundaries or on the ends of the range, and the function is as smooth across the seam as elsewhere.",
 ["inputs", "configurations"],
 "every coordinate, number of periods, order, shape, combination with other dimensions and build option",
 "The tests shift a few random coordinates by one period for one order; coordinates landing exactly on seams, cell boundaries and negative multiples are not enumerated.",
 [BSP, INTP],
 [("coordinate wrapping", BSP + ": get_knot_iter"), ("period and range bookkeeping", BSP + ": load_knots / " + INTP + ": create_knot_vector_")],
 [("range", "start and end of the period", BSP + ": range_")], ["InterpolationFunction::operator()", "InterpolationFunction::derivative"])

prop("C05", "Derivatives are the exact partial derivatives of the spline",
 "The derivative accessors return the exact mixed partial derivative of the interpolating spline for every combination of derivative orders: order zero in all dimensions gives the function value, and any order above the spline order gives zero. "
 "All forms of the call (coordinate array with order array, with a list of orders, or coordinate-order pairs) give the same result.",
 ["inputs", "configurations"],
 "every point, every combination of derivative orders per dimension (including beyond the spline order), spline order, shape, periodicity mix and build option",
 "The tests sample a few low derivative orders of cubic splines in one layout.",
 [BSP, INTP],
 [("control point differencing", BSP + ": derivative_at"), ("right-aligned lower-order basis", BSP + ": base_spline_value")],
 [], ["InterpolationFunction::derivative", "InterpolationFunction::derivative_at"])

prop("C06", "Checked access throws domain_error exactly outside the closed range",
 "The checked accessors (value and derivative) throw std::domain_error if and only if some coordinate of an aperiodic dimension lies outside the closed range given at construction, and otherwise return exactly what the unchecked accessors return. "
 "Coordinates of periodic dimensions never cause a rejection, and the reported range of an aperiodic dimension is the given one.",
 ["inputs", "configurations"],
 "every coordinate tuple including the exact ends of the range and their floating-point neighbours, every order, dimension count, periodicity mix, call form and build option",
 "The tests probe one or two clearly outside points for cubic splines.",
 [INTP, BSP],
 [("boundary check", INTP + ": boundary_check_"), ("range of a loaded knot vector", BSP + ": load_knots")],
 [("range", "accepted interval per dimension", BSP + ": range_")], ["InterpolationFunction::at", "InterpolationFunction::derivative_at", "InterpolationFunction::range"])

prop("C07", "Template, direct and convenience construction give the same function",
 "A template built from coordinates produces, for any data set, the same function as direct construction from the same coordinates and data, through every form of its interpolate call (mesh or iterator pair, returned by value, consuming the template, or filling an existing function whatever that held before), any number of times and in any order. "
 "The one-dimensional convenience classes and shorthand constructors are equivalent to the full constructors with the documented defaults (aperiodic; coordinates 0, 1, 2, ...).",
 ["inputs", "histories", "configurations"],
 "every coordinate set, sequence of data sets, call form, order, periodicity and build option",
 "The tests interpolate two or three data sets from one template in one configuration and do not compare the call forms with each other.",
 [TPL, INTP],
 [("shared base function copied per result", TPL + ": interpolate"), ("default coordinates", INTP + ": InterpolationFunction1D, " + TPL + ": InterpolationFunctionTemplate1D")],
 [("base function", "knots without weights", TPL + ": base_"), ("solvers", "factorised collocation matrices", TPL + ": solvers_")], ["InterpolationFunctionTemplate::interpolate"])

prop("C08", "Functions and templates are independent values",
 "Functions and templates behave as values under every sequence of construction, copying, moving, assignment (also to itself), filling, evaluation and destruction: a copy equals its source and is unaffected by whatever later happens to the source, a moved-to object equals what the source was, and a function never depends on the lifetime of the template or data it came from. "
 "Evaluating is an observation: results do not depend on earlier evaluations.",
 ["histories", "configurations"],
 "every sequence of value operations and evaluations on a small set of objects, every language standard and build option",
 "Tests use each object once, in one scope and one language standard.",
 [TPL, INTP, BSP, MESH],
 [("solver storage", TPL + ": EitherSolver"), ("compiler generated copies of spline and mesh", BSP + ", " + MESH)],
 [], ["copy/move construction and assignment of InterpolationFunction and InterpolationFunctionTemplate"])

prop("C09", "Build options and language standard never change results",
 "Every combination of the documented build options (cell layout, multithreading, periodic data without dummy point, assertions, debug and trace logging, stack allocator) and every language standard from C++11 on compiles and yields, for the same valid data, the same values and derivatives up to rounding. "
 "The only visible difference is the documented one: without dummy points a periodic dimension takes one data value less.",
 ["configurations", "inputs"],
 "every combination of build macros and language standards, over the same enumerated inputs",
 "CMake compiles the tests for a single standard with two fixed macro sets; most combinations are never even compiled.",
 [INTP, TPL, BSP, UTIL, POOL],
 [("alternative evaluation and storage paths", BSP + ": INTP_CELL_LAYOUT"), ("alternative solver storage and index mapping", TPL + ": __cplusplus, INTP_PERIODIC_NO_DUMMY_POINT")],
 [], ["all public classes"])

prop("C10", "A precomputed evaluation proxy equals direct evaluation",
 "An evaluation proxy obtained from a template for given coordinates, applied to any function produced from that template, returns the value that function gives at those coordinates, for coordinates inside, on the boundary of and outside the range, however often and on however many functions it is reused, and independently of the template's later fate.",
 ["inputs", "histories", "configurations"],
 "every coordinate tuple, order, dimension count, shape, periodicity mix, language standard and set of functions from the template",
 "The proxy test is one shape and order and is not even part of the reliable test set.",
 [BSP, INTP, TPL],
 [("coefficient capture", BSP + ": pre_calc_coef"), ("cell stride from knots", BSP + ": calculate_cell_dim_from_knots")],
 [], ["InterpolationFunctionTemplate::eval_proxy"])

prop("C11", "Band matrices and their LU solvers agree with dense linear algebra",
 "For every band matrix shape (dimension, lower and upper bandwidth) element access, matrix-vector product and LU solution agree with the dense matrix holding the same entries; this holds for plain band matrices and for those with periodic corner entries, for solving into a new vector or in place, and for every container or iterator kind accepted. Factorising a matrix the caller keeps, multiplying and solving into a new vector leave their arguments unchanged.",
 ["inputs"],
 "every dimension, pair of bandwidths, diagonally dominant entries and right-hand side",
 "The tests solve a few fixed matrices with equal bandwidths.",
 [LU, BM],
 [("factorisation and substitution", LU + ": compute_impl / solve_in_place_impl"), ("band storage mapping", BM + ": operator(), side_bands_val, operator*")],
 [("bands", "diagonals of the matrix", BM + ": bands_")], ["BandLU::solve", "BandLU::solve_in_place", "BandMatrix::operator*"])

prop("C12", "A mesh stores each element exactly once and its iterators visit it in order",
 "A mesh of any shape maps every in-range index tuple to its own element in row-major order, and all access paths (index list, index array, flat iteration, per-dimension iterators, conversion between flat position and indices, copies between allocators, resizing) agree on it. "
 "A per-dimension iterator visits exactly the elements of its line in order and behaves as a random-access iterator, for mutable and const meshes; storage of spline coefficients is aligned to 32 bytes.",
 ["inputs", "histories"],
 "every mesh shape, dimension, line, sequence of iterator movements and allocator",
 "The tests index one or two fixed meshes.",
 [MESH, AL, UTIL],
 [("index arithmetic", MESH + ": indexing, dimwise_indices, dim_acc_size"), ("strided iterator", MESH + ": skip_iterator"), ("aligned allocation", AL + ": AlignedAllocator")],
 [("storage", "row-major elements", MESH + ": storage_")], ["Mesh", "MeshDimension"])

prop("C13", "Every queued task runs exactly once and its result reaches its future",
 "Every task submitted to the thread pool while the pool stays alive is executed exactly once, on a pool thread, and its future becomes ready with the task's result or with the exception it threw; a throwing task harms neither the pool nor other tasks. "
 "This holds for any number of worker threads, submitters (including tasks that submit tasks) and tasks, under every thread interleaving, without data races or lost wake-ups, as long as no task waits for another queued task.",
 ["schedules", "inputs"],
 "every interleaving of submitters and workers, number of workers and tasks, position of throwing tasks",
 "A test run samples a handful of schedules of one workload.",
 [POOL],
 [("main queue under mutex and condition variable", POOL + ": queue_task / thread_loop"), ("batched transfer and stealing", POOL + ": try_pop_from_main / try_steal_from_others")],
 [("main queue", "submitted tasks", POOL + ": main_queue"), ("worker queues", "tasks taken in batches", POOL + ": worker_queues")], ["DedicatedThreadPool::queue_task", "std::future::get"])

prop("C14", "Pool start-up and shut-down always terminate and leave no future hanging",
 "Creating and destroying the thread pool always terminates under every interleaving: all started worker threads are joined, a task that has started is finished, and each future of a task that will no longer run is released with a broken-promise error instead of blocking. "
 "If a worker thread cannot be created, the error is reported to the caller and the threads already started are joined.",
 ["schedules", "fault_sequences"],
 "every interleaving of shutdown with idle, waking and busy workers, any number of pending tasks, and failure of any single thread creation",
 "Shutdown happens once per test process at exit under one schedule; thread creation never fails in tests.",
 [POOL],
 [("termination flag and notify_all", POOL + ": destructor"), ("joining guard", POOL + ": JoinThreads"), ("constructor rollback", POOL + ": constructor catch block")],
 [("should_terminate", "tells workers to leave", POOL + ": should_terminate")], ["process exit / pool destruction", "std::future::get"])

prop("C15", "Multithreaded construction is schedule independent and race free",
 "With multithreading enabled, building interpolation functions (also through templates, with the cell layout, and from several user threads at once) returns, under every interleaving of the pool's threads, results bit-identical to each other and equal to the single-threaded build, without data races, deadlock or use of dead objects. "
 "All work on the function is finished when the building call returns.",
 ["schedules", "configurations", "inputs"],
 "every interleaving of user threads and workers, number of workers, layouts and mesh shapes including those whose size is not divisible by the number of blocks",
 "Tests run one schedule of a few shapes; a race or a block left out shows only for particular schedules or sizes.",
 [TPL, BSP, POOL],
 [("block partition of lines", TPL + ": solve_for_control_points_"), ("block partition of cells", BSP + ": generate_cell_layout"), ("waiting on futures", TPL + ", " + BSP)],
 [], ["InterpolationFunctionTemplate::interpolate", "InterpolationFunction constructors"])

prop("C16", "Const functions and templates may be shared by threads without locking",
 "Concurrent use of the same const function, template or proxy from several threads (evaluation, checked evaluation, derivatives, interpolating new data from a shared template, creating and applying proxies, copying) is free of data races and gives every thread the result it would get alone.",
 ["schedules", "configurations"],
 "every interleaving of two or more threads performing any combination of const operations on shared objects, every build option",
 "No test evaluates from more than one thread.",
 [INTP, TPL, BSP],
 [("evaluation without shared mutable state", BSP + ": operator(), derivative_at, base_spline_value"), ("const interpolate", TPL + ": interpolate")],
 [], ["const member functions of InterpolationFunction and InterpolationFunctionTemplate"])

prop("C17", "Assertion mode rejects exactly the invalid inputs",
 "With assertions enabled, construction throws std::runtime_error if and only if the given coordinates of a non-uniform dimension are not strictly increasing or do not match the number of data points, or a spline built directly from knots and control points has inconsistent counts; out-of-range mesh or band element access through the checked forms throws as well. "
 "Valid input is never rejected and gives the same results as without assertions, and a rejected construction leaves the program usable.",
 ["inputs", "configurations"],
 "every position of a repeated or decreasing coordinate, every mismatch of counts, every dimension in which it occurs, every periodicity and dummy-point mode",
 "No test feeds invalid coordinates.",
 [INTP, BSP, MESH, BM, UTIL],
 [("count and monotonicity assertions", INTP + ": create_knot_vector_"), ("count assertion", BSP + ": constructor"), ("index assertions", MESH + ": indexing_safe, " + BM)],
 [], ["constructors under INTP_ENABLE_ASSERTION"])

prop("C18", "No out-of-bounds access, uninitialised read or undefined arithmetic",
 "For every valid construction and every finite coordinate, building, copying and evaluating (values, derivatives, proxies, direct splines, meshes and solvers) accesses only memory it owns, reads only initialised values, frees what it allocates and performs no undefined operation, in every build configuration.",
 ["inputs", "configurations"],
 "every grid shape from the smallest solvable one, order, dimension count, periodicity mix, coordinate (on and next to every knot, seam and end of range, far outside) and build option",
 "Tests run under ASan in one configuration and only at a few interior points.",
 [BSP, INTP, TPL, LU, BM, MESH, AL],
 [("index and hint clamping", INTP + ": add_hint_for_spline"), ("cell layout sizing", BSP + ": generate_cell_layout"), ("segment search limits", BSP + ": get_knot_iter")],
 [], ["all public classes under AddressSanitizer, UBSan and Memcheck"])

prop("C19", "Failed allocations surface as bad_alloc and damage nothing",
 "If any single memory allocation made by the calling thread fails while a mesh, template, function, proxy or derivative is being made, copied, filled or evaluated, std::bad_alloc reaches the caller, nothing leaks or is freed twice, and the template, the source data and all other existing functions keep working and give unchanged results.",
 ["fault_sequences", "configurations"],
 "every position of the failing allocation in every operation, in every layout and threading mode",
 "Tests never make an allocation fail.",
 [TPL, INTP, BSP, MESH, AL],
 [("RAII containers", MESH + ", " + TPL), ("null check of aligned allocation", AL + ": AlignedAllocator::allocate")],
 [], ["all construction, copy and evaluation calls"])

prop("C20", "All supported value and coordinate types give the same spline",
 "Interpolating values of any type closed under addition and scaling (float, double, long double, complex, small vectors) equals interpolating each component on its own, and coordinates given as float, double, long double or integers denote the same grid as their double equivalents, up to the precision of the type used. "
 "Values are treated linearly: scaling or adding data sets scales or adds the functions.",
 ["inputs", "configurations"],
 "every supported value and coordinate type, order, shape, periodicity mix, evaluation or (for scalar and complex types) derivative call, and build option",
 "The tests instantiate double almost exclusively, with one float coordinate case and one vector type.",
 [INTP, TPL, BSP],
 [("type parameters T and U", INTP + ", " + TPL + ", " + BSP)],
 [], ["InterpolationFunction<T, D, O, U>"])

prop("C21", "A spline built from knots and control points equals its basis expansion",
 "A spline constructed directly from knots and control points evaluates, for values and derivatives, to the sum of control points times the B-spline basis functions of its knots, for every admissible knot vector (repeated interior knots, uneven spacing, clamped, unclamped or periodic ends) and every dimension. "
 "The position hint passed with a coordinate affects only speed, never the result, a precomputed evaluator of the spline gives the same value when applied to any spline on the same knots, and the reported range, knots, order and periodicity are those given.",
 ["inputs", "configurations"],
 "every knot multiplicity pattern, order, number of control points, coordinate, hint value and build option",
 "The tests evaluate three fixed splines.",
 [BSP],
 [("basis recursion", BSP + ": base_spline_value"), ("segment search with hint", BSP + ": get_knot_iter")],
 [("knots", "knot vector per dimension", BSP + ": knots_")], ["BSpline::operator()", "BSpline::derivative_at"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
