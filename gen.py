#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. The properties are stated here, once."""
import json, os
from checks import CHECKS
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = []
MON = "runtime monitoring: "


def P(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files, mech=mech,
                      technique=MON + technique, note=note, state=state, observe=observe or ["public API results"]))


SAN = "randomised workloads with ASan+UBSan, debug and release builds; holds for what was generated, not proved for all inputs"

P("C01", "Exact unit, scaling and rational algebra",
  "Products, quotients, rational powers and roots of units, scaling factors and rational constants are the exact mathematical ones: dimensions, scales, signs and fractions are never lost or changed, whatever the order of the operations. Two of them compare equal exactly when they denote the same quantity (the same value in any representation), and an impossible operation (zero denominator, non-positive power of zero) is refused.",
  "inputs", "all rationals with small to large numerator and denominator of either sign, all unit expressions over the named units, prefixes, numbers and rational powers",
  "tests evaluate a few dozen fixed expressions, mostly with positive operands",
  ["src/core/ekat_rational_constant.hpp", "src/core/ekat_scaling_factor.hpp", "src/core/ekat_units.hpp"],
  [("RationalConstant normalisation and operators", "ekat_rational_constant.hpp"), ("ScalingFactor operators", "ekat_scaling_factor.hpp"), ("Units operators and ==", "ekat_units.hpp")],
  "algebraic oracle (exact big-rational model) over random expressions, under sanitizers", SAN)
P("C02", "Unit and number text reads back as the same quantity",
  "The text of a rational constant, a scaling factor or a unit denotes, in every format offered, exactly the quantity it was made from: sign, fraction and exponent are never cut or ambiguous. The symbolic text of a composed unit is equivalent to the unit; a text that does not fit in the room there is for it is refused, never cut short or written past its end.",
  "inputs", "all rational constants, scaling factors and unit expressions of the generators",
  "tests compare a handful of strings with expected ones",
  ["src/core/ekat_rational_constant.hpp", "src/core/ekat_scaling_factor.hpp", "src/core/ekat_units.hpp", "src/core/ekat_string_utils.hpp"],
  [("string_repr", "ekat_rational_constant.hpp, ekat_scaling_factor.hpp"), ("to_string of units, get_si_string", "ekat_units.hpp")],
  "independent reader of the printed text, compared with an exact model, under sanitizers", SAN)
P("C03", "Parameter lists behave as typed nested dictionaries",
  "A parameter list always holds, for each name, exactly the last value stored with its type, in nested sublists as well; copies, imports and assignments take over exactly the content they document, also between a list and its own sublists. Reading a missing name or another type, and storing a value that cannot be copied, is refused without changing the list; reading with a default stores and returns the default only if the name is missing. Printing shows every entry in its place, and leaves list and stream as they were.",
  "histories inputs", "random histories of every operation on two nested lists with 14 value types, full state compared after every step",
  "tests do one short scripted sequence; aliasing and overwriting histories are not sampled",
  ["src/core/ekat_parameter_list.hpp", "src/core/ekat_parameter_list.cpp"],
  [("set/get/sublist/import", "ekat_parameter_list.hpp"), ("assignment, print", "ekat_parameter_list.cpp")],
  "online model comparison of random operation histories, under sanitizers", SAN)
P("C04", "YAML input becomes exactly the typed values it denotes",
  "Reading YAML text gives a parameter list with exactly its names, nesting, values and types: booleans, integers, reals, strings and homogeneous sequences of them, honouring quotes, tags, aliases, block styles and every YAML spelling; a null is no parameter. What cannot be represented is refused with an error, and never silently turned into another value.",
  "inputs", "generated documents in block and flow style with all scalar kinds, spellings and extremes; malformed documents",
  "tests read a few fixed small documents",
  ["src/parser/ekat_yaml.cpp", "src/parser/ekat_yaml.hpp"],
  [("parse_node and type detection", "ekat_yaml.cpp")],
  "documents generated together with the tree they denote, exact comparison, under sanitizers", SAN)
P("C05", "Parameter lists written to YAML read back identical",
  "Writing a parameter list to YAML and reading the result gives the same names, nesting, types and values, with names and strings of any text (UTF-8) and every finite double exactly preserved. Content that YAML output does not support is refused, and so is a file that could not be written completely.",
  "inputs", "random nested lists with adversarial strings and keys and doubles over the whole finite range; files cut short by the file system",
  "tests round-trip one list with simple values",
  ["src/parser/ekat_yaml.cpp", "src/core/ekat_parameter_list.cpp"],
  [("write_yaml_file and the emitter", "ekat_yaml.cpp"), ("parser", "ekat_yaml.cpp")],
  "round-trip monitor over random lists, bit-exact comparison, under sanitizers", SAN)
P("C06", "String utilities follow their definitions on any input",
  "Splitting gives the pieces between delimiters and joining puts the delimiter between pieces, so that joining a split restores the pieces; strip and trim remove exactly the asked characters; upper-casing changes letters only; prefix tests and printed padded integers are exact. None of them reads outside its input, loops forever or changes its arguments beyond what it documents, for any bytes.",
  "inputs", "random strings over small and full byte alphabets, delimiters of 1 and more characters, empty cases",
  "tests use a few readable words",
  ["src/core/ekat_string_utils.hpp", "src/core/ekat_string_utils.cpp"],
  [("split, join, strip, trim, upper_case, strint", "ekat_string_utils.*")],
  "independent definitions as oracle over random bytes, under sanitizers", SAN)
P("C07", "Nested list text is accepted iff well formed, and parsed as is",
  "A nested-list text is accepted exactly when it is one well-formed bracketed list, and then the result has exactly its entries, nesting and order. Any other text is refused.",
  "inputs", "texts from the grammar, mutations of them, and all short texts over the significant characters",
  "tests parse a few lists and refuse a few malformed ones",
  ["src/core/ekat_string_utils.cpp"],
  [("valid_nested_list_format, parse_nested_list", "ekat_string_utils.cpp")],
  "independent recursive-descent reader as oracle, exhaustive short texts, under sanitizers", SAN)
P("C08", "Token gathering and similarity indices are exact",
  "Tokenising a phrase gives its words between delimiters, with given atomic phrases kept whole wherever they occur. The Jaccard, Jaro and Jaro-Winkler similarity are the defined indices: within [0,1], 1 for equal strings, symmetric, and never NaN.",
  "inputs", "random phrases, delimiters and atomic strings, random and edited word pairs, and empty strings",
  "tests evaluate a few known pairs",
  ["src/core/ekat_string_utils.cpp"],
  [("gather_tokens, jaccard_similarity, jaro_similarity, jaro_winkler_similarity", "ekat_string_utils.cpp")],
  "independent definitions as oracle over random strings, under sanitizers", SAN)
P("C09", "Case-insensitive strings are a consistent ordered key type",
  "Case-insensitive strings compare, in every mix with plain strings and for each comparison operator, as their upper-case texts do. They form a consistent order on any bytes, so maps and sets keyed by them find a key in any case and hold it once, while the original text is preserved.",
  "inputs histories", "random pairs and re-cased copies, triples of arbitrary bytes, histories of map and set insertions",
  "tests compare one or two pairs",
  ["src/core/ekat_string_utils.hpp", "src/core/ekat_string_utils.cpp"],
  [("CaseInsensitiveString operators", "ekat_string_utils.hpp"), ("caseInsensitive* functions", "ekat_string_utils.cpp")],
  "order-law and model monitors over random strings, under sanitizers", SAN)
P("C10", "Runtime checks fail exactly when they should, and report it",
  "A runtime check evaluates its condition once and fails exactly when it is false, with the requested exception type and a message holding the user's text, the condition and the location; debug-only checks do nothing at all in release builds. A check that fails while another exception unwinds the stack of the same thread never throws (and so never ends the program): it is reported once per unwinding, and later or other threads' failures throw as usual.",
  "inputs histories schedules", "all check forms and exception types, random nested unwinding histories, several threads at different stages",
  "tests check that a few conditions throw; unwinding is tested in one scripted case, threads never",
  ["src/core/ekat_assert.hpp"],
  [("EKAT_REQUIRE/EKAT_ASSERT/EKAT_ERROR macros", "ekat_assert.hpp"), ("throw_exception with its unwinding guard", "ekat_assert.hpp")],
  "monitored random unwinding histories and evaluation counters against a model, under sanitizers", SAN,
  state=[dict(name="unwind warning flag", meaning="whether this thread already reported a suppressed failure", where="ekat_assert.hpp")])
P("C11", "Floating-point trapping is exactly what was last enabled",
  "After any sequence of enabling and disabling floating-point exceptions, exactly those enabled and not disabled since trap, in every precision, and the reported mask and text name exactly those. Exceptions raised before they were enabled do not trap.",
  "histories inputs", "random histories over all subsets of the five exceptions; traps observed in child processes in float, double and long double",
  "tests enable one mask and check a few operations",
  ["src/core/ekat_fpe.cpp", "src/core/ekat_fpe.hpp"],
  [("enable_fpes, disable_fpes, get_enabled_fpes, fpe_config_string", "ekat_fpe.cpp")],
  "model of the mask over random histories, and SIGFPE observed in forked children", SAN, observe=["SIGFPE in child processes", "reported mask and text"])
P("C12", "Communicator shape, collectives, splits and barriers are right",
  "A communicator reports the rank and size of its group, and its collectives (broadcast, scan, all-reduce and all-gather, in place or not) give every rank the defined result for that group, for every supported type, count and operation, touching no other memory. Splitting groups ranks by colour in rank order, a barrier is left only after all ranks reached it, and an invalid group is refused; without MPI it behaves as a group of one.",
  "inputs schedules configurations", "random sequences of collectives on 1, 3, 4 and 6 ranks over world, self, reversed and nested split groups; random delays around barriers; the build without MPI",
  "tests run a few int and double collectives on fixed data",
  ["src/core/ekat_comm.hpp", "src/core/ekat_comm.cpp", "src/core/ekat_comm_serial.cpp"],
  [("collectives", "ekat_comm.hpp"), ("reset_mpi_comm, split, barrier, get_mpi_type", "ekat_comm.cpp"), ("serial stand-in", "ekat_comm_serial.cpp")],
  "per-rank monitors of MPI jobs with guarded buffers and shared-memory arrival marks, under sanitizers", SAN, observe=["results on every rank", "guard zones", "shared arrival marks"])
P("C13", "Factories, test arguments and test status are faithful",
  "A factory creates, with the given arguments, the product whose creator was registered first (or last replaced) under the key, calling it once, and refuses an unknown key by naming it and the registered ones; keys may be of any ordered type, and products may be registered before main. A test session stores its arguments as flags, single and list values by the documented rules, refusing malformed ones without storing anything; a test executable ends with failure exactly when a test failed or its arguments were refused.",
  "histories inputs", "random register/replace/create/clean-up histories on four kinds of factories; generated argument lists; executables with every mix of passing and failing tests",
  "tests register a few products and parse one argument list; the main function itself is not under test",
  ["src/core/ekat_factory.hpp", "src/core/ekat_test_utils.cpp", "src/testing-support/ekat_catch_main.cpp", "src/testing-support/ekat_test_session.cpp"],
  [("register_product, create", "ekat_factory.hpp"), ("parse_test_args", "ekat_test_utils.cpp"), ("split of the arguments, exit status", "ekat_catch_main.cpp"), ("default FPE mask", "ekat_test_session.cpp")],
  "model comparison over random histories and observed child processes, under sanitizers", SAN, observe=["created objects", "session contents", "exit status of child processes"])
P("C14", "Zips, key iterators and type lists walk every entry in step",
  "Walking zipped containers visits each entry of all of them once, in step and by reference (also through proxies and constants), and containers of different sizes are refused. Key iterators visit exactly the keys of a map in order, forwards and backwards; loops over type lists visit the types in order until told to stop, and type maps store and find values by type.",
  "inputs", "random containers of ten kinds and sizes from zero, walked, read and written; all stop points",
  "tests walk a couple of fixed containers",
  ["src/core/ekat_zip.hpp", "src/core/ekat_std_map_key_iterator.hpp", "src/core/ekat_meta_utils.hpp", "src/core/ekat_std_utils.hpp"],
  [("ZipIterator and Zip", "ekat_zip.hpp"), ("map_key_iterator", "ekat_std_map_key_iterator.hpp"), ("TypeListFor, TypeMap", "ekat_meta_utils.hpp")],
  "reference walks as oracle over random containers, under sanitizers", SAN)
P("C15", "Packs compute exactly what scalars would, lane by lane",
  "Every arithmetic operator, compound assignment, increment, comparison, constructor, conversion and math function of packs gives in each lane exactly what the same scalar operation gives on that lane, for every scalar type, pack size and operand form (pack with pack, pack with scalar, scalar with pack), changing no other lane or memory. Default-built packs hold zeros, and the invalid pack the invalid marker of its type.",
  "inputs configurations", "random packs of 5 scalar types and sizes 1 to 16 with special and extreme values, every operator and function, debug, release and vectorised builds",
  "tests try fixed values for a few sizes; each operator has several overloads and a vectorised loop of its own",
  ["src/pack/ekat_pack.hpp", "src/pack/ekat_pack_math.hpp", "src/core/ekat_scalar_traits.hpp"],
  [("operators and constructors", "ekat_pack.hpp"), ("math functions", "ekat_pack_math.hpp")],
  "lane-by-lane comparison monitor against scalar arithmetic over random packs, under sanitizers", SAN)
P("C16", "Masks and where-expressions act on exactly the selected lanes",
  "A mask made by comparing or combining holds in each lane exactly the result for that lane, and any, all, none and negation agree with the lanes. A masked set, masked constructor, masked update or where-expression changes exactly the lanes whose mask is true, to exactly the value the scalar operation gives, and leaves all others as they were; this also holds for scalars with a boolean mask.",
  "inputs", "random masks (none, all, partial) on packs of several types and sizes through every masked operation and where-operator",
  "tests use a couple of fixed masks",
  ["src/pack/ekat_pack.hpp", "src/pack/ekat_pack_where.hpp", "src/kokkos/ekat_where.hpp"],
  [("Mask, set, update", "ekat_pack.hpp"), ("where", "ekat_pack_where.hpp ekat_where.hpp")],
  "lane-by-lane monitor of masked operations against a scalar model, unmasked lanes compared with their old value, under sanitizers", SAN)
P("C17", "Pack reductions, shifts and index maps are exact",
  "Sum, min and max of a pack (masked, or starting from a given value, or not) equal the reduction of the selected lanes, serialised sums bit for bit in lane order; shifts move every lane by one and put the given fill where specified. For every length, the number of packs is the smallest that holds it, and the maps between scalar index, pack index and lane are mutually inverse, with range and array fills in step.",
  "inputs", "random packs of 4 types and sizes 1 to 32 and random lengths, every entry mapped both ways",
  "tests reduce fixed packs of one or two sizes",
  ["src/pack/ekat_pack.hpp", "src/pack/ekat_pack_utils.hpp"],
  [("reduce_sum, min, max, shift_left/right, range", "ekat_pack.hpp"), ("PackInfo", "ekat_pack_utils.hpp")],
  "reference reductions and inverse-map monitors over random packs and lengths, under sanitizers", SAN)
P("C18", "Views of packs and their scalar views are the same entries",
  "Scalarising a view of packs, or repacking it into packs of another size, gives a view whose every entry is exactly the corresponding lane of the original at the same memory, with the matching extents and constness, also for slices of larger views and padded views; what cannot be repacked is refused. Gathering by a pack of indices gives in each lane the entry its index names; shifted gathers give both that entry and the shifted one, marking those whose shift leaves the view as invalid and reading nothing out of bounds; adjacent differences give the difference of neighbouring entries.",
  "inputs", "random views of packs of ranks 0 to 7, static and dynamic extents, slices and padded views, arrays of up to 2^32 entries, gathers by random and nearly regular indices of ranks 1 to 5 in both layouts, all positions",
  "tests check a few shapes and ranks",
  ["src/pack/ekat_pack_kokkos.hpp"],
  [("scalarize, repack", "ekat_pack_kokkos.hpp"), ("index, index_and_shift, adj_diff", "ekat_pack_kokkos.hpp")],
  "address and value monitors of every entry over random shapes, under sanitizers", SAN, observe=["address of every entry", "gathered values"])
P("C19", "Copies between host arrays and device views lose nothing",
  "Copying host arrays to device views and back, packed or not, in C or Fortran order, for lists of views of ranks 1 to 3 with equal or differing sizes, gives back every entry at its place, writes nothing outside the given arrays or the given sizes, and refuses (in debug builds) lists of differing lengths. A transpose holds entry (i,j) at (j,i), for arrays of any size.",
  "inputs", "random lists of views of ranks 1 to 3, packs of 1 to 16 and scalars of 4 types, guarded arrays, new or preallocated views",
  "tests copy a few fixed shapes",
  ["src/pack/ekat_pack_kokkos.hpp"],
  [("host_to_device, device_to_host", "ekat_pack_kokkos.hpp"), ("transpose", "ekat_pack_kokkos.hpp")],
  "round-trip and guard-zone monitors over random shapes, under sanitizers", SAN, observe=["host arrays with guards", "device views"])
P("C20", "Subviews, reshapes and broadcasts address the right entries",
  "A subview, multi-slice subview or subview at a fixed index gives exactly the entries of the original with that index, at the same memory, for every rank, slice position, data type and earlier slicing. A reshape presents the same entries in order under the new extents. A broadcast view gives, at every index, the entry of the original named by the original's own dimensions; random fills set all entries of a view, and nothing between them. Out-of-range slices, reshapes of differing size or of views with gaps, and unfit broadcasts are refused where documented.",
  "inputs", "random views of ranks 1 to 6, const, unmanaged, packed and strided, every slicing, reshapes and broadcasts to ranks up to 8",
  "tests check a few shapes; broadcasting is not compiled by the tests here",
  ["src/kokkos/ekat_subview_utils.hpp", "src/kokkos/ekat_view_utils.hpp", "src/kokkos/ekat_view_broadcast.hpp"],
  [("subview, subview_1", "ekat_subview_utils.hpp"), ("reshape", "ekat_view_utils.hpp"), ("ViewBroadcast", "ekat_view_broadcast.hpp")],
  "address monitors of every entry over random shapes and slices, refusals observed in children, under sanitizers", SAN, observe=["address of every entry", "SIGABRT of debug asserts in children"])
P("C21", "Checks inside kernels stop the program, and the kernel helpers are exact",
  "A kernel check that fails ends the program, with its message where it has one, wherever it is called from (host, kernel, team), and one that holds has no effect; the debug forms exist only in debug builds. upper_bound finds the first greater entry of any sorted range, the string helpers copy and measure within their limits, the math limits, conversions and device replacements of standard algorithms agree with the standard ones, and a Kokkos session initialises what is not initialised and finalises only what it owns, in any nesting.",
  "inputs", "every form of check, true and false, in child processes; random sorted arrays, strings, floats; sessions opened every way",
  "tests call passing checks only: failing ones end the test",
  ["src/kokkos/ekat_kernel_assert.hpp", "src/kokkos/ekat_math_utils.hpp", "src/kokkos/ekat_upper_bound.hpp", "src/kokkos/ekat_kokkos_session.cpp"],
  [("EKAT_KERNEL_ASSERT, REQUIRE, ERROR", "ekat_kernel_assert.hpp"), ("upper_bound", "ekat_upper_bound.hpp"), ("initialize_kokkos_session", "ekat_kokkos_session.cpp")],
  "children whose end and output are judged, and definition monitors over random inputs, under sanitizers", SAN, observe=["exit status and output of children"])
P("C22", "Workspaces never overlap and every one taken can be given back",
  "A workspace manager gives each team sub-blocks that are disjoint from all others handed out, to it or to other teams, of the size asked, aligned, and inside the reserved memory; any mix of take, take_many, contiguous and macro-block takes, releases in any order, and resets leaves the set of free blocks the exact complement of those taken, with names kept. Blocks survive until released, debug builds report wrong use, and the byte count needed is what is used.",
  "histories", "random histories of takes, releases and resets of every form over managers of random size, team count, thread count and scalar or pack type, on the host and in the code for devices (host threads as the device)",
  "tests run a fixed sequence on one manager",
  ["src/kokkos/ekat_workspace.hpp", "src/kokkos/ekat_workspace_impl.hpp"],
  [("take, take_many, take_contiguous, macro blocks", "ekat_workspace_impl.hpp"), ("release, reset", "ekat_workspace_impl.hpp"), ("get_total_bytes_needed", "ekat_workspace_impl.hpp")],
  "ownership and pattern monitors over the blocks of recorded take/release histories, against a free-list model, under sanitizers", SAN, observe=["addresses and contents of blocks", "names and slot counts"])
P("C23", "Concurrent teams get distinct indices, and policies cover every team",
  "For any league size, team size and thread count, the workspace index given to a team is in range, is the same for all threads of the team, and is never held by two teams running at once; when all running teams hold one, release makes it available again; this includes the code for devices, where teams beyond the slots share them. The policies the factory gives run every league entry exactly once with the team sizes documented, and the counts of concurrent teams are those that can run.",
  "schedules", "leagues of 1 to 80 teams of every size on 4, 5 and 8 threads, with random delays; the GPU-mimicking policies; the device code with 1 to 7 host threads as the device, slots scarce and in plenty, and the policies it asks for on a device",
  "tests check the counts for one thread setting, and one kernel",
  ["src/kokkos/ekat_team_policy_utils.hpp"],
  [("TeamUtils::get_workspace_idx, release_workspace_idx", "ekat_team_policy_utils.hpp"), ("ExeSpaceUtils / TeamPolicyFactory", "ekat_team_policy_utils.hpp")],
  "ownership-table monitor of running teams under stress and injected delays, under sanitizers", SAN, observe=["(team, index) claims while running"])
P("C24", "Every tridiagonal solver gives the solution of its system",
  "For every diagonally dominant tridiagonal system of at least one row, every solver (serial Thomas, team Thomas, cyclic reduction, and the bit-for-bit choice), every supported layout of matrix and right sides (one matrix with one or many right sides, or one matrix per right side), every team size, and every pair of value types allowed (scalars and packs), the returned X satisfies A X = B to rounding accuracy, and nothing outside the given rows and columns is read into the result or written.",
  "inputs", "random dominant systems of 1 to 300 rows and 1 to 30 right sides with row scales over 2^24, all formats, types and team sizes, NaN around the matrix, column ranges of larger arrays",
  "tests solve one family of matrices of a few sizes",
  ["src/algorithm/ekat_tridiag.hpp"],
  [("thomas, cr, bfb (team)", "ekat_tridiag.hpp"), ("thomas (serial)", "ekat_tridiag.hpp")],
  "backward-error oracle against an independent extended-precision solution, NaN guards around the data, under sanitizers", SAN, observe=["returned X", "entries outside the system"])
P("C25", "Tridiagonal solutions do not depend on team, batch or pack lane",
  "For a given system the solution is the same, bit for bit, for every number of threads in the team and every scheduling of them: no thread reads a value before the thread that computes it has written it. The bit-for-bit solver further gives each column and each pack lane the very bits it gives alone, whatever else is solved with it.",
  "schedules", "each solver rerun with teams of 1 to 8 threads under random delays injected inside the arithmetic, and single columns, matrices and lanes against batches",
  "tests compare with a tolerance, under whatever schedule happens",
  ["src/algorithm/ekat_tridiag.hpp"],
  [("team barriers of cr and thomas", "ekat_tridiag.hpp"), ("bfb", "ekat_tridiag.hpp")],
  "bitwise differential monitor over schedules perturbed by a delay-injecting scalar type, under sanitizers", SAN, observe=["bits of X per schedule"])
P("C26", "Team reductions visit each item once and add in the order promised",
  "For any range of entries (empty, within one pack, spanning packs, whole) and any team, the reductions over functions and views visit each item of the range exactly once and no other, give the sum to rounding accuracy, give every thread of the team the same result, start from the value given where one is given, and in the serialised form add in index order, so the result is the same bits for every team size, pack size and schedule.",
  "schedules", "random ranges of views and functions of scalars and packs of 1 to 32, teams of 1 to 8 threads with random delays, entries outside the range NaN",
  "tests sum one range with one pack size",
  ["src/algorithm/ekat_reduction_utils.hpp"],
  [("parallel_reduce, view_reduction", "ekat_reduction_utils.hpp"), ("impl::parallel_reduce serialised branch", "ekat_reduction_utils.hpp")],
  "visit-count monitors, NaN guards and bitwise comparison with an ordered sum over perturbed schedules, under sanitizers", SAN, observe=["visits per item", "bits of the sum per thread"])
P("C27", "Linear interpolation is exact at points and linear between them",
  "For every strictly increasing set of at least two source points and any targets (between, on, adjacent to or outside the points, sorted or not), every number of columns and fields, pack size, and team size, the interpolated value is that of the line through the two neighbouring points (the first or last two outside) to rounding accuracy; the set-up of one column is never used for another, no entry beyond the arrays is touched, and padding lanes do not affect results.",
  "inputs", "random increasing points from equal steps to adjacent doubles, targets everywhere, packs of 1 to 16 with NaN padding, 1-d and 2-d forms, teams of 1 to 8 threads",
  "tests interpolate one smooth function between two grids and compare loosely",
  ["src/algorithm/ekat_lin_interp.hpp", "src/algorithm/ekat_lin_interp_impl.hpp"],
  [("LinInterp::setup", "ekat_lin_interp_impl.hpp"), ("LinInterp::lin_interp", "ekat_lin_interp_impl.hpp")],
  "pointwise oracle from independently located neighbours in exact-size guarded arrays, under sanitizers", SAN, observe=["interpolated values"])
P("C28", "An expression evaluates to what the same formula gives entry by entry",
  "For any expression built from arrays, numbers, arithmetic, comparisons, logical operators, conditionals and math functions, on arrays of ranks 0 to 6, of any supported type and layout, evaluating it sets each entry of the result to exactly what the C++ formula gives on the operands' entries at the same indices, and to nothing else; operands are not changed, temporaries in expressions stay valid, and results whose extents do not fit are refused in debug builds.",
  "inputs", "every operator and function in every operand form, random trees up to depth 3 on arrays of ranks 0 to 6, three types and three layouts, special values",
  "tests evaluate a handful of expressions on one array",
  ["src/expression/ekat_expression_base.hpp", "src/expression/ekat_expression_eval.hpp", "src/expression/ekat_expression_binary_op.hpp", "src/expression/ekat_expression_math.hpp", "src/expression/ekat_expression_binary_predicate.hpp", "src/expression/ekat_expression_conditional.hpp"],
  [("evaluate", "ekat_expression_eval.hpp"), ("operators", "ekat_expression_binary_op.hpp, ekat_expression_binary_predicate.hpp"), ("conditional", "ekat_expression_conditional.hpp")],
  "entry-by-entry comparison with the scalar formula over compile-time generated random trees, under sanitizers", SAN, observe=["result arrays", "operand arrays"])
P("C29", "Log messages reach exactly the sinks whose levels admit them, complete",
  "For any history of loggers (console only, file, rotating files; own or shared sinks), levels and messages, each message appears exactly once on the console and in the file if and only if the levels of the logger and of the sink admit it, in the order sent, in the format set, and nothing else appears; the log file has the documented name, is replaced by a new logger and complete once its last logger is gone; rotating files keep the documented number and size limits and the newest messages; messages of threads that share sinks are never lost, torn, duplicated or racing.",
  "histories", "random histories of up to five loggers, every level, file policy, suffix and sharing; several threads logging while levels change; more data than the files hold",
  "tests log a few messages and compare one file",
  ["src/logging/ekat_logger.hpp", "src/logging/ekat_log_file_policy.hpp"],
  [("Logger constructors", "ekat_logger.hpp"), ("file sinks", "ekat_log_file_policy.hpp")],
  "model of sinks compared with captured console and files, and ThreadSanitizer over concurrent logging", SAN + " + ThreadSanitizer", observe=["console output", "log files"], state=["logger and sink levels"])
P("C30", "Only the ranks selected by the output policy log, each to its own file",
  "In a job of any number of ranks and on any communicator, a logger that logs on the root only writes (to console and file) on that communicator's root and nothing on other ranks, whatever levels are set; one that logs on all ranks writes on every rank, each to a file whose name holds the communicator's size and the rank, so that no two ranks share a file; the file name is known on every rank, no other files are created, and loggers that share sinks obey their own policy.",
  "histories", "jobs of 1 to 6 ranks, random groups in random rank order, both policies, three file policies, shared sinks, level changes and messages",
  "tests run on one or few ranks with one history",
  ["src/logging/ekat_log_mpi_policy.hpp", "src/logging/ekat_logger.hpp"],
  [("should_log, get_log_name", "ekat_log_mpi_policy.hpp"), ("Logger constructors", "ekat_logger.hpp")],
  "model of every rank's console and files compared with what the job wrote, under sanitizers", SAN, observe=["console output of each rank", "files of the job"], state=["logger levels"])
P("C31", "In kernels, the threads of a team use EKAT's utilities without data races",
  "Whatever the schedule, team size and league size, the in-kernel utilities (workspace takes, releases and resets in any order, workspace indices, tridiagonal solvers, reductions, interpolation, expressions) contain no data race between threads, in debug and release builds: what one thread writes and another reads is ordered by their own barriers, without help of the caller except where the interface asks for it.",
  "schedules", "random kernels of teams of 1 to 6 threads, leagues of 1 to 40, random delays, random histories of workspace operations, every solver; workspaces and indices also in the code for devices",
  "a race rarely changes a result, and tests run few schedules of few shapes",
  ["src/kokkos/ekat_workspace_impl.hpp", "src/kokkos/ekat_team_policy_utils.hpp", "src/algorithm/ekat_tridiag.hpp", "src/algorithm/ekat_lin_interp_impl.hpp", "src/algorithm/ekat_reduction_utils.hpp"],
  [("Workspace", "ekat_workspace_impl.hpp"), ("cr, thomas, bfb", "ekat_tridiag.hpp"), ("get_workspace_idx", "ekat_team_policy_utils.hpp")],
  "ThreadSanitizer over EKAT kernels with an instrumented OpenMP runtime and Kokkos synchronisation made visible; happens-before races reported for every access pair observed", "ThreadSanitizer", observe=["memory accesses of the threads of a team"], state=["workspace metadata"])
P("C32", "The test launcher runs exactly the given program, on the CPUs of its rank",
  "For any program, arguments, environment, directory and input, `test-launcher [-b] [-p] -- program args` runs that program once with exactly those arguments (whatever characters they hold), the user's environment (thread binding variables added only where the user set none), directory and input; all its output reaches the launcher's, buffered or not, and the launcher succeeds if and only if the program does. Configured to manage resources, rank r of n runs on the r-th of n equal shares of the CPU ids that ctest granted, so that ranks never share CPUs; a grant that cannot be shared that way, and a command line without program, is refused without running anything.",
  "inputs", "random programs, argument lists of characters special to shells and of the launcher's own options, environments, inputs, outputs, exit codes and signals, grants, ranks and configurations",
  "the tests run through the launcher with a few tame arguments, and without resources",
  ["bin/test-launcher"],
  [("run_test, run_cmd, run_cmd_buff, parse_command_line", "test-launcher")],
  "a recording program run through the launcher reports what it was given (arguments, environment, input, directory, CPU affinity from the kernel); compared with what was asked", "recorded executions against a model", observe=["what the launched program receives", "output and exit code of the launcher"], state=["CPU affinity of the program"])
P("C33", "The CMake test functions define and run exactly the tests asked for",
  "`EkatCreateUnitTest`, `EkatCreateUnitTestExec` and `EkatCreateUnitTestFromExec` build the executable from the given sources, directories, definitions, flags (of each language) and libraries, and define one test per combination of the given ranges of ranks and threads, no more and no fewer; each runs the executable once per rank, with that many ranks and OMP_NUM_THREADS, the given arguments and tool, and has the given properties (labels, dependencies, fixtures, individual ones per combination, expected failure); the tests of a SERIAL suite never run together; meaningless requests stop the configuration. `EkatCreateUnitTestWithAsserts` makes a program without the marked lines, and in debug builds for each marked line a program with just that one, which must fail.",
  "inputs", "random projects: suites over ranges with steps in both directions, arguments, properties, fixtures, dependencies, every form of mpirun command, sources with random marked lines",
  "the tests are themselves created by these functions with a few forms of request: one that is never created or runs with the wrong size shows no failure",
  ["cmake/EkatCreateUnitTest.cmake", "cmake/EkatCreateUnitTestWithAsserts.cmake", "cmake/gen_assert_test_src.py", "bin/test-launcher"],
  [("EkatCreateUnitTestExec, EkatCreateUnitTestFromExec", "EkatCreateUnitTest.cmake"), ("create_sources", "gen_assert_test_src.py")],
  "generated projects are configured, built and run by ctest with recording programs and stand-ins for mpirun; an offline checker judges the log (exactly once, size, order, overlap, verdicts) and the listed tests", "recorded executions against a model", observe=["ctest's list of tests and verdicts", "executions of the test programs"], state=["CMake targets and test properties"])
P("C34", "Projects that find or embed EKAT get the packages, flags and sources asked for",
  "For every choice of packages, MPI, build type and options: EKAT configures, builds and installs; the installed package has the public headers (each compiles on its own), modules and tools documented, needs nothing of the build folder, answers requests for versions and components correctly, and a project linking only `ekat::X` for an enabled package compiles, runs and sees the definitions of the build. `BuildEkat` embeds EKAT once however often it is asked, with options taken from the call, else from the project's variables, else the defaults. The flag macros append exactly the flags given, for each language; `EkatConfigFile` writes what the template says, for C and Fortran, and leaves an unchanged file alone; `ekat_fetch_content` leaves the version asked for, fetched by one build only, when many builds ask at the same time and when one fails or is killed.",
  "inputs schedules crash_points", "random configurations, requests, flags and templates; concurrent fetching builds with delays, failures and kills at random points",
  "the test suite builds EKAT in place with all packages; it never installs it, uses it from another project, or fetches",
  ["CMakeLists.txt", "cmake/EkatConfig.cmake.in", "cmake/tpls/EkatBuildEkat.cmake", "cmake/EkatUtils.cmake", "cmake/EkatSetCompilerFlags.cmake", "src/CMakeLists.txt"],
  [("BuildEkat", "EkatBuildEkat.cmake"), ("ekat_fetch_content, EkatConfigFile", "EkatUtils.cmake"), ("SetFlags", "EkatSetCompilerFlags.cmake")],
  "real configurations, builds, installations and consumer projects; their programs print what they see; a stand-in for git logs every command with its time and injects delays and failures; offline checkers judge logs, variables and files", "recorded executions against a model", observe=["output of consumer programs", "git commands", "CMake variables"], state=["installed files", "fetched sources"])
P("C35", "Threads that use host facilities at once get what each would get alone",
  "Whatever the schedule, threads that use EKAT's host facilities at once, each on its own objects or only reading shared ones (texts and similarity, nested lists, parameter lists, units, yaml files, factories, checks, case-insensitive strings, zips and key iterators, floating-point traps, platform texts), get exactly the results and errors they would get alone, and contain no data race.",
  "schedules histories", "groups of 2 to 6 threads with random histories of 14 kinds of steps, concentrated on one kind or mixed, same or different work",
  "tests are single-threaded: hidden shared state (a static buffer or cache) gives right results until two threads meet in it",
  ["src/core/ekat_string_utils.cpp", "src/core/ekat_parameter_list.hpp", "src/core/ekat_units.hpp", "src/core/ekat_factory.hpp", "src/core/ekat_assert.hpp", "src/core/ekat_fpe.cpp", "src/parser/ekat_yaml.cpp"],
  [("ParameterList::get", "ekat_parameter_list.hpp"), ("Factory::instance", "ekat_factory.hpp"), ("throw_exception", "ekat_assert.hpp")],
  "ThreadSanitizer and AddressSanitizer over concurrent histories; every step's result compared with the same step done alone", "ThreadSanitizer + " + SAN, observe=["results and errors of every step", "memory accesses of the threads"])
#PROPS-END

NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            anchors = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)
            if p["state"]:
                anchors["state"] = p["state"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=anchors)) + "\n")
    checks = [dict(property=p["id"], quick_cmd="python3 run.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 run.py " + p["id"],
                   technique=p["technique"], level="exploration", level_note=p["note"]) for p in PROPS if p["id"] in CHECKS]
    na = NOT_APPLICABLE + [dict(property=p["id"], reason="not built yet") for p in PROPS if p["id"] not in CHECKS]
    json.dump(dict(version=1, setup_cmd="python3 run.py --list", checks=checks, not_applicable=na,
                   notes="Each check compiles EKAT's sources from /repo with its own harness; see DESIGN.md."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
