"""What each check builds and runs. See DESIGN.md for what the monitors judge."""

ASAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
VARIANTS = {
    # debug: EKAT's own asserts on, as in the project's CI
    "asan": dict(flags=["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DEKAT_DEFAULT_BFB"] + ASAN),
    # release: asserts off, no default-BFB
    "asan_rel": dict(flags=["-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"] + ASAN),
    # data races (gcc: the only compiler here with an OpenMP header)
    "tsan": dict(flags=["-O1", "-g1", "-fsanitize=thread", "-DEKAT_DEFAULT_BFB"]),
    # the same for code that runs on Kokkos threads
    "ktsan": dict(flags=["-O1", "-g1", "-fsanitize=thread", "-Wno-tsan", "-rdynamic", "-DEKAT_DEFAULT_BFB", "-I@TSANOVERLAY@"], src=["minigomp.cpp"]),
    "ktsan_dev": dict(flags=["-O1", "-g1", "-fsanitize=thread", "--param=tsan-distinguish-volatile=1", "-Wno-tsan", "-rdynamic", "-DEKAT_DEFAULT_BFB", "-I@TSANOVERLAY@"], src=["minigomp.cpp", "tsan_volatile.cpp"]),
    "ktsan_rel": dict(flags=["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread", "-Wno-tsan", "-rdynamic", "-I@TSANOVERLAY@"], src=["minigomp.cpp"]),
    "plain": dict(flags=["-O1", "-g1", "-DEKAT_DEFAULT_BFB"]),
    # as optimised as it gets: vectorised for this machine
    "native": dict(flags=["-O3", "-g1", "-DNDEBUG", "-march=native", "-ffp-contract=off"]),
    "plain_rel": dict(flags=["-O3", "-g1", "-DNDEBUG"]),
}
COMPONENTS = {
    "yaml": dict(inc=["parser"], src=["parser/*.cpp"], ld=["-lyaml-cpp"]),
    "core": dict(inc=["core"], src=["core/*.cpp"], exclude=["ekat_comm.cpp", "ekat_comm_serial.cpp"],
                 flags=["-I/opt/vp/compat", "-DOMPI_SKIP_MPICXX", "-DEKAT_HAVE_FEENABLEEXCEPT", "-DEKAT_ENABLE_MPI", "-DEKAT_MPI_ERRORS_ARE_FATAL",
                        "-I/usr/lib/x86_64-linux-gnu/openmpi/include"]),
}
COMPONENTS["comm"] = dict(src=["core/ekat_comm.cpp"], ld=["-lmpi"])
COMPONENTS["comm_serial"] = dict(src=["core/ekat_comm_serial.cpp"], flags=["-UEKAT_ENABLE_MPI"])
COMPONENTS["testing"] = dict(inc=["testing-support"], ld=["-lCatch2"], src=["testing-support/ekat_test_session.cpp"], flags=["-DEKAT_ENABLE_FPE_DEFAULT_MASK", "-include", "cfenv"])
COMPONENTS["logging"] = dict(inc=["logging"], flags=["-pthread"], ld=["-pthread"])
# spdlog as a library, or compiled into the harness so that the sanitizer sees its code
COMPONENTS["spdlog"] = dict(flags=["-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL"], ld=["-lspdlog", "-lfmt"])
COMPONENTS["spdlog_inline"] = dict(flags=["-DSPDLOG_FMT_EXTERNAL", "-DFMT_HEADER_ONLY"])
COMPONENTS["kokkos"] = dict(inc=["kokkos", "pack", "algorithm", "expression"], src=["kokkos/ekat_kokkos_session.cpp"],
                            flags=["-DKOKKOS_ENABLE_CXX17", "-DEKAT_HAS_KOKKOS", "-fopenmp", "-I@OVERLAY@"], ld=["-lkokkoscore", "-ldl"])
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:detect_invalid_pointer_pairs=1:exitcode=99:abort_on_error=0:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=66 halt_on_error=1 report_signal_unsafe=0",
    "OMP_PROC_BIND": "false", "OMP_PLACES": "threads", "OMP_NUM_THREADS": "4",
}
MPI_ENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_pml": "ob1", "OMPI_MCA_plm_rsh_agent": "/bin/false",
    "OMPI_MCA_oob_tcp_if_include": "lo", "OMPI_MCA_hwloc_base_binding_policy": "none",
}


def two(scale_rel=1.0, **kw):
    return [dict(name="debug", variant="asan", **kw), dict(name="release", variant="asan_rel", scale=scale_rel, **kw)]


# EKAT's code for devices, with the threads of the host as the device
STANDIN = ["-DSTANDIN_GPU"]
CHECKS = {
    "C01": dict(src=["c01_units.cpp"], components=["core"], runs=two(),
                rule="random rationals (negative and zero parts included), scaling factors in equal and unequal forms, and unit expressions of depth<=3 over all named units, prefixes, numbers and rational powers; non-trivial: a negative or fractional operand, or a compound unit"),
    "C02": dict(src=["c02_unit_text.cpp"], components=["core"], runs=two(),
                floors=dict(prefixed_units=80, long_texts_that_fit=40, long_texts_refused=60),
                rule="random rationals (up to 18 digits), scaling factors and unit expressions printed, read back by an independent reader and compared with the exact value; non-trivial: negative or fractional parts, or a compound text"),
    "C03": dict(src=["c03_plist.cpp"], components=["core"], runs=two(),
                floors=dict(operations=10000, assignments=500, imports=200, copies=200, default_added=50, typed_reads_of_present=100),
                rule="histories of 5-40 random operations (set, typed get, get with default, write through references, sublist, rename, copy, assign and import also within one list, print) on two nested lists holding 14 value types, the full state compared with a model after every step; non-trivial: distinct final states"),
    "C04": dict(src=["c04_yaml_read.cpp"], components=["core", "yaml"], runs=two(),
                floors=dict(documents=2000, tagged=500, seq_bool=200, seq_quoted_numbers=200, refused_documents=400, block_sequences=200, aliases=500, folded_blocks=100, escapes=300, crlf_documents=100, nulls=50),
                rule="documents generated together with the tree of typed values they denote: block and flow maps, sequences of every type, quoting styles, tags, comments, literal and folded blocks, escapes, aliases, nulls, line endings, extreme and out-of-range numbers; and documents that must be refused; non-trivial: distinct trees"),
    "C05": dict(src=["c05_yaml_roundtrip.cpp"], components=["core", "yaml"], runs=two(),
                floors=dict(documents=4000, doubles=20000, multiline_strings=1000, refused_writes=300, odd_texts=1000, long_keys=20, short_writes=100),
                rule="random nested lists of all supported types (adversarial strings and keys, doubles over the whole finite range) written and read back; writes that must be refused; writes that a full file system cuts short; non-trivial: distinct trees"),
    "C06": dict(src=["c06_strings.cpp"], components=["core"], runs=two(),
                floors=dict(splits=5000, splits_multichar=500, trims_of_everything=100, joins=20000),
                rule="random strings over small and full byte alphabets through split, join (all forms), strip, trim, starts_with, upper_case, strint and the container helpers, against independent definitions; non-trivial: strings that actually split, non-empty selections"),
    "C07": dict(src=["c07_nested.cpp"], components=["core"], runs=two(),
                floors=dict(valid_lists=5000, invalid_lists=5000, short_texts=20000),
                rule="texts generated from the grammar, mutations of them, and all short texts over a small alphabet, judged by an independent recursive-descent reader; non-trivial: accepted texts with nesting"),
    "C08": dict(src=["c08_similarity.cpp"], components=["core"], runs=two(),
                floors=dict(atomic_found=1000, atomic_at_end=200, jaccard_partial=5000, jaccard_one_tokenized=5000, jaro_partial=10000, winkler_boosted=2000),
                rule="random phrases, delimiters and atomic strings, and random and edited word pairs, against independent definitions of tokens and of the Jaccard, Jaro and Jaro-Winkler indices; non-trivial: index strictly between 0 and 1, or an atomic string with a delimiter in it present"),
    "C09": dict(src=["c09_caseins.cpp"], components=["core"], runs=two(),
                floors=dict(equal_other_case=2000, less=5000, greater=5000, map_histories=1000),
                rule="random string pairs and re-cased copies compared in every operand combination, order laws over arbitrary bytes, and histories of maps and sets keyed by case-insensitive strings; non-trivial: pairs that differ as bytes"),
    "C10": dict(src=["c10_assert.cpp"], components=["core"], runs=two(), flags=["-pthread"], ld=["-pthread"],
                floors=dict(conditions_false=3000, suppressed=5000, thrown_by_check=5000, thrown_in_handler=300, throws_while_others_unwind=1000),
                rule="every form of the check macros with true and false conditions (evaluations counted, outcome, type and message judged), random histories of nested scopes whose destructors run failing checks while exceptions of EKAT or others unwind, and the same with several threads at different stages; non-trivial: failing conditions, histories with suppressed failures"),
    "C11": dict(src=["c11_fpe.cpp"], components=["core"], runs=two(),
                floors=dict(steps=50000, traps_expected=300, no_trap_expected=300, with_earlier_flags=500),
                rule="random histories of enable, disable and disable-all over all subsets of the five exceptions, the reported set and text compared with a model, and children that raise each exception in float, double and long double (also before it is enabled) and must trap exactly when it is enabled; non-trivial: distinct (set, operation) pairs"),
    "C12": dict(src=["c12_comm.cpp"], components=["core", "comm"], builds={"serial": dict(components=["core", "comm_serial"])}, parallel=3,
                runs=[dict(name="np%d" % n, variant=v, mpi=n) for n, v in ((1, "asan"), (3, "asan"), (4, "asan_rel"), (6, "plain_rel"))]
                + [dict(name="serial", variant="asan", build="serial"), dict(name="serial_rel", variant="asan_rel", build="serial")],
                floors=dict(collectives=5000, splits=500, barriers=300, refused_comms=300, serial_ops=3000),
                rule="the same random sequence of collectives on every rank (8 value types and a user type, all operations, in place and not, counts 0 to 3000, random roots, groups from nested splits by colour) with data of known reductions in guarded buffers, barriers checked through shared-memory arrival marks with random delays, and the serial build; non-trivial: distinct (operation, type, group size, count)"),
    "C13": dict(src=["c13_factory.cpp"], components=["core", "comm", "testing"],
                runs=[dict(name="debug", variant="asan", env=MPI_ENV), dict(name="release", variant="asan_rel", env=MPI_ENV)],
                floors=dict(other_keys=10000, created=10000, unknown_keys=5000, replaced=2000, kept_first=2000, argument_lists=10000, refused_argument_lists=10000, failing_executables=10, passing_executables=20, sessions_seen=20),
                rule="random histories of register, replace, create and clean-up on four factories (shared, unique and raw pointers, value and reference arguments, case-insensitive keys) against a model, keys of other types and products registered before main as well; argument lists generated with their meaning, and malformed ones; test executables run with every mix of passing and failing tests; non-trivial: distinct histories and argument lists"),
    "C14": dict(src=["c14_zip.cpp"], components=["core"], runs=two(),
                floors=dict(zips=20000, refused_zips=10000, maps=10000, values_present=1000),
                rule="random containers of ten kinds (proxies, const, arrays, maps) zipped and walked, read and written; maps walked by key both ways; loops over type lists left at every point; type maps and container helpers against std; non-trivial: distinct contents"),
    "C15": dict(src=["c15_pack.cpp", "c15_arith_a.cpp", "c15_arith_b.cpp", "c15_arith_c.cpp", "c15_math.cpp"], components=["core", "kokkos"], runs=two() + [dict(name="optimised", variant="native")],
                floors=dict(packs=5000, mixed_packs=4000, math_packs=3000),
                rule="random packs of 5 scalar types and sizes 1 to 16 (special and extreme values included) through every operator, in pack-pack, pack-scalar and scalar-pack form and between types, every math function and constructor, compared lane by lane with scalar arithmetic; non-trivial: distinct operands"),
    "C16": dict(src=["c16_masks.cpp"], components=["core", "kokkos"], runs=two() + [dict(name="optimised", variant="native")],
                floors=dict(masks=10000, partial_masks=3000, masked_packs=8000, scalar_wheres=5000),
                rule="random masks (none, all and partial) through every mask operation, masked set, construct, update, where-expression and masked reduction on packs of 3 types, and where-expressions on scalars, each lane compared with the scalar definition and unmasked lanes with their old value; non-trivial: distinct operands"),
    "C17": dict(src=["c17_pack_reduce.cpp"], components=["core", "kokkos"], runs=two() + [dict(name="optimised", variant="native")],
                floors=dict(reductions=20000, lengths=3000),
                rule="random packs of 4 types and sizes 1 to 32 reduced (serialised sums bit for bit) and shifted, and random lengths whose every entry is mapped to pack and lane and back; non-trivial: distinct operands and lengths"),
    "C18": dict(src=["c18_pack_views.cpp"], components=["core", "kokkos"], runs=two() + [dict(name="optimised", variant="native")],
                floors=dict(vast_arrays=1000, scalarized=2000, repacked=2000, gathers=3000, shifts=3000, shifts_past_the_end=500, adjacent=3000),
                rule="random views of packs (ranks 0 to 7, compile-time dimensions, const) scalarised and repacked, the address of every entry judged; gathers of ranks 1 to 5 in two layouts, shifted gathers and adjacent differences at every position; non-trivial: distinct shapes and index packs"),
    "C19": dict(src=["c19_host_device.cpp", "c19_part2.cpp"], components=["core", "kokkos"], flags=["-D_GLIBCXX_SANITIZE_VECTOR=1"], runs=two() + [dict(name="optimised", variant="native")],
                floors=dict(data_named_twice=1000, trips=3000, transposed_trips=2000, transposes=3000, mismatches=500, vast_transposes=50),
                rule="random lists of views of ranks 1 to 3, packs of 1 to 16 and plain scalars of 4 types, ragged or uniform sizes, new or preallocated views, C and Fortran order, copied in and out of guarded host arrays; lists of different lengths in debug builds; transposes; non-trivial: distinct shapes"),
    "C20": dict(src=["c20_views.cpp"], components=["core", "kokkos"], runs=two() + [dict(name="optimised", variant="native")],
                floors=dict(subviews=5000, padded_views=500, vast_views=500, from_strided=500, reshapes=4000, broadcasts=3000, refused_broadcasts=2000, refused_subviews=20, refused_reshapes=10, refused_extents=10),
                rule="random views of ranks 1 to 6 (const, unmanaged, packs, padded, strided results of earlier subviews) sliced in every supported way, reshaped and broadcast to ranks up to 8, the address of every entry judged; out-of-range requests in debug builds; non-trivial: distinct shapes and slices"),
    "C22": dict(src=["c22_workspace.cpp"], parallel=2, components=["core", "kokkos"], builds={"gpu": dict(flags=STANDIN)},
                runs=two() + [dict(name="device", variant="asan", build="gpu", env={"OMP_NUM_THREADS": "34"}, scale=0.15), dict(name="device_rel", variant="native", build="gpu", env={"OMP_NUM_THREADS": "40"}, scale=0.2), dict(name="threads8", variant="asan", env={"OMP_NUM_THREADS": "8"}, scale=0.5), dict(name="optimised", variant="native")],
                floors=dict(kernels=2000, takes=50000, bulk_takes=5000, full_workspaces=3000, releases_out_of_order=500, resets_after_leaks=50, multi_thread_kernels=1000, own_data=500, reports=300, sizes_over_2GB=100, refused_misuses=16),
                rule="random histories of takes (single, of other types, many, contiguous, macro blocks, with reset) and releases in any order on workspaces of 5 types, in teams of 1 to 8 threads and leagues of 1 to 40, with random delays; every byte of every space in use patterned and verified, ownership intervals logged and checked for overlap between teams; debug reports and misuse; non-trivial: distinct histories"),
    "C21": dict(src=["c21_kernel_utils.cpp"], components=["core", "kokkos"], builds={"gpu": dict(flags=STANDIN)}, runs=two() + [dict(name="device", variant="asan", build="gpu"), dict(name="device_rel", variant="native", build="gpu"), dict(name="optimised", variant="native")],
                floors=dict(failing_checks=30, passing_checks=40, sessions=15, bounds=5000, floats=10000, limits=5000),
                rule="every form of the kernel checks, true and false, on the host, in kernels and in teams, in child processes whose end and output are judged; Kokkos sessions opened in every way; random sorted arrays, limits, floats and strings through the helpers, and type traits, against definitions; non-trivial: distinct operands"),
    "C23": dict(src=["c23_team_utils.cpp"], parallel=2, components=["core", "kokkos"], builds={"mimic": dict(flags=["-DEKAT_MIMIC_GPU"]), "gpu": dict(flags=STANDIN), "policies": dict(src=["c23_policies.cpp"], flags=STANDIN + ["-DSTANDIN_SHAPES"])},
                runs=two() + [dict(name="threads8", variant="asan", env={"OMP_NUM_THREADS": "8"}), dict(name="threads5", variant="native", env={"OMP_NUM_THREADS": "5"}), dict(name="mimic", variant="native", build="mimic", env={"OMP_NUM_THREADS": "8"}), dict(name="mimic4", variant="asan", build="mimic"),
                              dict(name="device8", variant="asan", build="gpu", env={"OMP_NUM_THREADS": "8"}), dict(name="device7", variant="native", build="gpu", env={"OMP_NUM_THREADS": "7"}), dict(name="device_policies", variant="asan", build="policies")],
                floors=dict(kernels_sharing_slots=1000, device_policies=1000, kernels=8000, multi_thread_kernels=3000, kernels_with_concurrent_teams=2000, idle_threads=500),
                rule="leagues of 1 to 80 teams of every size on 4, 5 and 8 threads (and with the GPU-mimicking policies), each team claiming its index in a shared ownership table while it runs, with random delays; non-trivial: distinct shapes and (team, index) assignments seen"),
    "C24": dict(src=["c24_tridiag.cpp"], components=["core", "kokkos"], runs=two() + [dict(name="threads8", variant="native", env={"OMP_NUM_THREADS": "8"})],
                floors=dict(systems=20000, multi_thread_solves=1500, outside_entries_nan=500, tiny_systems=200),
                rule="random diagonally dominant systems of 1 to 300 rows (row scales over 2^24, any signs, zero off-diagonals) and 1 to 30 right sides, every solver, format and team size, nine pairs of value types, whole arrays and ranges of columns; entries outside the matrix set to NaN; non-trivial: distinct (solver, rows, right sides, team)"),
    "C25": dict(src=["c25_tridiag_bfb.cpp"], components=["core", "kokkos"], runs=two() + [dict(name="threads8", variant="native", env={"OMP_NUM_THREADS": "8"})],
                floors=dict(solves_compared=5000, batches_compared=3000, lanes_compared=500, delays_injected=10000, threads_and_columns_uneven=500, more_threads_than_columns=500),
                rule="each solver rerun with teams of 2 to 8 threads, with random delays inside the arithmetic of a scalar class, and compared bit for bit with teams of 1; bfb also column by column, matrix by matrix and lane by lane; non-trivial: distinct (solver, rows, right sides, team) and solutions"),
    "C26": dict(src=["c26_reductions.cpp"], components=["core", "kokkos"], runs=two() + [dict(name="threads8", variant="native", env={"OMP_NUM_THREADS": "8"})],
                floors=dict(serial_sums=3000, parallel_sums=5000, empty_ranges=200, multi_thread_reductions=3000, ranges_within_a_pack=300, partial_packs_at_both_ends=500, default_serialised=100, default_parallel=100),
                rule="random ranges (empty, within one pack, over pack boundaries, whole) of views and functions of 4 scalar types and 7 pack types summed by teams of 1 to 8 threads with random delays, items outside the range NaN and every visit recorded; non-trivial: distinct inputs"),
    "C27": dict(src=["c27_lin_interp.cpp"], components=["core", "kokkos"], runs=two() + [dict(name="threads8", variant="native", env={"OMP_NUM_THREADS": "8"})],
                floors=dict(interpolated=50000, at_points=10000, extrapolated=5000, multi_thread=1500, two_points=50, thread_per_column=500, thread_per_field=500, repacked=500),
                rule="random increasing points (equal steps to adjacent doubles) and targets on, next to, between and outside them, sorted or not, several columns and fields, packs of 1 to 16 with NaN padding in arrays of exact size, all ranges and column arguments, teams of 1 to 8 threads; non-trivial: distinct inputs"),
    "C28": dict(src=["c28_a.cpp", "c28_b.cpp", "c28_c.cpp", "c28_d.cpp"], components=["core", "kokkos"], runs=two() + [dict(name="threads8", variant="native", env={"OMP_NUM_THREADS": "8"})],
                floors=dict(entries=100000, single_operations=10000, truth_trees=500, refused_results=2000, generic_functions=300, trees_rank0=300, trees_rank6=300),
                rule="every operator and function in every form of operands, and 42 expression trees of depth 1 to 3 over all operators, functions, comparisons and conditionals, drawn at compile time, over arrays of ranks 0 to 6 of three types and layouts and plain numbers, random and extreme values, evaluated into three layouts; non-trivial: distinct (tree, value)"),
    "C29": dict(src=["c29_logger.cpp"], components=["core", "comm_serial", "logging", "spdlog"], builds={"inline": dict(components=["core", "comm_serial", "logging", "spdlog_inline"])},
                runs=two() + [dict(name="races", variant="tsan", build="inline", args=["threads-only"], scale=0.5)],
                floors=dict(messages=10000, in_file=2000, not_in_file=2000, on_console=2000, file_only=300, console_only=300, sharing_loggers=500, files_complete_after_last_logger=200, files_replaced=50, concurrent_messages=20000, interleaved_runs=20, wrapped_around=3),
                rule="random histories of creating (three file policies, suffixes), sharing, dropping, setting levels and formats of up to five pairs of sinks, and sending messages of any bytes at every level, the console and the files compared with a model; several threads logging through shared sinks while levels change, also under a race detector; more data than the files can hold; non-trivial: distinct histories"),
    "C30": dict(src=["c30_logger_mpi.cpp"], components=["core", "comm", "logging", "spdlog"], parallel=3,
                runs=[dict(name="np%d" % n, variant=v, mpi=n) for n, v in ((1, "asan"), (3, "asan"), (4, "asan_rel"), (6, "plain_rel"))],
                floors=dict(messages=10000, messages_on_silent_ranks=2000, in_file=3000, on_console=3000, silent_loggers=500, silent_sharers=300, files_judged=1000),
                rule="jobs of 1, 3, 4 and 6 ranks, each running the same random history of loggers on the world and on random groups in random rank order (both output policies, three file policies, shared sinks), level changes and messages; every rank's console and files, and the set of files, compared with a model; non-trivial: distinct (history, rank)"),
    "C31": dict(src=["c31_races.cpp"], components=["core", "kokkos"],
                builds={"reductions": dict(src=["c26_reductions.cpp"]), "mimic": dict(src=["c23_team_utils.cpp"], flags=["-DEKAT_MIMIC_GPU"]),
                        "gpu": dict(flags=STANDIN), "interp": dict(src=["c27_lin_interp.cpp"]), "expr": dict(src=["c28_a.cpp", "c28_b.cpp", "c28_c.cpp", "c28_d.cpp"])},
                runs=[dict(name="debug", variant="ktsan", scale=3, env={"OMP_NUM_THREADS": "4"}), dict(name="release", variant="ktsan_rel", scale=2, env={"OMP_NUM_THREADS": "6"})] +
                     [dict(name=n, variant="ktsan", build=n, scale=0.05, env={"OMP_NUM_THREADS": str(t)}) for n, t in (("reductions", 4), ("mimic", 5), ("interp", 4), ("expr", 3))] +
                     [dict(name="device", variant="ktsan_dev", build="gpu", env={"OMP_NUM_THREADS": "33"})],
                floors=dict(workspace_kernels=1500, workspace_operations=60000, index_kernels=800, multi_thread_kernels=700, multi_thread_solves=1000, reductions=900, interpolations=900, entries=2000),
                rule="random kernels of teams of 1 to 6 threads over workspaces (every kind of take, release and reset in random orders, threads using different entries of each space), workspace indices, all solvers, reductions, interpolation and expressions under a race detector that sees Kokkos's synchronisation; the harness adds none; debug and release builds; non-trivial: distinct kernels"),
    "C32": dict(src=["c32_launcher.cpp"], components=[], runs=[dict(name="plain", variant="native", env=MPI_ENV)],
                floors=dict(job_ranks=8, programs_run=200, arguments=800, lines=2000, buffered=80, unbuffered=80, killed_by_signal=10, failing_programs=30, with_input=80, bound_ranks=30, device_ranks=8, refused_resources=20, refused=25),
                rule="the launcher configured in 8 ways runs a recording program with random arguments (of characters special to shells, options of the launcher, empty), environments, directories, inputs, outputs, ends (codes and signals), and with the resources of jobs of 1 to 6 ranks, CPUs read back from the kernel; non-trivial: distinct runs"),
    "C33": dict(src=["c33_cmake_tests.cpp"], components=[], runs=[dict(name="plain", variant="native", case_timeout=300)],
                floors=dict(tests=100, programs_run=120, orderings=30, serial_pairs=5, overlapping_pairs=5, will_fail=5, tests_failing=5, bound_ranks=40, refused=30, assert_programs=15, sources_without_asserts=1),
                rule="projects of 4 directories with 1-2 executables and 2-5 test suites each (ranges of ranks and threads with steps up and down, arguments, labels, dependencies, fixtures, serial, expected failures, tools, forms of mpirun), configured, built and run by ctest -j8; distinct: tests with what was asked for them"),
    "C35": dict(src=["c35_threads.cpp"], components=["core", "yaml"], parallel=2,
                runs=[dict(name="races", variant="tsan"), dict(name="memory", variant="asan", scale=2)],
                floors=dict(steps=10000, overlapping_groups=200),
                rule="groups of 2 to 6 threads, each running a random history of steps on its own objects or reading shared ones (strings, lists, units, yaml files, factories, failing checks, zips, traps), under a race detector and an address checker; every step's result compared with the same step done alone; non-trivial: distinct steps"),
    "C34": dict(src=["c34_cmake_package.cpp"], components=[], runs=[dict(name="plain", variant="native", case_timeout=600)],
                floors=dict(consumer_programs=12, requests_met=20, requests_refused=20, headers_looked_for=120, options_compared=22, embedded_builds=2, flag_variables=1500, several_flags=90, refused=10, changed_configurations=15, unchanged_configurations=5, builds_at_once=15, builds_with_content=10, git_commands=8),
                rule="configurations of packages, MPI, build type and options, installed (then found, linked and requested in many ways) or embedded; generated calls of the flag macros, configured headers in sequences of reconfigurations, and builds that fetch one source at the same time (slow, failing, killed git); distinct: configurations, calls, files, fetch scenarios"),
}
