#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

ALLSRC = ["src", "include/zcm"]
VEC = ["include/zcm/vec2.hpp", "include/zcm/vec3.hpp", "include/zcm/vec4.hpp", "src/vec2.cpp", "src/vec3.cpp", "src/vec4.cpp"]
ACC = ["include/zcm/detail/vec2_access.hpp", "include/zcm/detail/vec3_access.hpp", "include/zcm/detail/vec4_access.hpp",
       "src/vec2_access.cpp", "src/vec3_access.cpp", "src/vec4_access.cpp"]
GEN = ["tools/benchgen/main.cpp", "tools/benchgen/utils.h", "tools/benchgen/snippets.h"]
ONE = "The existing tests are single-threaded, fault-free and call each function once or twice with fixed arguments; "

# ---------------------------------------------------------------- library under schedules and faults
p("L01", "Concurrent library calls are isolated from each other",
  "When any number of threads call library operations at the same time, each on its own objects or on objects that no thread writes, every call returns bit for bit the result the same call gives when it is made alone in a freshly started process. This holds for every interleaving of the calls, whatever operations and arguments the other threads use, and no object other than the ones a call is documented to modify changes.",
  ["schedules", "inputs"], "All interleavings, at the granularity of individual memory accesses, of any mix of operations and arguments on any number of threads.",
  ONE + "no test creates a second thread, so hidden shared scratch space, memo tables or lazily filled tables would pass every test.",
  ALLSRC, [("value semantics: every operation computes in locals and returns by value; no mutable namespace-scope or function-scope state", "src/*.cpp"),
           ("the one function-scope static is a constant index table", "src/matrix_transform.cpp decompose_orthogonal")],
  observe=["return values and mutated operands of every public operation"])
p("L02", "Read-only operands are never written, even for an instant",
  "An operation never writes to an operand it receives by constant reference, through a pointer to constant, or as the object of a constant member function: not temporarily, and not by storing the same value again. Such operands may live in read-only memory, and any number of other threads may read them while the operation runs and always see the original value.",
  ["schedules", "inputs"], "All operations with constant operands, all operand values, all interleavings of readers of the same object.",
  ONE + "a write that is undone before the call returns is invisible to a test that looks only afterwards.",
  ALLSRC, [("const-correct parameters copied into locals before use", "src/*.cpp, include/zcm/*.hpp")],
  observe=["operand bytes at every scheduling point", "memory protection faults on operands placed in read-only pages"])
p("L03", "Threads updating different components of one object lose no update",
  "A write made through one component of a vector, quaternion or matrix (named member, alias, index, element pointer or whole column, by assignment, compound assignment, increment or decrement) reads and writes only that component or column. So threads that each update only their own component of the same object interfere in no interleaving: every component ends with the value its own thread's sequence of updates gives, and components nobody updates keep their value.",
  ["schedules", "histories"], "All interleavings of any sequences of component updates by threads that own disjoint components of one shared object.",
  ONE + "component tests write one component and look at it; a read-modify-write of the whole object would pass.",
  ACC + ["src/vec2.cpp", "src/vec3.cpp", "src/vec4.cpp", "src/ivec2.cpp", "src/ivec3.cpp", "src/ivec4.cpp", "src/bvec2.cpp", "src/bvec3.cpp", "src/bvec4.cpp", "src/quat.cpp", "src/mat2.cpp", "src/mat3.cpp", "src/mat4.cpp", "src/type_ptr.cpp"],
  [("accessor proxies overlaid on the element array touch one element", "include/zcm/detail/vec*_access.hpp scalar_accessor_*"),
   ("index operators return a reference to one element or column", "src/vec*.cpp, src/ivec*.cpp, src/bvec*.cpp, src/quat.cpp, src/mat*.cpp operator[]"),
   ("element pointers", "src/type_ptr.cpp value_ptr")],
  observe=["the shared object's bytes", "memory accesses made on behalf of each thread"])
p("L04", "Operations are re-entrant: interruption at any point is harmless",
  "A library call may be interrupted between any two of its steps by a signal handler (or other asynchronous callback) running on the same thread that itself calls any library operations, including the interrupted one, nested to any depth. The interrupting calls return, they return their correct results, and the interrupted call then completes with exactly the result it would have given undisturbed.",
  ["schedules", "inputs"], "Every interruption point inside every operation, every operation called by the handler, nested interruptions.",
  ONE + "no test interrupts a call; per-thread scratch buffers or locks that are safe between threads still break here.",
  ALLSRC, [("no static or thread-local scratch state and no locks", "src/*.cpp")],
  observe=["return values of interrupted and interrupting calls", "completion"])
p("L05", "Stalled or abandoned calls never block or corrupt other calls",
  "If a thread stops for ever in the middle of a library call, or a call is abandoned part way (the thread is killed or jumps out of it), no other call on any thread waits for it: every later or concurrent call completes in a bounded number of its own steps and returns its correct result. The only thing an abandoned call can leave incomplete is the object it was modifying itself.",
  ["crash_points", "schedules", "fault_sequences"], "Every point at which a call can stop, any number of stopped threads, any later calls on the same or other threads.",
  ONE + "every test call runs to completion.",
  ALLSRC, [("no locks, busy flags or partially updated shared state", "src/*.cpp")],
  observe=["steps until completion of the surviving calls", "their return values"])
p("L06", "Operations need no memory or system resource and cannot fail",
  "Every operation completes with its correct result when no heap memory can be allocated and every system call fails, on a thread with a small (64 KiB) stack. It never throws, aborts, returns a fallback value or reports an error because a resource is missing, no matter at which allocation or system call the shortage starts or ends.",
  ["fault_sequences", "inputs"], "Every sequence of allocation and system-call failures over every operation, and histories in which the shortage starts and ends between or inside calls.",
  ONE + "no test makes an allocation or system call fail.",
  ALLSRC, [("all operations are noexcept and work on automatic storage", "include/zcm/*.hpp"), ("no I/O, no allocation in src", "src/*.cpp")],
  observe=["return values", "exceptions and abnormal termination", "allocation and system calls made"])
p("L07", "Results depend only on the operands, not on memory contents around them",
  "The result of an operation is a function of the bytes of its operands alone. It does not depend on what stack, heap or registers, or an object that only receives a result, held before the call, on where the operands and the result are placed in memory, on whether one object is passed for two operands or two objects of equal value (m *= m and m *= copy of m), or on the bytes next to them, and no operation reads or writes outside its operands and result.",
  ["inputs", "configurations", "fault_sequences"], "All operations and operand values, all prior contents of uninitialised memory, all placements of operands (addresses, alignments the type permits, neighbours, page ends), debug and release configurations.",
  ONE + "tests run with whatever the stack happens to hold and with operands in the middle of mapped memory, so a component left unset or read past the end usually goes unnoticed.",
  ["src/matrix.cpp", "src/mat2.cpp", "src/mat3.cpp", "src/mat4.cpp", "src/quat.cpp", "src/quaternion.cpp", "src/matrix_transform.cpp", "src/geometric.cpp", "src/hash.cpp"] + ALLSRC,
  [("uninitialised temporaries (no_init) are filled completely before they are returned", "src/matrix.cpp, src/quaternion.cpp, src/matrix_transform.cpp"),
   ("index bounds by construction", "src/mat*.cpp constructors from other sizes")],
  observe=["return values under different memory contents and placements", "memory protection faults"])
p("L08", "Ambient state of the caller is neither altered nor consulted",
  "An operation leaves the thread's floating-point rounding mode, exception masks and denormal flags, the locale, the environment variables, the signal mask and the C pseudo-random sequence exactly as it found them (error number and sticky floating-point exception flags may be set). Its result does not depend on the clock, the locale, environment variables, the pseudo-random sequence, the error number, or sticky flags already raised, and each thread's calls follow that thread's own rounding mode only.",
  ["configurations", "schedules", "inputs"], "All operations under all ambient states, and all interleavings of threads with different ambient floating-point states.",
  ONE + "all tests run in the default ambient state and none checks it afterwards.",
  ALLSRC, [("only pure libm functions are called", "src/common.cpp, src/exponential.cpp, src/angle_and_trigonometry.cpp")],
  observe=["floating-point control state, locale, environment, signal mask and random sequence before and after", "return values"])
p("L09", "A call's result does not depend on earlier calls",
  "After any history of library calls, however long, by any number of interleaved clients, with any operations and arguments, a call returns bit for bit the result it gives as the very first call of a process. In particular, repeating a call, or calling with arguments equal or nearly equal to earlier ones (differing in one component, by one unit in the last place, in the sign of zero or in a NaN), never returns a stale or blended result.",
  ["histories", "inputs"], "All call histories, including long ones and ones with repeated and near-identical arguments.",
  ONE + "histories in the tests are a handful of calls with unrelated arguments.",
  ALLSRC, [("no caches, counters or other state carried between calls", "src/*.cpp")],
  observe=["return values in a history against the same call in a pristine image"])
p("L10", "Operations work at any point of the process lifetime, in any link order",
  "Library operations called from static constructors or destructors of other translation units, or from destructors of thread_local objects at the end of the program, before, between or after the library's own start-up and tear-down code in whatever order the program's translation units are initialised and destroyed, return the same results as when called from main.",
  ["schedules", "configurations"], "All orders in which translation units can be initialised and destroyed, all points in that order, all operations and arguments.",
  ONE + "tests call everything from inside main, after all static initialisation.",
  ALLSRC, [("constants are literals inside functions, not dynamically initialised objects", "src/constants.cpp, src/color_space.cpp, src/matrix_transform.cpp")],
  observe=["return values of calls made between translation-unit initialisers"])

p("L11", "Calls leave nothing behind",
  "What a call takes it gives back: heap memory, files, memory mappings, thread-specific storage keys, exit handlers, timers and locks acquired during a call are released by the time it returns, apart from at most a fixed amount set up once on first use (if per thread, released when the thread ends). So however many calls are made, with whatever operands, by however many threads that come and go, in any interleaving, and whichever of their requests for memory or services are refused along the way, what the process holds does not grow.",
  ["schedules", "fault_sequences", "histories", "inputs"], "All call histories, interleavings, operand values, and sequences of refused requests.",
  ONE + "no test observes memory or other resources, and none overlaps calls or has requests refused.",
  ALLSRC, [("no operation acquires anything: results are returned by value and all intermediates are automatic objects", "src/*.cpp")],
  observe=["resources held by the process before and after a history of calls"])
p("L12", "Every call ends after a bounded number of its own steps",
  "Every library call ends after a bounded, small number of its own steps, for every operand (NaNs, infinities, denormals, signed zeros, the largest and the smallest values, any integer), in every rounding and flush-to-zero mode of the caller, whatever calls were made before and whatever other threads do at the same time. The bound does not depend on the values of the operands.",
  ["inputs", "schedules", "histories", "configurations"], "All operand values, floating-point modes, histories and interleavings.",
  ONE + "tests use ordinary operands in the default mode; an iteration that does not settle for some operand or mode passes them.",
  ALLSRC, [("straight-line code: no loop depends on a floating-point value", "src/*.cpp")],
  observe=["that the call returns", "number of steps it takes"])

p("L13", "A call gives the same result in every process",
  "Every process that uses the same build of the library gets bit for bit the same result, hash values included, from the same call with the same operand bytes: after a crash and restart, with the library, its heap, stack and operands at other addresses, with another process, thread or user id, start time, random source, environment, locale, host name, number of processors or set of optional processor features. (What the functions of the C mathematical library return is taken as given.) So values and hashes that one process has stored as bytes mean the same to every later one, and computations on several machines agree.",
  ["crash_points", "configurations", "inputs", "histories"], "All sequences of process starts on any machines, and all operations and operand values in each.",
  ONE + "they run in one process on one machine, so a salt, a dispatch or a table that depends on the process passes them.",
  ALLSRC, [("results are functions of the operands; no object has start-up code, no code asks for identities, addresses or processor features", "src/*.cpp"), ("hash functions without salt", "src/hash.cpp")],
  observe=["return values and mutated operands of every public operation"])

# ---------------------------------------------------------------- benchmark generator under faults
p("G01", "The benchmark generator reports success only for a complete corpus",
  "If the generator exits with status 0, every file it is meant to produce (100 source files, 100 headers, the main file and two build scripts) exists in the target directory with its complete content, the content an undisturbed run at the same clock time produces. Whatever file-system errors occur (failed stat, open, remove or close, full disk, I/O errors, short or interrupted writes), a run that could not produce all of it exits with a nonzero status.",
  ["fault_sequences"], "Every sequence of system-call failures during a run.",
  "The generator is built by the test setup but never run; no test exercises any I/O failure.",
  GEN, [("writing a file", "tools/benchgen/utils.h writeToFile"), ("removing an existing file", "tools/benchgen/utils.h removeExistedFile"), ("exit status", "tools/benchgen/main.cpp main")],
  observe=["exit status", "file contents in the target directory"])
p("G02", "Every generated corpus is complete and self-consistent, at any clock",
  "Whatever the clock says when the generator starts, a successful run produces exactly 10000 functions with distinct consecutive numbers: each defined exactly once with a nonempty body, in the source file whose header declares it, each declared exactly once and called exactly once from the main function. The main file includes every header, each source file includes its own header, and both build scripts compile every source file and the main file.",
  ["inputs", "schedules"], "All clock values (and so all pseudo-random sequences), all states of the target directory at start.",
  "The generator is never run by the tests.",
  GEN, [("numbering and declarations", "tools/benchgen/utils.h generateContent"), ("main file", "tools/benchgen/utils.h generateMainSource"), ("build scripts", "tools/benchgen/main.cpp")],
  observe=["contents of the produced files"])
p("G03", "A re-run repairs whatever a crashed or failed run left behind",
  "If the generator is killed, loses power or fails at any point and is then run again on the same directory without faults, the second run succeeds and the directory's generated files are exactly those an undisturbed run at that clock time would have produced in an empty directory. No fragment of the earlier run survives in them, whatever partial, torn, oversized or empty files were left, and this also holds for repeated crashes.",
  ["crash_points", "fault_sequences", "histories"], "Every crash point (including inside a write), every loss of data not yet on disk, every sequence of crashed and failed runs before the final one.",
  "The generator is never run by the tests, let alone interrupted.",
  GEN, [("existing files are erased before writing", "tools/benchgen/utils.h removeExistedFile"), ("files are truncated on opening", "tools/benchgen/utils.h writeToFile")],
  observe=["directory contents after the final run", "its exit status"])
p("G04", "The generator touches nothing but its own output files",
  "In every run, whether it succeeds, fails or crashes at any point, the generator creates, modifies, renames or removes only the documented output files directly inside the given directory. Every other file or directory, inside or outside the target directory, including ones with similar names, keeps its existence and content, and no temporary files are left anywhere after a completed run.",
  ["fault_sequences", "crash_points", "inputs"], "Every fault sequence and crash point, every initial content of the target directory (including directories at the output names, and links at the names of the source and header files; the main file and the build scripts are rewritten in place, keeping their modes, so links at those names are followed by design), every spelling of the directory argument.",
  "The generator is never run by the tests.",
  GEN, [("paths are formed from the directory argument and fixed names", "tools/benchgen/main.cpp"), ("removal", "tools/benchgen/utils.h removeExistedFile")],
  observe=["every path passed to a mutating file-system call", "all other files before and after"])
p("G05", "Runs started in the same second produce identical output",
  "The files produced by a successful run depend only on the clock second the run reads when it starts. They do not depend on what the directory contained before, on how the directory argument is spelled, on how long individual operations take or whether the clock moves or jumps while the run is in progress, on short or interrupted writes, or on memory contents.",
  ["schedules", "fault_sequences", "configurations"], "All timings, clock movements during the run, prior directory contents, spellings of the argument, and recoverable I/O disturbances.",
  "The generator is never run by the tests.",
  GEN, [("the generator is seeded once, at start", "tools/benchgen/main.cpp std::srand")],
  observe=["bytes of all produced files"])
p("G06", "The generator always terminates, and survives recoverable disturbances",
  "Under any sequence of I/O failures, persistent ones included, the generator terminates within a bounded number of system calls instead of retrying for ever. If the only disturbances are short writes, writes interrupted before transferring data, slow operations and clock jumps, a run on a writable directory completes successfully.",
  ["fault_sequences", "schedules"], "All fault sequences for termination; all sequences of recoverable disturbances for success.",
  "The generator is never run by the tests.",
  GEN, [("single pass over a fixed number of files", "tools/benchgen/main.cpp"), ("stream writes", "tools/benchgen/utils.h writeToFile")],
  observe=["number of system calls until exit", "exit status"])
p("G07", "A bad invocation fails and leaves no trace",
  "Called with no argument, with more than one argument, or with a path that does not exist, is not a directory or cannot be examined, the generator exits with a nonzero status and creates, changes or removes nothing anywhere, even if the path appears, disappears or changes kind while it is starting. The same holds when examining the path itself fails.",
  ["inputs", "fault_sequences"], "All argument lists, all kinds of file-system object at the given path, failures and changes of the path during start-up.",
  "The generator is never run by the tests.",
  ["tools/benchgen/main.cpp"], [("argument count and directory check", "tools/benchgen/main.cpp main")],
  observe=["exit status", "file-system mutations"])
p("G08", "Every corpus the generator can produce compiles against the library",
  "Whatever the clock says at start, every source file and the main file of a successfully generated corpus is accepted by a C++11 compiler with the library's public headers, and the corpus links against the library: every function it calls is provided.",
  ["inputs", "schedules"], "All clock values, hence all selections of code snippets.",
  "The tests neither run the generator nor compile its output.",
  GEN + ["include/zcm"], [("snippets", "tools/benchgen/snippets.h"), ("includes", "tools/benchgen/main.cpp cppPreabule")],
  observe=["compiler and linker exit status"])
p("G09", "Generators running at the same time do not disturb each other",
  "When several generators run at the same time, however their system calls interleave, in different directories or, having read the same clock second, in the same one, and nothing worse than short or interrupted writes, delays and clock changes happens to them, every one of them succeeds, and when all have ended every directory holds exactly the files an undisturbed run at that second produces, and nothing else has changed or been left anywhere. A generator that fails or is killed does not affect those working in other directories.",
  ["schedules", "fault_sequences", "crash_points"], "All interleavings of the system calls of several generators, all sequences of recoverable disturbances, every failure or crash point of one of them.",
  "The generator is never run by the tests, alone or in parallel.",
  GEN, [("no path outside the given directory is used and no lock or temporary file is needed", "tools/benchgen/main.cpp, tools/benchgen/utils.h writeToFile"), ("a file already removed by somebody else is not an error", "tools/benchgen/utils.h removeExistedFile")],
  observe=["exit status of every generator", "bytes of all produced files", "all other files before and after"])

p("G10", "The generator never fails silently and announces success only when there is one",
  "Whenever a run ends unsuccessfully (a nonzero exit status or a signal of its own making, because the invocation was bad or the file system failed), it has written to standard output or standard error at least one line that a successful run does not write; a run that rejects its single argument names that argument. The closing line of a successful run is the last thing it prints, it is printed by every run that exits with status 0, never by one that fails, and never before every output file is complete: a run killed right after it leaves the whole corpus.",
  ["fault_sequences", "crash_points", "inputs"], "Every sequence of file-system failures, every bad invocation, every point at which the run may be killed; failures of standard output itself and refused memory are excepted.",
  "The generator is never run by the tests.",
  GEN, [("messages", "tools/benchgen/main.cpp main"), ("failures are reported as exceptions with a reason", "tools/benchgen/utils.h")],
  observe=["text written to standard output and standard error", "exit status", "files at the moment of a kill"])

# ---------------------------------------------------------------- pure functions of their inputs (not simulation targets)
NT = "Fixed example values only; the statement quantifies over all inputs."
p("M01", "Float vector arithmetic is component-wise, in every form",
  "For every operand, +, -, *, / on vectors and between vector and scalar in either order compute each component independently in single precision; compound assignment, increment and decrement give the same values as the corresponding binary operator; equality is component-wise equality.",
  ["inputs"], "All float values including signed zero, infinities, NaN and denormals.", NT, VEC + ["include/zcm/detail/impl_op_macro.hpp"], [("operator macros", "include/zcm/detail/impl_op_macro.hpp")])
p("M02", "Swizzles and aliases read exactly the named components in order",
  "Every swizzle of every vector type yields the components its letters name, in that order, and the xyzw, rgba and stpq spellings are the same component.",
  ["inputs"], "All swizzles and all values.", NT, ACC + VEC, [("accessor index lists", "include/zcm/vec*.hpp, include/zcm/ivec*.hpp")])
p("M03", "Integer vector operators agree with scalar operators and order totally",
  "Every arithmetic, bitwise, shift and compound operator on integer vectors equals the scalar operator on each component; the ordering operators form one strict total order consistent with equality, so integer vectors can key ordered containers.",
  ["inputs"], "All int32 values for which the scalar operation is defined.", NT, ["src/ivec2.cpp", "src/ivec3.cpp", "src/ivec4.cpp", "include/zcm/ivec2.hpp", "include/zcm/ivec3.hpp", "include/zcm/ivec4.hpp"], [("operator macros and comparisons", "src/ivec*.cpp")])
p("M04", "Boolean vectors and relational functions act per component",
  "Logical operators on boolean vectors, component-wise comparison functions, and the any/all/not reductions equal the scalar operation applied to each component.",
  ["inputs"], "All values including NaN for comparisons.", NT, ["src/bvec2.cpp", "src/bvec3.cpp", "src/bvec4.cpp", "src/common.cpp"], [("comparisons", "src/common.cpp"), ("operators", "src/bvec*.cpp")])
p("M05", "Common functions follow their GLSL definitions for every input",
  "abs, sign, floor, ceil, trunc, round, roundEven, fract, mod, min, max, clamp, mix, step, smoothstep, fma, isnan and isinf give the GLSL value on every component, including halfway cases, signed zero, infinities and NaN.",
  ["inputs"], "All floats and ints.", NT, ["src/common.cpp", "include/zcm/common.hpp"], [("scalar kernels lifted to vectors", "src/common.cpp")])
p("M06", "Exponential and trigonometric functions match the scalar C functions",
  "Each exponential, power, logarithm, root, trigonometric and hyperbolic function, on every component of a vector or quaternion, equals the corresponding C math function (base-2 exponential for exp2, arguments of the two-argument arc tangent in the documented order), and degrees and radians invert each other up to rounding.",
  ["inputs"], "All floats.", NT + " (exp2 is in fact implemented with the base-e function on the pinned commit.)", ["src/exponential.cpp", "src/angle_and_trigonometry.cpp"], [("scalar kernels", "src/exponential.cpp, src/angle_and_trigonometry.cpp")])
p("M07", "Geometric functions satisfy their defining identities",
  "dot, cross, length, distance and their squared forms, normalize, reflect, refract, faceforward and orthogonal satisfy their defining equations up to rounding for all inputs, squared forms being the squares.",
  ["inputs"], "All finite vectors.", NT + " (distance2 of 3- and 4-vectors returns the unsquared distance on the pinned commit.)", ["src/geometric.cpp"], [("geometric functions", "src/geometric.cpp")])
p("M08", "Matrix algebra laws hold",
  "Matrix sum, product, scalar and vector products, transpose, determinant, inverse, inverse transpose and adjugate satisfy the laws of linear algebra up to rounding: inverse times matrix is the identity for well-conditioned matrices, determinant is multiplicative, transpose reverses products.",
  ["inputs"], "All well-conditioned matrices.", "No test includes the matrix headers.", ["src/matrix.cpp", "src/mat2.cpp", "src/mat3.cpp", "src/mat4.cpp"], [("matrix functions", "src/matrix.cpp")])
p("M09", "Transform builders produce the documented transforms",
  "translate, rotate, scale, look-at, orthographic and perspective builders map points as documented for their handedness and depth range, and decomposition of a rotation-scale-translation matrix returns its factors.",
  ["inputs"], "All non-degenerate parameters.", "No test includes the header.", ["src/matrix_transform.cpp"], [("builders", "src/matrix_transform.cpp")])
p("M10", "Quaternions represent rotations consistently",
  "Quaternion product, conjugate, inverse, rotation of vectors, conversion to and from matrices, axis-angle and Euler angles, look-at and interpolation agree with each other: all describe the same rotation up to sign and rounding, and interpolation hits its end points.",
  ["inputs"], "All unit quaternions and parameters in range.", "Tests cover basic operators only.", ["src/quat.cpp", "src/quaternion.cpp"], [("quaternion functions", "src/quat.cpp, src/quaternion.cpp")])
p("M11", "Equal values hash equally and every component reaches the hash",
  "Values that compare equal hash equally, and changing any one component of a value can change its hash.",
  ["inputs"], "All values.", "No test includes the header. (Positive and negative zero compare equal but hash differently, and one matrix column does not reach the hash, on the pinned commit.)", ["src/hash.cpp", "include/zcm/hash.hpp"], [("hash functions", "src/hash.cpp")])
p("M12", "Colour-space conversions invert each other",
  "Conversion from linear to sRGB and back returns the original colour up to the documented approximation, leaves alpha unchanged and is monotone per channel.",
  ["inputs"], "All colours in range.", "No test includes the header.", ["src/color_space.cpp"], [("conversions", "src/color_space.cpp")])
p("M13", "Octahedral encoding round-trips unit vectors",
  "Decoding the octahedral encoding of any unit vector returns that vector up to rounding.",
  ["inputs"], "All unit vectors.", "No test covers it.", ["src/geometric.cpp"], [("encode and decode", "src/geometric.cpp")])
p("M14", "Results agree with GLM",
  "Every operation that GLM also provides returns GLM's result up to rounding for the same arguments.",
  ["inputs"], "All operations shared with GLM, all inputs.", "Ten geometric tests compare single values.", ALLSRC, [("GLM-compatible API", "README.md")])
p("M15", "Headers and build configurations are interchangeable",
  "Every public header compiles on its own in C++11, and debug, release and swizzle-disabled configurations give the same values.",
  ["configurations"], "All headers, include orders and configurations.", "One configuration is built.", ["include/zcm"], [("extern templates", "include/zcm/detail/vec*_access.hpp")])
p("M16", "Element pointers and makers are inverse, and storage is contiguous",
  "Building a value from an element pointer and reading elements through its element pointer gives the same elements in column-major order with no gaps.",
  ["inputs"], "All values.", "Not tested for matrices.", ["src/type_ptr.cpp", "src/mat2.cpp", "src/mat3.cpp", "src/mat4.cpp"], [("value_ptr and make functions", "src/type_ptr.cpp")])
p("M17", "In-place operations tolerate aliased operands",
  "Compound operators and functions with output arguments give the same result when an operand aliases the destination as when it is a separate copy.",
  ["inputs"], "All aliasing patterns and values.", "Not tested.", ["src/quat.cpp", "src/mat3.cpp", "src/mat4.cpp", "src/mat2.cpp"], [("results computed into locals first", "src/quat.cpp operator*=")])
p("M18", "The swizzle table script emits each combination exactly once",
  "For every size and length the helper script prints every component combination exactly once with consistent letter sets.",
  ["inputs"], "All sizes and lengths.", "Not tested.", ["tools/combinations.py"], [("itertools.product", "tools/combinations.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
