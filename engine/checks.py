"""Per-property configuration of the checks: instrumented variants, level, texts for the evidence and the manifest."""

REF = ("the reference model (engine/ref.hpp: definition by series, expansion about z=1, inversion, lattice sums, in quad or extended "
       "precision) is right; it shares no code with /repo, and tools/validate_ref.py compared it with mpmath")
LATTICE = ("between two neighbouring points of the closed input lattice at which the implementation takes the same decisions, no further "
           "input is executed")
TRACE = "gcc's -fsanitize-coverage=trace-pc,trace-cmp reports the comparisons of the code under test"

LATTICE_TEXT = ("the input space is a declared finite lattice (signs x exponents over the whole range x mantissas, special values, the real axis, rays "
                "and circles around 0 and 1, multiples of pi, constants found in the library) closed under the decisions of the implementation: for every "
                "pair of neighbouring inputs between which a comparison executed by the instrumented library changes, bisection finds the two adjacent "
                "floating-point inputs at the boundary, and these and their neighbours are enumerated too; ")


def prop(what, variants=("plain", "trace"), assume=(REF, LATTICE, TRACE), technique="explicit-state enumeration of the input state space on the real code against a reference model"):
    return {"variants": list(variants), "level": "model_checking", "explanation": LATTICE_TEXT + what, "assumptions": list(assume), "technique": technique}


ACC = "every state is executed on the real functions of all languages and the result is compared with the reference model"
REL = "enumeration of the input state space on the real code, checking a relation between executions in every state"

CHECKS = {
    "C01": prop(ACC + "; in single precision every float of the stated exponent range is a state"),
    "C02": prop(ACC),
    "C03": prop(ACC),
    "C04": prop(ACC),
    "C05": prop(ACC),
    "C06": prop(ACC),
    "C07": prop(ACC),
    "C08": prop(ACC),
    "C09": prop(ACC),
    "C10": prop("in every state the results at x, -x and the reduced angle are compared, and the result is bounded by the exact maximum", technique=REL),
    "C11": prop("special arguments and both signs of zero, and every real argument of the lattice; the exact value, the sign of zero or the sign of the result is checked", technique=REL),
    "C12": prop("the cut from 1 to infinity: every lattice point on it with both signs of zero, and up to 18 points next to it on both sides", technique=REL),
    "C13": prop("the results at z and at its conjugate are compared in every state", technique=REL),
    "C14": prop("the C, Fortran and C++ functions, and each function with the next higher precision, are compared in every state", technique=REL),
    "C15": prop("the function of general order and the dedicated function, and the complex and the real function, are compared in every state", technique=REL),
    "C16": prop("the relation to the Clausen and Glaisher functions, the duplication and the inversion formula are evaluated in every state", technique=REL),
    "C17": prop("all pairs of special values (infinities, NaN, extreme finite numbers) and the closed lattice, for all functions and orders including the extreme ones", technique=REL),
    "C18": prop("every state is executed in a build with undefined-behaviour, address, bounds and Fortran run-time checks, in a build that counts the executed basic blocks (bounded by a constant), and "
                "in an unoptimized build on stacks and registers filled with four patterns (the result must not depend on them); all orders -300..300, around every power of two, decimal ones, the ends of the 64-bit range and the decision orders",
                variants=("plain", "trace", "ub", "o0"), assume=("the sanitizers of gcc report the undefined behaviour of the executed states", LATTICE, TRACE),
                technique="explicit-state enumeration of the input state space on the real code with sanitizers and a work counter as monitors"),
    "C19": {"variants": ["plain", "trace", "mem"], "level": "model_checking",
            "explanation": "every operation (function, order, argument; one per execution path of each function, special values and pairs that differ in one component) is executed as the first call of a fresh process; "
                           "then the reachable states of the writable memory of the library are explored breadth first over the operations, all words of length 2 over all operations, of length 3 and 4 over the operations of one function "
                           "are executed (de Bruijn sequences) and compared bit by bit with the fresh results; every operation is executed in nine contexts (stack and register contents, errno, flags, rounding modes, thread, alignment); "
                           "pairs of concurrent calls are executed under a cooperative scheduler in all schedules up to two preemptions at accesses to shared memory, with race detection (pairs of operations without a write to shared memory have one schedule)",
            "assumptions": ["gcc's -fsanitize=thread reports the memory accesses of the code under test", "concurrency is sequentially consistent; unsynchronized conflicting accesses are reported as violations",
                            "memory of libm and libgfortran is not part of the explored state"],
            "technique": "explicit-state search over histories and stateless search over schedules of the real code, compared with fresh executions"},
    "C20": prop("all orders from -2000 to 5000 and around every power of two at z = 1, z = -1, angle 0 and pi", assume=(REF,), technique="explicit-state enumeration of the orders on the real code against the reference model"),
    "C22": prop("the sources are compiled a second time with a long double of quadruple precision (-mlong-double-128, libm by libquadmath), which selects the code for LDBL_DIG > 18; each state is executed with the 80-bit argument, "
                "with an argument that has all 113 bits, and at the opposite argument (conjugation, parity); oracle: the reference model in 60 digits", variants=("plain", "trace", "quad"),
                assume=("the reference model (engine/ref.hpp in 60 decimal digits, engine/p_quad.cpp) is right; tools/validate_ref.py compared it with mpmath", "libquadmath is accurate", LATTICE, TRACE)),
    "C23": prop("every state is executed in seven floating-point environments (rounding to nearest, upward, downward, toward zero; gradual underflow or flush to zero, except the default one), must return, and the result is compared with the "
                "reference model evaluated in the default environment", assume=(REF, "libm of glibc is accurate to a few units in every rounding direction", LATTICE, TRACE)),
    "C24": prop("in every state the exception flags of the call are read; invalid and division by zero (and overflow, for arguments of moderate size) must not be raised if the result is finite", assume=("a trap occurs exactly when the corresponding flag is raised (IEEE 754)", LATTICE, TRACE), technique=REL),
    "C25": prop("the sources are compiled in four other ways (gcc -O3 with contraction into fused multiply-adds, gcc with intermediate results in extended precision (x87), clang -O0, clang -O3 with contraction), each state is executed in "
                "every build and the result is compared with the reference model", variants=("plain", "trace", "fma", "x87", "clang", "clang3"), assume=(REF, "the compilers are right", LATTICE, TRACE)),
    "C21": prop("neighbouring states on the real axis (order and slope), the two sides of every decision boundary (no jump), neighbouring orders, and the modulus bound are checked", technique=REL),
}
