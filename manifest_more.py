n("C07", "exhaustive bounded enumeration of the Python implementation against the reference model", "model_checking", "Complete within the stated alphabet; full-size keys only for patterns and diagonals, component functions completely.")
n("C08", "exhaustive enumeration of call sequences to a depth, and explicit-state search over the library's static data", "model_checking", "Depth 3 (4 on reduced n) over 13 operations, all pairs x,x' of single changes, and a fixpoint of the static data states.")
n("C09", "stateless model checking of real threads under a controlled scheduler, with vector-clock race detection", "model_checking", "Preemption bounds as reported; sequentially consistent interleavings; OpenSSL calls are atomic steps.")
n("C10", "exhaustive enumeration of system call answers to a deviation bound on the real code", "model_checking", "All answer sequences to the stated depth, fork histories; the Windows branch runs against a stub of its system call.")
n("C11", "exhaustive enumeration of generator failures in call sequences on the real code", "fault_enumeration", "Every request of every operation fails alone and from there on; recovery checked.")
n("C12", "exhaustive enumeration of failing OpenSSL calls on the real code", "fault_enumeration", "Every single call and every suffix of calls of every operation; calls not interposed cannot fail.")
n("C13", "exhaustive enumeration of alignments, prior contents and layouts with guard pages on the real code", "model_checking", "33 alignments of every buffer against both page borders; sanitizer builds included.")
n("C14", "exhaustive enumeration of secrets and outcomes with a scan of stack, static and released memory", "model_checking", "Windows of 8 to 32 bytes of every secret, and pieces of 4 to 8 bytes that recur for five secrets, are searched after every enumerated call; reported when builds of both compilers leave the secret.")
n("C15", "exhaustive enumeration of secrets with comparison of complete execution traces (self-composition)", "model_checking", "All enumerated secrets give the same trace of blocks and addresses for each public input; gcc and clang builds.")
n("C16", "exhaustive enumeration of lengths, splits and alignments against an independent Keccak", "model_checking", "All lengths to the stated bounds; contents from an alphabet.")
n("C17", "exhaustive enumeration of key and block alphabets, counts and alignments against an independent AES", "model_checking", "All byte values of each key and block position; not all keys.")
n("C18", "exhaustive enumeration of all 65536 random words against the specified table", "model_checking", "Complete for the sampler's whole input range at the component; at the API for the words reached by enumerated seeds.")
n("C19", "exhaustive enumeration of all coefficient values at all positions", "model_checking", "Complete per coefficient; pairs of neighbours complete for boundary values.")
n("C20", "exhaustive enumeration of basis matrices and extreme coefficients against the model", "model_checking", "Every entry of A through basis vectors for the enumerated seeds; products over extreme values.")
n("C21", "exhaustive bounded enumeration on the real sources compiled with big-endian memory semantics", "model_checking", "Big-endian execution is simulated at the compiler's IR.")
n("C22", "exhaustive enumeration of call sequences on several objects and of all interruption points of an operation", "model_checking", "Reduced n; sequences of 2-3 operations; one preemption at every function call and every line of an operation.")
n("C23", "exhaustive enumeration of request sizes, scripted system streams and sequences of known-answer runs", "model_checking", "A source that bypasses os.urandom/os.getrandom is only checked for freshness.")
