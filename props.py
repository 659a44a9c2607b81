"""What each property's check runs: specification programs (jobs: regular expression over job names), rules."""
MEMORY_KINDS = r'(uninitialised|out-of-bounds|null pointer|use-after|overlapping|bad release|bad-pointer|division by zero|oversized shift|unbounded recursion|write to read-only|trap|abnormal termination|endless loop)'
VG = ('Abstract interpretation of the LLVM IR of the current sources over a value-graph domain (hash-consed terms, affine XOR/bit normal forms, tables over character sets); '
      'branches the abstract state does not decide are analysed on both sides and joined at the postdominator; message, key and text bytes are unconstrained atoms, so each case covers every content. '
      'Two results are equal when their value-graph terms are identical (congruence); a remaining pair is compared by random interpretation. ')
PROPS = {}
def P(pid, title, jobs=None, explanation='', **kw): PROPS[pid] = dict(title=title, jobs=jobs, explanation=explanation, **kw)
P('C01', 'Memory safety of every public operation', r'job_', VG + 'Every load, store, copy, release and returned byte of every specification program is an obligation: in bounds of a live object, initialised, released once; only such faults are reported here. Rule order (AST queries over every source): no operand of a call or operator modifies a local variable that another operand of it reads.', kinds=[('', MEMORY_KINDS)], min_jobs=250, source_rules=['order'])
P('C02', 'Chunking independence', r'job_C02_', VG + 'Obligation: the digest of a message fed in pieces equals the digest of the message fed at once, for each fill level and piece size in the partition.', min_jobs=28)
P('C03', 'Digests are those of the standards', r'job_C03_', VG + 'Obligation: every digest byte equals the reference written from RFC 1321, FIPS 180-4 and FIPS 202, at each message length of the partition, and with the length counter moved next to word boundaries.', min_jobs=24)
P('C04', 'Initialisation erases the past', r'job_C04_', VG + 'Obligation: after initialisation of a context with arbitrary or previously used contents the digest equals that of a fresh context.', min_jobs=28)
P('C05', 'HMAC is RFC 2104', r'job_C05_', VG + 'Obligation: every byte of every keyed digest equals RFC 2104 over the reference hash.', min_jobs=12)
P('C06', 'HOTP is RFC 4226', r'job_C06_', VG + 'Obligation: the password equals dynamic truncation of the reference HMAC for an arbitrary 64-bit counter and arbitrary secret bytes, for functions and objects.', min_jobs=28)
P('C07', 'TOTP uses the counter of the current window', r'job_C07_', VG + 'Obligation: the password at an arbitrary time equals the reference HOTP of (time - start) / interval.', min_jobs=24)
P('C08', 'Base-N encoding is RFC 4648', r'job_C08_', VG + 'Obligation: the text, its length and its terminator equal the reference.', min_jobs=5)
P('C09', 'Base-N decoding inverts encoding', r'job_C09_', VG + 'Characters range over the whole alphabet of their position (both letter cases where the alphabet has one), with optional padding and characters outside the alphabet.', min_jobs=5)
P('C10', 'Hexadecimal conversions', r'job_C10_', VG, min_jobs=3)
P('C11', 'Blowfish', r'job_C11_', VG + 'The block function and whole messages are analysed under an arbitrary key schedule; the key schedule for keys of many lengths with fixed bytes and for an arbitrary 4-byte key.', min_jobs=6)
P('C12', 'Objects agree with the functions', r'job_(C12|C16_obj)_', VG, min_jobs=38)
P('C13', 'Convenience forms agree with the incremental form', r'job_C13_', VG, min_jobs=32)
P('C22', 'SequentialData holds exactly its bytes', r'job_C22_', VG, min_jobs=3)
P('C23', 'Algorithm names and sizes', r'job_C23_', VG, min_jobs=1)
P('C24', 'Extendable output of any length', r'job_C24_', VG, min_jobs=4)
P('C25', 'Results may be fed back', r'job_C25_', VG + 'The output buffer of a digest, keyed digest or cipher is the buffer (or part of the buffer) that holds the message or the key; the digest an object returned is the next message or key. Obligation: every byte equals the reference for separate buffers, and bytes beside the result keep their values.', min_jobs=60)
P('C26', 'Contexts may be copied and moved', r'job_C26_', VG + 'A context with arbitrary content pending is copied byte by byte to other memory and the original is overwritten, or both continue with different data, or the copy is put back; objects are copied and moved in each state they can be in. Obligation: every byte of every result equals the reference, and no write of one reaches the other.', min_jobs=40)

P('C14', 'Control flow and addresses never depend on message or key contents in hashing', r'job_C14_', VG + 'Obligation: every branch condition, address, length and divisor met while a hash or keyed hash runs is free of message and key atoms.', min_jobs=28, kinds=[('', r'content-dependent|' + MEMORY_KINDS)])
P('C15', 'Inputs are never modified and never retained', r'job_(?!.*_(hist|big))', VG + 'Inputs are read-only objects while an operation runs and cease to exist when it returns (job_C15_*), every later result must still be right; the inputs of every other specification program are read-only too.', min_jobs=280, kinds=[('job_C15_', '(?!shared state)'), ('', 'write to read-only|use-after')])
P('C17', 'One codec object may be used by several threads at once', r'job_C17_', VG + 'Each byte of memory reachable by two of the operations that run concurrently, one of them writing, needs a lock held in every access (lockset); no path leaves a lock held, locks twice, or nests two locks in both orders; each allocation fails in turn.', min_jobs=10, kinds=[('', '(?!shared state|content-dependent)')])
P('C18', 'Everything allocated is released exactly once, also when allocation fails', r'job_C18_|job_C17_exits_', VG + 'Typestate of every heap object: allocated, released once; nothing allocated since the start of the scenario is live at its end; each allocation of the scenario fails in turn, and the object that met the failure is then asked again.', min_jobs=85, kinds=[('', '(?!shared state|content-dependent)')])

P('C16', 'The library keeps no hidden state between calls', r'job_(C16|C15|C13|C10|C22|C23|C07|C09)_', 'Effect analysis of every function of the library (rule shared): no static object is written except once during initialisation or under a lock, and no function whose result depends on process-wide state is called; the clock is read only for time-based passwords. Addresses that escape into memory are followed by the abstract interpretation, which records every write to a static object. ' + VG + 'job_C16_*: two contexts or objects used alternately, and repeated calls with other contents, give what each gives alone.',
  min_jobs=100, kinds=[('job_C16_', ''), ('', 'shared state')], rules=['shared'])
P('C19', 'Lengths and counters are never silently narrowed', None, 'Interprocedural dataflow over the IR of the whole library: every 64-bit unsigned parameter, strlen/size result and structure field set from one carries a length; a conversion of such a value to fewer bits whose value range (intervals, refined by dominating branches and by the call sites of internal functions) does not fit, and which ends in a branch, offset, copy length, stored counter, result or argument, is a violation; so is a narrower loop counter compared with a length, and a length parameter of the interface of fewer than 64 bits.', rules=['narrow'])
P('C20', 'The public headers stand alone and everything declared is defined', None, 'Each public header is compiled alone and twice, all of them in several orders, as each language it is meant for; every C source is compiled after all public declarations (conflicting signatures do not compile); every function and object declared without a body is looked up in the symbols of the IR; no header may emit an ordinary definition.', source_rules=['headers'])
P('C21', 'Stack use is bounded independently of the input', None, 'Strongly connected components of the call graph (virtual calls by vtable slot, other indirect calls by type), size of every stack object (a size computed at run time must be bounded by the constants at all call sites), allocation in loops, and the longest call chain in bytes.', rules=['stack'])
P('C27', 'The library only computes', r'job_(C06|C09|C10|C18|C22|C23|C17_exits)_', 'Effect analysis of every function of the library: no use (call, or address taken in code or in a table) of a function that ends the process, writes to the terminal or a descriptor, opens or closes files, starts processes or threads, or changes the state of the process; output is allowed where every way to it leads through a printing function, the standard streams likewise. ' + VG + 'The specification programs of strings, names, data, passwords and failing allocations must not reach a trap, an abort or an exception that cannot be passed on.', min_jobs=100, kinds=[('', 'trap|abnormal termination|endless loop')], rules=['effects'])
P('C28', 'What is declared const only reads', r'job_C28_', VG + 'Each operation with a const object, a const context or const arguments is analysed as running at the same time as itself and as every other one: a byte that existed before and that one of them writes needs a lock held in every access (lockset). The results equal the reference each time.', min_jobs=4, kinds=[('', '(?!shared state|content-dependent)')])
