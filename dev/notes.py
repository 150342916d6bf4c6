NOTE['B05'] = 'All registered reduction kernels, every length and stride, start aliased with the output or not. Invariant: each accumulator register lane holds the fold of an arithmetic set of elements; association and intermediate precision of float sums/products are left open as the property says. Concrete runs against NumPy are bounded.'
NOTE['D01'] = 'Every registered loop (359) executed symbolically with arbitrary length, strides, settings and operand aliasing (disjoint, in place, same address with one element); routing, operands, split ranges, block claim/complete protocol are obligations. Assumes the dispatcher contract (T01/T02) and the kernel contracts (B01-B05).'
NOTE['B06'] = 'The reduce form of every registered loop: per-block fold into the slot of that block, identity or idempotent start, final fold of all slots into the caller\'s result. Assumes the dispatcher contract (T01/T02).'
NOTE['B07'] = 'Overlapping operands that are not exactly in place must reach exactly one unsplit call of the original loop; IsOutputFeedingInput has its own contract. accumulate, reduceat and at are such calls of NumPy\'s machinery (bounded concrete comparison covers them end to end).'
NOTE['C01'] = 'With acceleration off no accelerated routine is reachable from any registered loop, for any arguments; settings are unchanged by every loop. Every settings function has its own contract (reads and writes exactly its own setting). Sequences of settings calls are also compared with a model (bounded).'
NOTE['L01'] = 'Every registered loop with the ledger on: one record, settings restored, same obligations on what is computed. Results with ledger on are also compared with NumPy (bounded). Sorting and range hooks with the ledger on are covered by the bounded comparison only.'
NOTE['T01'] = 'The claiming functions are verified against the item exactly as WorkMain announces it, for every length (symbolic), each configured/requested worker count and claiming strategy; other threads interfere between any two operations by the rely (only claims and completions). Sequentially consistent atomics assumed for the counters; orderings of announcement and completion are T02. A native multi-thread harness on the real code is a bounded stand-in.'
NOTE['T02'] = 'WorkMain announces, works, waits for all completions and retires the item; callbacks complete each claimed block exactly once with release ordering; workers touch only announced items. Wait loops: exit conditions are proved, that the operating system schedules the threads is assumed (termination under fairness). Native multi-thread harness is a bounded stand-in.'
NOTE['T03'] = 'Every settings function, GetWorkItem, start-up and WorkMain under contract; invariant 0 <= worker count <= threads that exist. That results do not depend on the count follows from T01/T02/D01. Settings sequences and cpu counts are also run concretely (bounded).'
NOTE['S01'] = 'Under contract: the sort hooks, Sort (every type, mode, workspace config), every merge-sort entry, CopyData, the parallel split/merge control (jobs cover the range, workspaces disjoint, buddy protocol). The sequential quick/heap/merge routines are assumed to sort the range, type and workspace they are handed; that is decided by a bounded comparison with NumPy (labelled bounded, not counted as proved).'
NOTE['S02'] = 'As S01 for argsort and lexsort (SortIndex32/64, all types, modes, index widths, cutoffs): identity start, every range, index width and workspace, merge order and stability of the split. The sequential routines are assumed per name and decided by a bounded comparison with NumPy.'
NOTE['S03'] = 'The parallel layer proved for every length and job count: the split covers [0,n) once, workspaces are disjoint and large enough, two buddies merge exactly once after both finished, stable order of the merges, result copied back. Assumes WorkMain (T01/T02) and the sequential routines (bounded in S01/S02).'
NOTE['A01'] = 'Every registered range-fill routine, every length, start and step: element i is start + i*delta in the element type with the operations NumPy uses; entry and thread callback under contract. half and long double slots are not under contract (bounded comparison). Assumes T01/T02 for the block distribution.'
NOTE['R01'] = 'recarray_to_colmajor and its thread callback for every row count, field offset, field size, item size and stride: exact copy of every field of every row, accesses inside the arrays. Parsing of the field list is executed on the model of the Python C API; lookup by name also bounded.'
NOTE['G01'] = 'BooleanIndexInternal and its two callbacks for every length, mask, stride and element size: block counts, prefix offsets and the selected elements in order. SumBooleanMask is assumed to count non-zero bytes (bounded comparison); hook and multi-dimensional requests bounded.'
NOTE['G02'] = 'getitem and every integer-index kernel: all index types, element sizes, strides, lengths; every element read is inside the array or the default is written; entry hands exactly the caller\'s data to the kernel of that index type and element size. FillDefault is bounded.'
NOTE['B04'] = 'Kernel contract (every length, stride, aliasing: element i of the result is the lane or scalar routine applied to element i) and lane contract (lane l of every vector routine is one common function of lane l) are discharged deductively; the accuracy bound of that function is decided by exhaustive evaluation of all 2^32 float32 values in vector and scalar position on the compiled code (complete over its finite domain, not a solver proof), against double libm.'
NOTE['I01'] = 'Initialisation is a closed program: it is executed symbolically from its start state and every table entry, type number, replaced loop and remembered original is an obligation; NumPy\'s own type table and ufunc types are the reference. AVX2 present is assumed.'
