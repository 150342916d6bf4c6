"""writes properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if obs: d['anchors']['observe_at'] = obs
    d['anchors']['hook_needed'] = None
    P.append(d)
PN = 'src/pnumpy/_pnumpy.cpp'
OB = 'src/atop/ops_binary.cpp'
p('B01', 'Accelerated arithmetic, min/max, logical and bitwise ufuncs equal NumPy',
  'For every accelerated two-operand arithmetic, minimum/maximum, logical or bitwise ufunc and every element type it is accelerated for, each output element equals what NumPy defines for the two input elements at that position, with the output type NumPy gives. This holds for every length, every byte stride (also negative, zero for a broadcast scalar), every alignment, and when the output is exactly one of the inputs; nothing but the output elements is written and nothing outside the arrays is read.',
  ['inputs', 'configurations'], 'all element values (incl. NaN, infinities, signed zero, integer extremes), lengths >= 1, strides, alignments, scalar operands, in-place use, and every dtype the ufunc is accelerated for',
  'The tests compare a few sizes of arange data; the vector body, the alignment head, the tail and the scalar variants are chosen by length mod vector width, alignment and stride combinations that they do not enumerate, and values at type extremes or NaN are not sampled.',
  [OB, 'src/atop/simd.h', 'src/atop/atop.h'], [('vector/scalar kernel templates SimpleMathOpFast, SimpleMathOpFastSymmetric, SimpleMathOpFastDouble', OB), ('element operations and 256 bit counterparts', OB)], obs=['np.<ufunc>(a, b, out=...)'])
p('B02', 'Accelerated comparisons equal NumPy for every type, layout and value',
  'For every comparison ufunc and every element type it is accelerated for, each output is exactly one byte, 0 or 1, equal to what NumPy defines for the two elements, including signed/unsigned extremes and NaN. This holds for every length, stride, alignment and scalar operand; nothing else is written and nothing outside the arrays is read.',
  ['inputs', 'configurations'], 'all element values, lengths >= 1, strides, alignments, scalar operands and accelerated dtypes',
  'Comparison results are packed from vector masks through lookup tables in groups of 8 to 32 elements; tests use a handful of lengths and never the mixtures of tail length, scalar side and extreme values.',
  ['src/atop/ops_compare.cpp', 'src/atop/simd.h'], [('CompareInt8..CompareInt64S, CompareFloat kernels', 'src/atop/ops_compare.cpp'), ('boolean expansion tables', 'src/atop/atop.cpp')], obs=['np.less(a, b) etc.'])
p('B03', 'Accelerated one-operand ufuncs equal NumPy for every type, layout and value',
  'For every accelerated one-operand ufunc that NumPy defines exactly (absolute, negative, sign, rounding, square root, inversion, logical not, classification of NaN/infinity and the like), each output element equals what NumPy defines for the input element. This holds for every length, stride and alignment and for in-place use; nothing else is written and nothing outside the arrays is read.',
  ['inputs', 'configurations'], 'all element values, lengths >= 1, strides, alignments and accelerated dtypes',
  'The tests compare sums or a few elements of arange data; special values, tails, strides and the scalar paths are not enumerated.',
  ['src/atop/ops_unary.cpp', 'src/atop/simd.h'], [('UnaryOpFast, UnaryOpFastStrided and boolean-result kernels', 'src/atop/ops_unary.cpp')], obs=['np.<ufunc>(a)'])
p('B04', 'Accelerated transcendental functions stay within NumPy accuracy everywhere',
  'Each accelerated trigonometric, exponential or logarithmic ufunc returns, for every element of every layout, a value within a few units in the last place of the true value, with the special values (NaN, infinities, zeros, out of domain) that NumPy returns. The result for an element does not depend on its position, the array length or the stride.',
  ['inputs', 'configurations'], 'all single precision values, lengths, strides, alignments',
  'The tests do not compare accelerated transcendental results with a reference over the value range, nor tails and strides.',
  ['src/atop/ops_trig.cpp', 'src/atop/ops_log.cpp'], [('trig kernels and polynomial cores', 'src/atop/ops_trig.cpp')], obs=['np.sin(a) etc.'])
p('B05', 'Reductions fold the start value and every element exactly once',
  'A sum, product, minimum or maximum reduction over one axis combines the start value with every element exactly once, and nothing else, for every length, stride and alignment: integer and boolean results are exact, and floating results are a sum or product of exactly those terms in some order. Nothing outside the array is read and only the result is written.',
  ['inputs', 'configurations'], 'all element values, lengths >= 1, strides (zero and negative included), start values and accelerated dtypes',
  'An element dropped or counted twice shows only at particular lengths relative to the unrolled vector width; tests check few lengths and often values for which it makes no difference.',
  [OB, PN], [('ReduceMathOpFast, ReduceMathOpFastUpcast kernels', OB), ('reduce branch of the binary hook', PN)], obs=['np.add.reduce(a) etc.'])
p('B06', 'Threaded reductions equal unthreaded ones',
  'Splitting a reduction over worker threads gives the same integer, boolean, minimum or maximum result as performing it in one piece, for every operation that is split, every length and stride, every start value and any number of workers; floating sums and products differ only by rounding of the changed association. Operations for which splitting changes the answer are not split.',
  ['inputs', 'schedules', 'configurations'], 'all reduced ufuncs and dtypes, lengths above the threading threshold, worker counts and claim orders, start values',
  'Tests reduce one or two large arrays of friendly data; which worker takes which block, the last partial block and non-contiguous input are not varied.',
  [PN, 'src/atop/threads.h'], [('partial result buffer, identity start values, final combine', PN), ('block callbacks', PN)], obs=['np.<ufunc>.reduce on arrays of >= 65536 elements'])
p('B07', 'accumulate, reduceat and at see their own earlier results',
  'When the output of an inner loop feeds a later iteration of the same loop (accumulate, reduceat, ufunc.at and overlapping operands that NumPy allows), the result is the one of processing elements strictly in order. This holds for every ufunc, dtype, length and stride, with threads and acceleration on.',
  ['inputs', 'configurations'], 'all hooked ufuncs and dtypes, lengths, strides and overlap distances',
  'Tests use accumulate on few short arrays; vectorised or split processing breaks only from particular lengths on.',
  [PN], [('overlap test in the binary and compare hooks', PN)], obs=['np.add.accumulate(a)'])
p('T01', 'Parallel block claiming covers every element exactly once',
  'When an operation is split over worker threads, every block of the index range is handed to exactly one worker, the blocks are disjoint and together cover exactly the elements 0..n-1, whatever the number of workers, the claiming strategy and the interleaving. No worker is ever handed a block after the work is exhausted.',
  ['schedules', 'inputs', 'configurations'], 'all lengths, worker counts 0..63, claim orders and interleavings of the workers',
  'A test run explores one interleaving of the machine it runs on; a double claim or a dropped last block needs a particular one.',
  ['src/atop/threads.h'], [('GetNextWorkBlockCore, GetNextWorkBlock, channel split in WorkMain', 'src/atop/threads.h')], state=[('per channel CurrentBlock/LastBlock counters', 'next unclaimed block and end of each channel', 'src/atop/threads.h')])
p('T02', 'A parallel operation returns only after all its blocks completed',
  'The call that starts a parallel operation returns only when every block has been processed and its results are visible to the caller; the operation terminates for any number of CPUs and workers, and a worker never touches a finished operation\'s data.',
  ['schedules', 'configurations'], 'all interleavings of the starting thread and the workers, worker counts including zero, successive operations',
  'Early return or a stale worker shows only under a rare interleaving.',
  ['src/atop/threads.h', 'src/atop/threads.cpp'], [('WorkMain wait loop, BlocksCompleted, work item ring', 'src/atop/threads.h')])
p('T03', 'Worker settings never change results, only the degree of parallelism',
  'For every sequence of thread enable/disable, worker-count and claiming-strategy settings, including out of range values, results of all operations stay the same; the worker count stays within the number of workers that exist and the getter returns what was accepted.',
  ['histories', 'configurations'], 'all settings sequences and integer arguments, all operations',
  'Tests call each setter once or twice with ordinary values.',
  [PN, 'src/atop/threads.h', 'src/atop/threads.cpp'], [('SetFutexWakeup, atop_setworkers bounds, thread_* functions', PN)])
p('D01', 'Every hooked ufunc call is routed to an equivalent computation',
  'For every registered ufunc, dtype, length, stride, aliasing of the operands and setting, the replacement loop either calls the original NumPy loop on exactly the caller\'s arguments or computes the same function over the same elements: the accelerated routine for that operation and type, on operands it is valid for, over blocks that cover the range. A type or operation without an accelerated routine always reaches the original loop.',
  ['inputs', 'configurations', 'schedules'], 'all 359 registered (ufunc, dtype) loops, lengths, strides, pointer overlaps, threading decisions and settings',
  'The routing tables have thousands of entries and the hooks branch on strides, overlap and length; tests call a few ufuncs on fresh contiguous arrays.',
  [PN, 'src/atop/ops_binary.cpp', 'src/atop/ops_compare.cpp', 'src/atop/ops_unary.cpp', 'src/atop/ops_trig.cpp'], [('table set-up at initialisation', PN), ('binary, compare, unary and trig hooks with thread callbacks', PN), ('lookup functions', 'src/atop/ops_*.cpp')])
p('S01', 'sort returns the ascending rearrangement of its input, NaN last',
  'Sorting any array of a hooked type returns an array that is a permutation of the input, bit pattern by bit pattern, in ascending order with NaN at the end, for every length, kind and layout. No memory outside the array and its workspace is touched.',
  ['inputs', 'configurations'], 'all element values, lengths, sort kinds and dtypes, with and without threads',
  'Tests sort few arrays; insertion/merge/heap fallbacks are entered at particular lengths and orders, and NaN and extreme values are not sampled.',
  ['src/atop/sort.cpp', PN], [('quicksort, heapsort, mergesort, insertion sort and hooks', 'src/atop/sort.cpp')])
p('S02', 'argsort and lexsort return a valid stable ordering permutation',
  'The indices returned by argsort and lexsort are a permutation of 0..n-1, and gathering the keys by them gives ascending order with NaN last; equal keys keep their original order for the stable kinds and for lexsort, where the last key is the primary one. Both index widths give the same answer.',
  ['inputs', 'configurations'], 'all key values, numbers of keys, lengths, dtypes and index widths',
  'Tests use a handful of small key sets; stability and NaN order can fail only for particular ties and lengths.',
  ['src/atop/sort.cpp', 'src/pnumpy/sorting.cpp', PN], [('indirect merge sort and lexsort drivers', 'src/atop/sort.cpp')])
p('S03', 'Parallel sorting equals serial sorting',
  'For arrays large enough to be sorted by several threads, the result equals the one of the serial algorithm for every length, key type, data distribution and number of workers.',
  ['schedules', 'inputs', 'configurations'], 'lengths above the threading threshold, dtypes, distributions, worker counts, interleavings',
  'Tests sort one large random array; split points and merge levels depend on length and worker count.',
  ['src/atop/sort.cpp', 'src/pnumpy/sorting.cpp'], [('parallel split and pairwise merge', 'src/atop/sort.cpp')])
p('G01', 'Boolean mask indexing selects exactly the marked elements in order',
  'Indexing an array with a boolean array of the same length returns exactly the elements whose mask entry is true, in order, with the array\'s type; shapes or types it cannot serve give what NumPy gives or an error, never a wrong result. No memory outside the operands and the result is touched.',
  ['inputs', 'configurations'], 'all masks, lengths, strides, element types, with and without threads',
  'Tests index small contiguous arrays; the mask is counted and compressed 8 or 16 entries at a time and in parallel chunks.',
  ['src/pnumpy/getitem.cpp'], [('BooleanCount, BooleanIndexInternal', 'src/pnumpy/getitem.cpp')])
p('G02', 'Integer array indexing returns NumPy\'s elements for every valid index',
  'Indexing with an integer array returns for each position the element NumPy returns, negative indices counting from the end, for every index type, element type and layout; out of range indices give a defined outcome (error or default value), never a read outside the array.',
  ['inputs', 'configurations'], 'all index values and types, element types, strides, lengths',
  'Tests use few index arrays; strided values, extreme indices and unusual item sizes are not sampled.',
  ['src/pnumpy/getitem.cpp', 'src/pnumpy/item_selection.cpp'], [('GetItemInt, GetItemUInt kernels and driver', 'src/pnumpy/getitem.cpp')])
p('R01', 'Record array to column conversion copies every field of every row exactly',
  'Converting a record array to separate columns yields for every field an array of its type whose element i is bit for bit the field of row i, for every row count, field offset, item size, padding and layout, with and without threads. Nothing else is read or written.',
  ['inputs', 'configurations'], 'all record layouts, row counts, field widths, with and without parallel conversion',
  'Tests convert one record layout; gather paths are chosen by field width and row count.',
  ['src/atop/recarray.cpp', 'src/pnumpy/recarray.py', 'src/pnumpy/conversions.cpp'], [('ConvertRecArray row-to-column kernel', 'src/atop/recarray.cpp')])
p('C01', 'Disabling acceleration or the package restores NumPy exactly',
  'Every settings function reads and writes only its own setting, so after any sequence of enable and disable calls the query functions report the last setting made; with acceleration disabled every hooked operation calls the original NumPy loop, and re-enabling restores acceleration.',
  ['histories', 'configurations'], 'all sequences of settings calls, all hooked ufuncs',
  'Tests toggle each setting once and do not check which loop runs.',
  [PN, 'src/pnumpy/cpu.py'], [('settings structure and accessors', PN)])
p('L01', 'The ledger observes operations without changing them',
  'With the ledger enabled every operation gives the same results as with it disabled, and the ledger stays enabled afterwards; recording never reads outside the call\'s arguments.',
  ['inputs', 'histories', 'configurations'], 'all hooked operations, layouts and ledger toggling sequences',
  'Tests enable the ledger around a few calls.',
  [PN, 'src/pnumpy/ledger.cpp'], [('ledger wrappers of the hooks', PN), ('LedgerRecord', 'src/pnumpy/ledger.cpp')])
p('I01', 'Initialisation installs consistent tables',
  'After initialisation each boolean expansion table holds exactly the bit expansion it is documented to hold, the numeric type tables agree with NumPy type sizes, and every function that was replaced is remembered as the fallback for exactly the operation and type it came from.',
  ['configurations', 'inputs'], 'all table entries, all registered ufuncs and dtypes',
  'Tests exercise a small part of the entries, and a wrong entry shows only for particular values.',
  ['src/atop/atop.cpp', PN, 'src/pnumpy/common.cpp'], [('atop_init table generation', 'src/atop/atop.cpp'), ('newinit registration', PN)])
p('A01', 'Range filling equals NumPy for every start, step and length',
  'Filling an array with an arithmetic progression gives element i equal to start + i * delta in the element type exactly as NumPy computes it, for every length and hooked type, with and without threads; nothing outside the array is written.',
  ['inputs', 'configurations'], 'all first/second values, lengths and dtypes',
  'Tests create a few ranges.',
  ['src/atop/fill.cpp', PN], [('fill kernels and arange hook', 'src/atop/fill.cpp')])
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w').write(''.join(json.dumps(d) + '\n' for d in P))
