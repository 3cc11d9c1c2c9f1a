import json
D={}
def d(i,oracle,why,cost,thorough): D[i]=dict(oracle=oracle,why=why,cost=cost,thorough=thorough)
d("C01","one independent value model (a plain array) per live object; after every step every object is compared with its own model, and the sanitizer's count of allocated bytes must be back to the start at the end of a history; AddressSanitizer decides double frees and use after free","sharing faults need a particular order of copies, writes and destructions through particular access paths (iterators, slices, compound operators, functions taking arguments by value); the generator draws histories, not scenarios, with up to 65000 live copies","~15 s","~4 min")
d("C02","column-major formula on a tagged array; AddressSanitizer and an abort-or-exception requirement for refusals; a 35 GB address range reserved without memory decides positions beyond 2^31","every rank has its own accessor code; the tests never pass bad indices","~8 s","~2 min")
d("C03","index lists per dimension expanded by a naive model, multi-index loops","products of five kinds of range over six ranks; boundary and far-out indices (2^31 ... 2^63) must be refused without touching memory","~8 s","~2 min")
d("C04","as C03, writing; a snapshot of every other object and of the elements outside the selection","aliasing sources (the target itself, copies sharing storage)","~10 s","~3 min")
d("C05","the scalar operator of the same types at every position, bit for bit (NaNs alike)","special values, mixed types, operands sharing storage, scalars that are references into the tensor","~10 s","~3 min")
d("C06","the scalar function at every position","each function/type pair is its own file; special values","~5 s","~1 min")
d("C07","the scalar comparison at every position; exhaustive reading of quantifiers","operand order, ties, NaN, lists of unequal sizes","~5 s","~1 min")
d("C08","std::sort/stable comparison of multisets and a permutation test","ties, infinities, integers beyond 2^53, long vectors","~5 s","~1 min")
d("C09","multi-index model, bitwise; the applied-twice relation","unequal sizes, empty sizes, negative index numbers, tens of thousands of elements","~8 s","~2 min")
d("C10","explicit sum over the contracted index, exact for integers, forward error bound otherwise","kernels per position of the index; outputs that alias operands; BLAS flags for conjugation","~10 s","~3 min")
d("C11","explicit multi-index definitions, exact integers","rank/index/shift combinations that tests reduce to the last index","~8 s","~2 min")
d("C12","element formula; mixed-product rule; dense against sparse; coordinate maps for wide factors","unequal and empty factors, number of non-zeros different from the size, products of more than 2^31 columns","~20 s","~4 min")
d("C13","long double evaluation of the definition, rounding-error bound; magnitudes from 1e-300 to 1e300 where the definition allows","dominating elements at the ends, all-negative data, extreme magnitudes","~6 s","~1 min")
d("C14","integer arithmetic; grid points from the definition in long double","inexact divisions, reversed ends, tensor end points","~5 s","~1 min")
d("C15","dense model plus a direct reading of the compressed form (offsets, order, no stored zeros); coordinate maps for matrices of 2^44 columns","internal form after every operation; empty rows, repeated coordinates, explicit zeros","~35 s","~6 min")
d("C16","dense model plus the compressed form; coordinate maps for wide matrices","cancelling/disjoint/nested patterns, mixed types, tensors of rank up to five","~15 s","~3 min")
d("C17","backward error of A*X-B; pseudoinverse known from the construction U*diag(s)*V^H","pivoting, tolerance against the singular values at every scale, rank-deficient and rectangular systems, right-hand sides of rank up to four","~5 s","~1 min")
d("C18","reconstruction, orthonormality, order, known singular values; block variant against the plain one","degenerate patterns (empty rows and columns, bridged blocks), economic forms of tall and wide matrices","~8 s","~2 min")
d("C19","residual of the eigenvalue equations, norms, known spectrum or trace identities","conjugate pairs in any position, left and right vectors separately requested","~8 s","~2 min")
d("C20","known dominant pair, residual against the tolerance","three forms of the matrix, scale of the matrix, starting vectors","~8 s","~2 min")
d("C21","known spectrum matched one to one with the criterion's selection, residuals","criterion/number/type combinations including n <= 4 (dense path)","~10 s","~3 min")
d("C22","power series with scaling and squaring in long double, running error bound","norms from 1e-9 to 1e5, nilpotent, badly scaled","~5 s","~1 min")
d("C23","true residual against the tolerance","zero right-hand sides, exact starting vectors, function form on rank-3 data","~5 s","~1 min")
d("C24","Fourier sum in long double; index formula for shifts","every subset of dimensions, odd sizes, shared data","~8 s","~2 min")
d("C25","independent encoder and parser of the documented format (lib/sdfx.h); bytes and round trip; python/sdf.py as third reader","arbitrary bit patterns, names, session splits, foreign byte orders","~20 s","~4 min")
d("C26","every crash and fault point of a generated session is enumerated: seccomp traps the child's file system calls, a SIGSYS handler ends the process or fails the call there; the directory is then compared with old/new contents or the reported outcome","no test injects a fault","~20 s","~5 min")
d("C27","strict independent parser of the damaged bytes says which records may come out; everything else must be refused; AddressSanitizer, memory and time limits","any byte position and field value","~20 s","~5 min")
d("C28","history of lock holding and of the file contents under a scheduler that owns every system call of 2-4 processes","schedules and deaths at every call","~25 s","~6 min")
d("C29","mixed-radix counting of the described scan; independent parser of descriptions","numbers written in many ways, separators, huge scans","~10 s","~3 min")
d("C30","set of jobs run by all blocks; bounds per selection","uneven divisions, more blocks than jobs, 2^62 jobs","~15 s","~4 min")
d("C31","second implementation of MT19937-64 and of its inverse (states chosen so that chosen words come out)","bound edges need words that occur once in 2^64 draws","~15 s","~4 min")
d("C32","numbers extracted from the text, compared in order with each element printed alone, and parsed back","stream settings, special values, empty and high-rank objects","~10 s","~3 min")
d("C33","explicit sums over the contracted index, exact integers; for closures a function that records its arguments","originals changed after wrapping, ranks above two, all numbers of bound arguments","~8 s","~2 min")
d("C34","twin directories: the helpers work in one, plain system calls do what was asked in the other, both trees and answers must agree after each step","links, special files, missing and nested names, long histories","~30 s","~6 min")
d("C35","a map from keys to bit patterns per registry","several registries, keys that do not exist, special values","~10 s","~2 min")
d("C36","a clock that belongs to the check (clock_gettime, gettimeofday, time and clock are replaced while the library's functions run), and two readings of the real clock around each call; the exit status and the text left by child processes","intervals from microseconds to years, histories, aborts of ten kinds at any depth","~5 s","~20 s")
json.dump(D,open(__file__.replace('.py','.json'),'w'),indent=1)
