TRUSTED = [
    'clang 18 -O0 front end and opt sroa/simplifycfg/loop-simplify (C to LLVM IR)',
    'lvc (this verifier): IR parser and verification-condition generator in /verif/lvc',
    'z3 5.3.2 and cvc5 1.1.2',
    'x86-64 (and i386 where stated) data layout of clang',
]
ASSUME = [
    'heap, stack and global objects live below 2^47-2^41 and are pairwise disjoint while live (user-space addresses)',
    'no object is larger than 2^46 bytes; allocation sizes above that fail',
    'signed overflow wraps unless a task lists overflow obligations; out-of-range float-to-int and shift results are arbitrary',
    'the proof covers the amalgamated configuration flags of the Makefile (MJS_EXPOSE_PRIVATE, CS_ENABLE_STDIO, CS_MMAP, MJS_MODULE_LINES, MJS_MEMORY_STATS, MJS_ENABLE_DEBUG)',
    'termination is not proved',
]
