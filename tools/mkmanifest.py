#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os
T = {
 'C01': ('exact integer / error-bound oracle over generated executions of all kernels',
         'Every element is compared with an exact oracle (or a proven error bound) on the executions produced; says nothing about inputs not produced. Trusts the oracle (integers modulo 2^64, double-double).'),
 'C02': ('exact oracle over generated executions with arbitrary strides, alignments and shared inputs',
         'As C01 with layouts as the varied dimension; huge strides use sparse 128 GiB reservations.'),
 'C03': ('Miri, memcheck shadow state and garbage-filled C over generated beta=0 executions',
         'Reads of old C are seen as uses of undefined data (Miri: any; memcheck: when decisive or stored) or as NaN in results.'),
 'C04': ('page protection, dangling pointers, memcheck and Miri over generated empty-dimension calls',
         'Forbidden operands are PROT_NONE or null/dangling, so any access faults.'),
 'C05': ('write monitors: page protection, canaries, memcheck, ThreadSanitizer with a concurrent owner of the gaps',
         'Transient writes are seen by memcheck (gaps unaddressable) and by ThreadSanitizer (another thread owns the gaps during the call).'),
 'C06': ('read monitors: guard pages, memcheck no-access gaps, Miri, ThreadSanitizer owner thread',
         'Byte-exact under memcheck and Miri; page-exact at matrix ends natively.'),
 'C07': ('Miri, AddressSanitizer (build-std), ThreadSanitizer, memcheck, hostile allocator, debug assertions',
         'Undefined behaviour is decided by the sanitizers on the executions produced; Miri covers SSE2/AVX/AVX2+FMA/portable/NEON kernels on small shapes.'),
 'C08': ('differential monitor: result hashes of identical calls across 14 build configurations',
         'Bit-for-bit agreement on exact data, error bound on rounding data.'),
 'C09': ('differential monitor: result hashes across thread counts, delays and the non-threading build',
         'Bit-for-bit; schedules are produced by stress and injected delays, not enumerated.'),
 'C10': ('ThreadSanitizer, Miri data-race detection and per-call oracles under concurrent stress with injected delays',
         'Deadlock is decided by all threads sleeping without CPU use; races by happens-before analysis on the schedules produced.'),
 'C11': ('per-thread CPU accounting of the process during calls, one process per setting',
         'Counts the threads which really worked; relies on /proc schedstat.'),
 'C12': ('allocation books and process state before/after (fds, threads, mappings, FP control, signals, stdout)',
         'Counting global allocator plus /proc; tens of thousands of repeated calls per configuration.'),
 'C13': ('fault injection: every allocation of a call fails in turn, outcome observed from outside the process',
         'Each request of each generated call is failed once alone and once with all later ones; C is in shared memory.'),
 'C14': ('IEEE class oracle over generated executions with injected NaN/infinity',
         'Every element is checked: dependent ones by IEEE class, the others bit-exactly.'),
 'C15': ('oracles and monitors over builds with many block-size settings; build acceptance',
         'A fixed list of settings (regular, odd, huge, minimal, invalid, malformed) is built; generated calls per build.'),
 'C16': ('differential monitor: result hashes under different histories, threads, placements and allocators',
         'Bit-for-bit over the same call list in several orders and situations.'),
 'C17': ('single-step instruction monitor with emulated CPUID/XGETBV',
         'Every instruction executed in the call is decoded and its instruction set compared with the emulated CPU.'),
 'C18': ('Miri execution of AArch64 (NEON), i686 and s390x builds with the same oracles',
         'Interpreted, so small shapes (small blocks via constconf for the block loops).'),
 'C19': ('exact oracle over generated executions with special scalars and several blocks',
         'As C01 with the scalars as the varied dimension.'),
}
checks = []
for k, (t, n) in T.items():
    checks.append({'property': k, 'quick_cmd': 'python3 check.py ' + k, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + k, 'evidence_file': 'evidence/%s.json' % k,
                   'technique': 'runtime monitoring: ' + t, 'level': 'fault_enumeration' if k == 'C13' else 'exploration', 'level_note': n})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo: everything is observed at the public functions, the allocator, the memory around the arguments, the instruction stream and the process. Three fix: commits, see known_findings.txt and DESIGN.md.'}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
