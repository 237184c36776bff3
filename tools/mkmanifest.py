#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (kept in step with properties.jsonl)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation with fault injection: seeded search over %s'
N = ('Seeded exploration, not proof: holds on every run explored. Real library code runs under AddressSanitizer behind an allocator seam; '
     'the oracle is an independent reference model. Every violation is re-executed twice and once more in a fresh process before it is reported. ')
C = {
 'C01': ('operation histories over a pool of images and views', N + 'Trusts the pixel-array model; images up to 14x14, histories up to 40 operations.'),
 'C02': ('allocation-failure placements and impossible shapes in operation histories', N + 'Allocation failures are injected at operator new.'),
 'C03': ('histories and allocation failures over arrays and kernels', N + 'Arrays up to 40 elements, kernels up to 12 wide.'),
 'C04': ('histories and allocation failures over packed collections', N + 'Block sizes 1 to 40 and the default.'),
}
V1 = N + 'Images up to 76x70 on shared canaried buffers, at most 14 operators per history; '
C.update({
 'C05': ('labelling histories with allocation failures and reconfiguration', V1 + 'trusts an independent label/contour model; images are 0/1.'),
 'C06': ('block-threshold histories with allocation failures and impossible parameters', V1 + 'decisions that only rounding settles are not compared.'),
 'C07': ('threshold, Otsu and binary-operator histories with allocation failures and impossible parameters', V1 + 'pixels lie inside the declared Otsu range; binary images are 0/1.'),
 'C08': ('blur histories with allocation failures and impossible parameters', V1 + 'floating point results within a rounding bound; radius up to 2^31 and images up to 2.3 million pixels wide sampled.'),
 'C09': ('convolution histories with allocation failures and impossible parameters', V1 + 'arithmetic that fits the result type; normalised windows have non-zero weight.'),
 'C10': ('placements of operands in shared buffers and operator histories, some failing', V1 + 'every element outside the declared outputs is compared bitwise after each operator.'),
 'C11': ('allocation-failure placements and refused calls, each followed by a retry', V1 + 'failures at operator new; the first failing allocations of each operator are swept in turn.'),
})
V2 = N + ('Real threads under a baton: a switch can happen at every memory access of library code the compiler instruments, at block copies, locks and static initialisations; '
          'images up to 24x24 per thread, two or three threads, sequentially consistent memory. ')
C.update({
 'C12': ('thread schedules (preemption at single memory accesses) and allocation failures', V2 + 'Every thread is compared with the same reference models as in C05-C09.'),
 'C13': ('thread schedules (preemption at single memory accesses) over tilings of shared images', V2 + 'Every store into a shared buffer is checked against the region the storing thread was given.'),
})
V3 = N + ('The JVM is simulated: its function table, arrays (pinned, copied, moved), references, pending exceptions and the Java objects the wrapper talks to are a model written from the JNI specification and the Java sources; '
          'the expected results come from the C++ library itself, which C05-C09 check. ')
C.update({
 'C14': ('histories of native calls under varying array hand-out and collector moves', V3),
 'C15': ('failing JVM services, Java callbacks, allocations and arguments in native call histories', V3),
 'C16': ('failing JVM services, Java callbacks, allocations and arguments in native call histories', V3),
 'C17': ('life-cycle histories of native-backed objects with failures', V3),
 'C18': ('labelling histories with failures during delivery', V3 + 'The Java block length is the one the Java class uses.'),
 'C19': ('thread schedules (preemption at memory accesses and JVM calls) with collector moves and failures', V3 + 'Two or three application threads, one of them also the finaliser.'),
})
C['C20'] = ('load histories over a simulated disk with read errors, truncation, corruption, failing opens and allocations',
            N + 'stdio, malloc and operator new are simulated; libjpeg, libpng and zlib are the real static libraries and also decode the expected picture.')
NA = []
checks = []
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
for p in props:
    i = p['id']
    if i in C:
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           evidence_file='evidence/%s.json' % i, technique=T % C[i][0], level='exploration', level_note=C[i][1]))
    elif i not in [n[0] for n in NA]:
        NA.append((i, 'check not built yet'))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA],
               notes='No hooks in /repo: every seam is outside it (operator new, JNI function table, stdio interposition, compiler inserted access callbacks).'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
