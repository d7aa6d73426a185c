#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
 'C01': ('property-based testing (rapid): differential against crypto/sha1 on generated and near-miss messages', 'Digest and report of every implementation compared with crypto/sha1 on generated and enumerated messages, among them forged blocks that meet bit conditions without being attacks. Trusts crypto/sha1.'),
 'C02': ('model-based property testing (rapid) with published and forged attack blocks', 'Reports along generated histories compared with an independent reference model. Attack blocks: the published collisions, and blocks forged for each of the 32 vectors by substituting message differences in the live vector table.'),
 'C03': ('model-based property testing (rapid) with published and forged attack blocks', 'Digests along generated histories compared with an independent reference model; published pairs with common suffixes compared with each other.'),
 'C04': ('model-based property testing (rapid) with forged attack blocks and near misses per vector', 'For every vector, forged attack blocks, blocks one bit short of one, and several vectors at once, at generated chaining values; oracle: an independent recompression model.'),
 'C05': ('property-based testing (rapid) against pinned bit conditions, with condition-directed word generation', 'Masks of generated expanded blocks, most of them made to meet or just miss the conditions of chosen vectors, compared with the published conditions evaluated one by one; Go and C.'),
 'C06': ('exhaustive generated-case check against derivation from the definition', 'The whole table (Go and C) compared with the vectors derived from type, position and bit. Finite, complete.'),
 'C07': ('metamorphic property testing (rapid): split writes against a single write', 'Generated and enumerated splits of generated messages, including attack blocks and large offsets, on every implementation.'),
 'C08': ('stateful property testing (rapid): histories with sums against the same without', 'Programs with sums inserted at generated points into destination slices of generated shapes, compared with the program without them and with one-call functions.'),
 'C09': ('stateful property testing (rapid): reset hash against a new one', 'Generated histories, Reset, then a generated program, compared with a new hash.'),
 'C10': ('differential property testing (rapid): accelerated against portable code', 'Generated chaining values, blocks, alignments, numbers of blocks and switches between the two, on amd64 (native, emulated) and arm64 (emulated); the assembly is also called with other contents in the registers it may not read.'),
 'C11': ('differential stateful property testing (rapid): C against Go', 'Generated programs with published and forged attack blocks and injected states, item by item.'),
 'C12': ('differential property testing (rapid): recorded cases repeated in other builds', 'Cases generated and recorded in one build, replayed in builds without assembly, without cgo, for arm64, arm, 386 and s390x (emulated), and compared; that they build, and that a program using the cgo package builds without cgo, is part of it.'),
 'C13': ('stateful property testing (rapid): serialize, restore, continue', 'Round trip at generated points of generated histories into hashes with other histories and implementations, continued by generated programs.'),
 'C14': ('property-based testing (rapid) with mutated serialized states', 'Mutated, cut, extended and random states offered in generated histories; twin comparison after a rejection.'),
 'C15': ('property-based testing (rapid): injected byte counts near every power of two, and real huge messages', 'States with byte counts near 2^3..2^60, compared with crypto/sha1 restored to the same state; real messages of up to 4 GiB (thorough: 8 GiB).'),
 'C16': ('property-based testing (rapid) of interleaved and parallel programs, with the race detector', 'Generated programs on several hashes, alone, interleaved by a generated schedule, and in parallel; also under the Go race detector and, for the C code, ThreadSanitizer (neither sees into assembly).'),
 'C17': ('property-based testing (rapid) on guarded memory, with AddressSanitizer', 'Generated programs on write-protected input next to inaccessible pages; assembly run on guarded working memory; C code also under AddressSanitizer.'),
 'C20': ('property-based testing (rapid) of standard-library constructions against their definitions', 'HMAC, HKDF, PBKDF2, package io and optional interfaces, on generated keys, messages and programs, compared with the definition over the reference model.'),
 'C21': ('stateful property testing (rapid): repeated programs with memory measured', 'Generated programs repeated some hundred times; live Go heap (after collection), C heap (mallinfo2) and goroutines must not grow in seven successive batches. Retention less often than once per repetition is not noticed.'),
 'C18': ('property-based testing (rapid) under emulated CPU models', 'Generated messages hashed under qemu models with and without each needed instruction set; an illegal instruction or wrong result is a violation. Trusts qemu to refuse what a model lacks.'),
}
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
 'hooks': {'guard': 'build tags verifc and verifb, on files added by go build -overlay (harness/overlay); nothing is added to /repo',
           'enable': 'check.py builds with -overlay and -tags verifc,verifb and falls back to a build without a hook that does not fit the tree', 'source_commits': []},
 'checks': [{'property': k, 'quick_cmd': f'python3 check.py {k}', 'thorough_cmd': f'python3 check.py {k} --thorough',
             'technique': t, 'level': 'exploration', 'level_note': n} for k, (t, n) in sorted(T.items())],
 'not_applicable': [{'property': 'C19', 'reason': 'Computational infeasibility of collisions cannot be decided by generating inputs: no oracle can tell that no feasible attack exists. The implementable part (detection exactly as specified for the 32 vectors) is C02 to C06.'}],
 'notes': 'known_findings.txt lists the defects found and repaired. See DESIGN.md.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
