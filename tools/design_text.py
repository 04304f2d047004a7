HEAD = r"""# Design

(Generated by tools/gen_design.py from the registry, properties.jsonl, known_findings.txt and tools/design_*.py.)

## Technique

Every claimed property is decided by **symbolic execution of the real code with an SMT solver**. On each run the current
sources under /repo are compiled by clang to LLVM IR, linked with a property harness (`harness/*.c`) and a C model of the
C library (`rt/vplibc.c`), and executed by `vpsym` (`engine/`), a symbolic executor written for this task:

- **Values** are 1..64-bit concrete words or hash-consed bit-vector / floating-point expressions. **Memory** is
  byte-addressed and object-based (every global, stack slot and heap block is its own object, copy-on-write between paths).
- **Branching.** At a branch, switch, symbolic address, size or indirect call whose value depends on symbolic data, the
  solver is asked which sides are feasible; the path forks and each side carries its path condition. Loops are unrolled until
  the path ends; a path exceeding its instruction budget is an error ("never returns"), not silently dropped.
- **Obligations.** Each `vp_assert`, each memory access (null, freed, out of object bounds, out of the bounds of an array
  inside a struct, writing constants), each division, shift, free/realloc, `longjmp`, `assert`, `abort`, `exit` is an obligation
  which the solver must discharge (unsat) for all values satisfying the path condition, or refute with a model.
- **Solver.** z3 4.8.12 (C API; QF_BV incremental, QF_FPBV for doubles), independence slicing, query cache, models reused as
  witnesses. Every model is re-evaluated by the engine's own evaluator (guards the translation). A sample of queries is
  dumped as SMT-LIB and re-decided by a second solver (`z3-new`); disagreement fails the check.
- **Replay.** A refutation is a set of concrete input values. The same harness, linked natively (gcc, ASan+UBSan) against the
  same sources, is run on them; only a violation that reproduces there is reported, with the inputs in the replay file
  (`check.py --replay FILE`). An unconfirmed refutation is a machinery error (exit 2 with the detail), never a VIOLATION.
- **Validation of the encoding.** Sampled completed paths are solved for inputs, replayed natively and their observations
  compared with the engine's.
- **Vacuity.** Every job lists labels that must have been reached or asserted; a job missing one fails (exit 2).
- **Completeness inside the bounds.** A job is reported complete only if no path was cut; cut paths (budget, enumeration cap,
  solver unknown) are counted in the evidence.

Case splits over *programs* (which operator, which construct, where to cut) are made by the harness with `vp_choose` /
`vp_shard`; values, bytes, indices, keys, branch outcomes are symbolic and never sampled. Sizes passed to `malloc`, `snprintf`
and text digits passed to `strtod` are concretised by solver enumeration (all feasible values, capped by `--enum-cap`; hitting
the cap is reported). Preemption, collection and call-back points are case splits over VM cycles.

Harnesses use the public API (`tiny.h`, `tiny_*.h`) wherever it can observe the behaviour, so that refactorings of the code
leave them alone. Exceptions: C07 (lexer.h), C14 (array.h), C15 (dict.h), C17 (arena.h), C18 (pos.h), C27 (util.h), C28/C29 (the examples' own units).

## Trust base and limits

clang 18's IR of the sources at -O0 with light simplification (mem2reg, SROA, CSE); the engine; the libc model (file system in memory, C locale; no
allocation failure); x86-64 data layout. `strtod`/`%f`/`%g` formatting are evaluated on concretised values by the host's libc.
Allocation failure, signals, real parallelism (threads of the OS) and exhaustion of the native C stack by deep recursion of the parser are outside.

Files: `check.py` (entry), `tools/vp.py` (build, shard, replay, evidence), `tools/checks.py` (registry: jobs, bounds),
`tools/gen_props.py`, `tools/gen_manifest.py`, `tools/gen_design.py` (regenerate the committed texts), `rt/vp.h` (harness API),
`rt/vp_native.c` (native side), `harness/tl*.h` (shared helpers and the program corpus). No hooks were needed in /repo.
"""
TAIL = r"""
## False alarms met and corrected

- C07: the line of a token after a multi-line literal was first modelled as the code had it (wrong); the property now states the
  true line and the code was repaired (911eb8e), after which the oracle was updated.
- C26: the first oracle took the line of a statement's last token; the property text says first token.
- C14: resize beyond the length was first assumed to zero-fill by `Tiny_ArrayResize`'s own contract; it fills with the given value.
- C22: stridx's sign (signed char) is accepted modulo 256.
- C19: reading at pc == program count is unobservable and not asserted.
- C28/C29: repairs made first were reverted, because examples/ counts as test files; the defects are listed as findings.

## What is not decided

Behaviour that is not promised anywhere and whose present form is arbitrary is left open on purpose: duplicate function names,
T? assigned to the same T?, void passed to `...`, JSON escaping, the last token named in an end-of-file error, precision of ntos.
"""
