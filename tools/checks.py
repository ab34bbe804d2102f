"""The table of checks. Per property: harness files, stages (build variant, number of executions) per tier, the events
the monitors must have seen for an answer, and the text that goes into the evidence."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))

def st(build, cases, stage=None, **k): return dict(stage=stage or build, build=build, cases=cases, **k)

def gen_c03(R):
    # the set of generated expression trees is fixed for the quick tier (seed 1), larger for the thorough one
    n, parts, seed = (48, 8, 1) if R.tier == "quick" else (160, 16, 1 + R.seed % 1000)
    t = subprocess.run([sys.executable, os.path.join(HERE, "gen_c03.py"), str(seed), str(n), str(parts)], capture_output=True, text=True, check=True).stdout
    return {"c03_gen.cpp": t}

ALL = ["c01.cpp", "c02.cpp", "c03.cpp", "c04.cpp", "c05.cpp", "c06.cpp", "c07.cpp", "c08.cpp", "c09.cpp", "c10.cpp", "c11.cpp", "c12.cpp", "c13.cpp", "c14.cpp", "c15.cpp", "c16.cpp", "c17.cpp", "c18.cpp", "c19.cpp", "c20.cpp", "c21.cpp", "c22.cpp", "c23.cpp", "c25.cpp", "c26.cpp"]
SMALL = ["c02.cpp", "c07.cpp", "c08.cpp", "c09.cpp", "c10.cpp", "c11.cpp", "c12.cpp", "c13.cpp", "c16.cpp", "c19.cpp", "c20.cpp", "c21.cpp", "c22.cpp", "c23.cpp", "c25.cpp", "c26.cpp"]
RULE = "Each execution is generated from (VERIF_SEED, case index) by a scenario of the harness; "
ASM = ["only executed code is judged: the statement is that the property held on the executions counted here", "the reference implementations in /verif/harness (naive loops over plain arrays) define the expected values"]

CHECKS = {
 "C01": dict(files=["c01.cpp"], level="exploration", min_cases=2000, min_distinct=200, need={"shapes examined": 500, "iteration steps": 10000, "history steps": 500},
    rule=RULE + "distinct = element type, shape and kind of access differ; shapes include zero extents, rows, columns, multi-channel.",
    quick=[st("gcc-asan", 24000), st("gcc-O2", 3, stage="gcc-O2-giant", files=["c01big.cpp"])], thorough=[st("gcc-asan", 1200000), st("clang-asan", 400000), st("gcc-O2", 6, stage="gcc-O2-giant", files=["c01big.cpp"])]),
 "C02": dict(files=["c02.cpp"], level="exploration", min_cases=2000, min_distinct=200, need={"view elements read": 5000, "writes through views": 1000, "view requests refused": 200},
    rule=RULE + "distinct = matrix shape, view offset/extent and operation differ.",
    quick=[st("gcc-asan", 24000)], thorough=[st("gcc-asan", 1600000), st("clang-asan", 400000)]),
 "C03": dict(files=["c03.cpp"], gen=gen_c03, level="exploration", min_cases=2000, min_distinct=200, need={"checks": 5000, "scalar updates": 100},
    rule=RULE + "expression trees (operators, element types, named or temporary operands, views) are generated as C++ and compiled; distinct = tree and shape differ.",
    quick=[st("gcc-asan", 16000)], thorough=[st("gcc-asan", 400000), st("clang-asan", 400000)]),
 "C04": dict(files=["c04.cpp"], level="exploration", min_cases=2000, min_distinct=200, need={"result elements compared": 5000, "dot products": 100},
    rule=RULE + "distinct = operation, element types, operand form and shapes differ; built with gcc and clang, which evaluate arguments in opposite order.",
    quick=[st("gcc-asan", 12000), st("clang-asan", 12000)], thorough=[st("gcc-asan", 600000), st("clang-asan", 600000), st("gcc-asan-O0", 60000)]),
 "C05": dict(files=["c05.cpp"], level="exploration", min_cases=2000, min_distinct=200, need={"fine tolerances": 50, "summaries": 1000, "equality questions": 500, "extreme positions": 500},
    rule=RULE + "distinct = element type, shape, operand form and value pattern (ties, negatives, extremes) differ.",
    quick=[st("gcc-asan", 24000)], thorough=[st("gcc-asan", 1200000), st("clang-asan", 400000)]),
 "C06": dict(files=["c06.cpp"], level="exploration", min_cases=2000, min_distinct=200, need={"self-referential assignments": 1000, "updates by an own element": 500, "updates by own values": 200},
    rule=RULE + "distinct = expression form, element type and shape differ.",
    quick=[st("gcc-asan", 24000)], thorough=[st("gcc-asan", 1200000), st("clang-asan", 400000)]),
 "C07": dict(files=["c07.cpp"], level="exploration", min_cases=2000, min_distinct=200, need={"refusals": 2000, "accepted": 200},
    rule=RULE + "distinct = operation and pair of shapes differ; refused requests are interleaved with accepted ones, and operands compared before and after.",
    quick=[st("gcc-asan", 24000)], thorough=[st("gcc-asan", 1200000), st("clang-asan", 400000)]),
 "C09": dict(files=["c09.cpp"], level="exploration", min_cases=1000, min_distinct=200, need={"layer passes compared": 1000, "adjoint identities": 200},
    rule=RULE + "distinct = filter, channel, stride and input shape differ.",
    quick=[st("gcc-asan", 8000)], thorough=[st("gcc-asan", 400000), st("clang-asan", 100000)]),
 "C10": dict(files=["c10.cpp"], level="exploration", min_cases=1000, min_distinct=200, need={"forward passes": 1000, "backward passes": 1000, "tied windows": 20},
    rule=RULE + "distinct = window, stride, type and input shape, or interleaving of batch entries, differ.",
    quick=[st("gcc-asan", 24000), st("gcc-O2", 2, stage="gcc-O2-long", files=["c10big.cpp"])], thorough=[st("gcc-asan", 600000), st("clang-asan", 200000), st("gcc-O2", 24, stage="gcc-O2-long", files=["c10big.cpp"])]),
 "C11": dict(files=["c11.cpp"], level="exploration", min_cases=1000, min_distinct=100, need={"layer passes compared": 1000},
    rule=RULE + "distinct = output count, input shape and history differ.",
    quick=[st("gcc-asan", 12000)], thorough=[st("gcc-asan", 600000), st("clang-asan", 200000)]),
 "C12": dict(files=["c12.cpp"], level="exploration", min_cases=1000, min_distinct=100, need={"activation elements compared": 10000, "slopes": 500},
    rule=RULE + "distinct = activation, shape and value range differ.",
    quick=[st("gcc-asan", 16000)], thorough=[st("gcc-asan", 1000000), st("clang-asan", 200000)]),
 "C13": dict(files=["c13.cpp"], level="exploration", min_cases=1000, min_distinct=100, need={"distributions": 1000, "gradients": 500, "refusals": 50},
    rule=RULE + "distinct = length, value range and batch history differ.",
    quick=[st("gcc-asan", 24000)], thorough=[st("gcc-asan", 1200000), st("clang-asan", 200000)]),
 "C14": dict(files=["c14.cpp"], level="exploration", min_cases=1000, min_distinct=200, need={"inferences": 1000, "repetitions compared": 500, "losses": 200},
    rule=RULE + "random layer stacks; distinct = stack and input shape differ.",
    quick=[st("gcc-asan", 8000)], thorough=[st("gcc-asan", 400000), st("clang-asan", 100000)]),
 "C15": dict(files=["c15.cpp"], level="exploration", min_cases=1000, min_distinct=200, need={"parameters compared": 10000, "steps": 500, "oracle gradients confirmed by finite differences": 20},
    rule=RULE + "random layer stacks, one labelled sample each; distinct = stack and input shape differ. Samples at kinks and ties, where no derivative exists, are counted and skipped.",
    quick=[st("gcc-asan", 8000)], thorough=[st("gcc-asan", 400000), st("clang-asan", 100000)]),
 "C16": dict(files=["c16.cpp"], level="exploration", min_cases=1000, min_distinct=200, need={"updates": 500, "gradients recorded": 1000},
    rule=RULE + "distinct = layer, batch size, filled entries and order differ.",
    quick=[st("gcc-asan", 8000)], thorough=[st("gcc-asan", 400000), st("clang-asan", 100000)]),
 "C17": dict(files=["c17.cpp"], level="exploration", min_cases=200, min_distinct=100, need={"multi-threaded trainings": 50, "final parameters compared": 50, "events": 5000, "samples of huge trainings": 1 << 24},
    rule=RULE + "each is a whole training with a logging data source and probe layers, delays injected at their calls; the event log is checked off line. distinct = stack, sample count, batch size, thread count, epochs differ.",
    quick=[st("gcc-asan", 2400), st("gcc-tsan", 400), st("gcc-O2", 2, stage="gcc-O2-huge", files=["c17big.cpp"])], thorough=[st("gcc-asan", 80000), st("gcc-tsan", 10000), st("gcc-O2", 80000), st("gcc-O2", 24, stage="gcc-O2-huge", files=["c17big.cpp"])]),
 "C18": dict(files=["c18.cpp"], level="exploration", min_cases=200, min_distinct=100, need={"trainings": 50, "concurrent inferences": 200, "shared layer passes": 100},
    rule=RULE + "each runs threads against one model or layer under ThreadSanitizer (and again under AddressSanitizer); distinct = stack, thread count and history differ.",
    quick=[st("gcc-tsan", 3200), st("gcc-asan", 3200)], thorough=[st("gcc-tsan", 160000), st("gcc-asan", 60000)]),
 "C25": dict(files=["c25.cpp"], level="fault_enumeration", min_cases=200, min_distinct=100, need={"trainings refused": 20, "errors raised": 100, "parameters compared": 100, "trainings after an error": 50},
    rule=RULE + "each injects one fault (unknown label, wrong shape, throwing source, ...) at a chosen sample of a training; distinct = fault, position, batch size, thread count differ.",
    quick=[st("gcc-asan", 2400), st("gcc-tsan", 400)], thorough=[st("gcc-asan", 80000), st("gcc-tsan", 20000)]),
 "C26": dict(files=["c26.cpp"], level="exploration", min_cases=1000, min_distinct=200, need={"passes": 5000, "updates": 1000, "layers copied": 300, "layers moved": 100, "layers assigned": 500, "layers compared": 5000, "models compared": 500},
    rule=RULE + "each runs a random history over several layers or models that live side by side; distinct = layers, shapes and number of changes differ.",
    quick=[st("gcc-asan", 8000), st("gcc-tsan", 600)], thorough=[st("gcc-asan", 300000), st("clang-asan", 80000), st("gcc-tsan", 20000)]),
 "C08": dict(files=ALL, level="exploration", min_cases=2000, min_distinct=500, need={"operations": 2000, "operations refused": 500, "outlived expressions read": 500},
    rule=RULE + "all scenarios of all properties run, with only the sanitizers, memcheck and the leak detector judging; plus scenarios of their own for object lifetimes, mixed histories and fresh storage. distinct as in the other properties.",
    quick=[st("gcc-asan", 8000, stage="gcc-asan-leak"), st("gcc-asan", 24000, stage="gcc-asan-all-leak", args=["--san-only"]), st("gcc-asan-O0", 4000, stage="gcc-asan-O0", files=SMALL), st("gcc-plain", 320, stage="valgrind-own", files=SMALL), st("gcc-plain", 800, stage="valgrind-all", args=["--san-only"], files=SMALL)],
    thorough=[st("gcc-asan", 300000, stage="gcc-asan-leak"), st("gcc-asan", 600000, stage="gcc-asan-all-leak", args=["--san-only"]), st("clang-asan", 300000, stage="clang-asan"), st("gcc-asan-O0", 40000, stage="gcc-asan-O0"), st("gcc-asan-O0", 80000, stage="gcc-asan-O0-all", args=["--san-only"]), st("clang-asan", 600000, stage="clang-asan-all", args=["--san-only"]), st("gcc-plain", 12000, stage="valgrind-own"), st("gcc-plain", 24000, stage="valgrind-all", args=["--san-only"])]),
 "C19": dict(files=["c19.cpp"], level="exploration", min_cases=2000, min_distinct=200, need={"matrices restored": 1000, "numbers restored": 5000, "layers restored": 500, "restored layer passes": 500, "formatted streams": 100},
    rule=RULE + "distinct = element type, shape and value class, or layer configuration, differ.",
    quick=[st("gcc-asan", 24000)], thorough=[st("gcc-asan", 800000), st("clang-asan", 200000)]),
 "C20": dict(files=["c20.cpp"], level="exploration", min_cases=500, min_distinct=200, need={"label types restored": 20, "models restored": 300, "predictions compared": 500, "further trainings compared": 100},
    rule=RULE + "random layer stacks with random labels; distinct = stack, input shape and label count differ.",
    quick=[st("gcc-asan", 8000)], thorough=[st("gcc-asan", 160000), st("clang-asan", 40000)]),
 "C21": dict(files=["c21.cpp"], level="fault_enumeration", min_cases=500, min_distinct=200, need={"cut files": 10000, "damaged names": 300, "damaged numbers": 2000, "inconsistent sizes": 1000, "failed saves": 500, "cut layers": 2000, "cut matrices": 2000, "randomly damaged files": 300},
    rule=RULE + "each takes the file of a random model and enumerates faults on it: every cut (a window of 800 in large files), each section name, number and size damaged, each write that does not fit; distinct = model differs.",
    quick=[st("gcc-asan", 3200)], thorough=[st("gcc-asan", 80000), st("clang-asan", 20000)]),
 "C22": dict(files=["c22.cpp"], level="exploration", min_cases=1000, min_distinct=200, need={"images compared": 5000, "reads refused": 2000},
    rule=RULE + "each writes a data set and reads it in a random history; distinct = size and history, or cut, differ.",
    quick=[st("gcc-asan", 16000)], thorough=[st("gcc-asan", 600000), st("clang-asan", 100000)]),
 "C23": dict(files=["c23.cpp"], level="exploration", min_cases=1000, min_distinct=200, need={"matrices printed": 1000, "elements read back": 5000, "images printed": 1000, "cells": 5000, "progress bars read": 1000},
    rule=RULE + "distinct = element type, operand form, shape and value class differ.",
    quick=[st("gcc-asan", 24000)], thorough=[st("gcc-asan", 1200000), st("clang-asan", 200000)]),
 "C24": dict(module="c24", level="exploration", min_cases=8, min_distinct=8, need={"validation accuracies compared": 8, "trainings compared with the reference": 4, "models compared across thread counts": 4, "epoch accuracies compared": 4},
    rule="Each execution runs the real program (built from /repo with its data directory redirected and the C library's random numbers replaced by a fixed sequence) on a generated data set; distinct = data set, threads and build differ.",
    quick=dict(builds=["gcc-asan", "gcc-tsan", "gcc-O2"], cases=90, max_train=150), thorough=dict(builds=["gcc-asan", "gcc-tsan", "clang-asan", "gcc-O2"], cases=600, max_train=400)),
}
for c in CHECKS.values(): c.setdefault("assumptions", ASM)
_san = "runs under AddressSanitizer/UBSan and a checked standard library"
def _t(what): return "runtime monitoring: " + what
_note = "Held on the generated executions counted in the evidence (seeded, bounded by count); nothing is claimed about executions not run. Trusts the reference code in /verif/harness, the compilers and the sanitizer runtimes."
TECH = {
 "C01": (_t("every access path watched against a plain-array shadow on random shapes and histories, under ASan+UBSan"), _note),
 "C02": (_t("view reads/writes compared with a shadow array of the whole matrix, under ASan+UBSan"), _note),
 "C03": (_t("compiled random expression trees against per-element evaluation with operand watch, under ASan+UBSan"), _note),
 "C04": (_t("results against naive definitions for all operand forms, gcc and clang builds under ASan+UBSan"), _note),
 "C05": (_t("reductions against element-wise oracle on adversarial values, under ASan+UBSan"), _note),
 "C06": (_t("aliased assignments against values snapshotted before the update, under ASan+UBSan"), _note),
 "C07": (_t("ill-shaped requests with exception-type and state-before/after monitors, under ASan+UBSan"), _note),
 "C08": (_t("all workloads under ASan, UBSan, LeakSanitizer and valgrind memcheck"), _note),
 "C09": (_t("layer passes against naive convolution, its derivatives and adjoint identities, under ASan+UBSan"), _note),
 "C10": (_t("pooling passes against window oracle with conservation monitor over interleaved batch entries, under ASan+UBSan"), _note),
 "C11": (_t("affine-map oracle plus parameter-change monitor over call histories, under ASan+UBSan"), _note),
 "C12": (_t("function and derivative oracle over the whole finite range, under ASan+UBSan"), _note),
 "C13": (_t("distribution invariants and gradient oracle on extreme inputs, under ASan+UBSan"), _note),
 "C14": (_t("recorded inference traces checked against layer composition and parameter snapshots, under ASan+UBSan"), _note),
 "C15": (_t("parameter movement against an independent network gradient, itself self-checked by finite differences"), _note),
 "C16": (_t("parameter movement against the mean of recorded gradients over batch histories"), _note),
 "C17": (_t("event log of trainings (source and probe layers, injected delays) checked off line; parameters against sequential reference; ASan and TSan builds"), _note),
 "C18": (_t("ThreadSanitizer on concurrent training/inference workloads, results compared with solo runs"), _note),
 "C19": (_t("write/read/write-again traces compared element by element, stream position watched, under ASan+UBSan"), _note),
 "C20": (_t("save/load/save of random models: files, predictions and further training compared, under ASan+UBSan"), _note),
 "C21": (_t("fault enumeration on model files: every truncation point, damaged tokens and sizes, failing writes; outcome monitor under ASan+UBSan"), _note),
 "C22": (_t("reader histories on generated files against the byte-level content, incl. truncated files, under ASan+UBSan"), _note),
 "C23": (_t("captured output parsed back and compared with the elements; stream state watched"), _note),
 "C24": (_t("the real program run on synthetic data sets; saved model re-evaluated independently and compared with its report; ASan and TSan builds"), _note),
 "C26": (_t("histories over several layers/models at once: each against its own oracle, bystanders' parameters watched; ASan and TSan builds"), _note),
 "C25": (_t("faults injected at every kind of point of a training; error, process and parameter monitors; ASan and TSan builds"), _note),
}
