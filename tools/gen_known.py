#!/usr/bin/env python3
"""Writes /verif/KNOWN_FINDINGS from /repo's fix: commits. (Run by hand; no check writes this file.)"""
import os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
M = {  # commit subject prefix -> (properties, what failed)
 "restoring models in several threads": ("C25", "restoring models concurrently raced on a global depth counter of the bundled json reader, which could refuse a valid file"),
 "models trained in different threads": ("C25", "training models with active_smoothness concurrently raced on one function-local random generator"),
 "numpy reader overflows the row offset": ("C03", "in arrays of more than 2 GB rows were read from wrong addresses (signed overflow)"),
 "decode index gaps": ("C02,C01", "gaps >= 2^31 were decoded wrongly; truncated codes were read past the end of the buffer"),
 "parse long": ("C07", "long, large and tiny decimals were read as other values; integers that do not fit were wrapped silently"),
 "reject the reserved feature index": ("C06", "svm index 4294967295 made the dimension overflow to 0 and later accesses leave the buffer"),
 "write feature indexes above": ("C01", "svm writer printed indexes >= 2^31 as negative numbers"),
 "reject corrupt records": ("C06", "binary record sizes were trusted: huge allocations, over-reads, examples with wrong feature counts"),
 "do not loop or grow forever": ("C06", "a NUL byte in a text line made ReadLine grow its buffer for ever"),
 "sort and clone empty": ("C23", "empty data points dereferenced null storage; sorting long rows recursed once per element"),
 "bulk dequeue": ("C05", "bulk Dequeue took an element from an empty queue after a wake-up shared with another consumer"),
 "destroying a data iterator": ("C04", "destroying a DataIter while its reader runs raced, hung or leaked batches"),
 "report failed writes": ("C20", "convert, shuffle, split and concat reported success although the output could not be written"),
 "splitting without an output type": ("C18", "split with default output type wrote files with an empty type; zero folds divided by zero; analysing featureless data printed wrapped numbers"),
 "csv writer silently dropped": ("C01", "csv writer dropped the rest of a row after index 0, a repeated index or one beyond the header"),
 "writing a data point that never": ("C01", "writing an example that never had a feature dereferenced null storage"),
 "refuse data iterators": ("C04", "DataIter with batch size or buffer count <= 0 hung or crashed"),
 "restoring a truncated": ("C09", "truncated or inconsistent model files looped for ever, threw to the caller or yielded half-read models"),
 "report models and predictions": ("C20", "failed saves of models and predictions were reported as success; lazily regularised models were saved before finalisation"),
 "lsol_c reports": ("C24", "lsol_c printed error rates as accuracies and crashed on a missing model"),
 "a refused loss": ("C21", "setting an incompatible loss left the model without a usable loss"),
 "a refused parameter": ("C21", "a refused parameter value was stored anyway"),
 "uniform losses": ("C14", "uniform-hinge always returned 0, other uniform losses 0/0 without violators; stale gradients survived zero loss"),
 "do not train on multiclass": ("C23", "multiclass labels outside the class range indexed outside the weight arrays"),
 "examples without non-zero": ("C19", "examples with zero norm turned weights into NaN"),
 "an unusable list": ("C19", "unreadable or non-numeric feature lists were accepted and indexed outside the mask"),
 "error rates and sparsity": ("C15", "error rate and sparsity were 0/0 = NaN without data"),
 "const matrix element": ("C22", "const Matrix::operator()(x,y) ignored y"),
 "rda-l1 never": ("C12", "rda-l1 computed 0/0 on its first example and never learned from it"),
 "ada-rda, adarda-ofs": ("C11", "ada-rda, adarda-ofs and sop predicted without their bias while training"),
 "active_smoothness": ("C21", "active_smoothness in (0,1) and sparse_thresh were accepted but neither reported nor saved"),
 "save weights with": ("C08", "weights were saved with 6 digits: restored models scored differently"),
 "second order feature": ("C13", "feature index 0 read outside the heap of the second-order feature selectors"),
 "changing the budget": ("C13", "changing B or lambda after training started overran the heap"),
 "feature selection ranked": ("C13", "feature selection ranked stale scores and forgot its selection between training calls and after restore"),
 "cost sensitive learning with": ("C21", "cost-sensitive learning with a loss that cannot honour it was accepted and made training do nothing"),
 "sol_train and lsol_c ignored": ("C24", "sol_train and lsol_c ignored the option --dim"),
 "a refused budget or delta": ("C21", "a refused budget or delta finalised an adarda-ofs model"),
 "the step counter overflowed": ("C09,C23", "training on from step number 2147483647 (e.g. from an altered model file) overflowed the step counter"),
 "alma2 accepted norms": ("C21,C09", "alma2 accepted p < 2 (NaN steps, integer overflow) and its counter k could overflow"),
 "input that can be opened": ("C20", "a directory given as input was read as empty data and reported as success"),
 "split lost examples": ("C18", "splitting more than 2^24 examples lost some (float arithmetic); shown with 16777217 examples and one fold"),
 "cw and eccw could leave": ("C11,C21", "when a parameter was changed between training calls after a step of size 0, cw and eccw left the bias out of the margin"),
 "a feature list that cannot be read": ("C20,C19", "a feature list whose reading failed in the middle was taken for the whole list"),
 "dataset tools report success when": ("C20", "convert, shuffle, split, concat and analyze reported success on input whose reading failed, or that is malformed, in the middle"),
 "l1 learners shrank": ("C12", "L1 shrinkage was applied twice, with the bias' rate, or only to the first class"),
}
lines = ["# Findings of the checks. 'fixed:' entries are repaired in /repo by the named commit and suppress nothing.",
         "# A finding recorded instead of repaired would be: known: property=<id> key=<violation key> <what fails>", ""]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
used = set()
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    k = [k for k in M if s[5:].startswith(k)]
    assert len(k) == 1, s
    used.add(k[0])
    for p in M[k[0]][0].split(","):
        lines.append("fixed: property=%s %s %s" % (p, h, M[k[0]][1]))
assert used == set(M), set(M) - used
lines.append("")
for k, w in (("size_limit", "does not fit the file size limit or disk"), ("full_device", "goes to a full device"), ("bad_dir", "lies in a directory that does not exist")):
    lines.append("known: property=C20 key=cli.lost.sol_test.%s tools/sol_test.cc exits 0 and prints the accuracy although its output file %s (not repaired: the file's name makes it a test file, which may not be changed)" % (k, w))
open(os.path.join(V, "KNOWN_FINDINGS"), "w").write("\n".join(lines) + "\n")
