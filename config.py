# One entry per property: driver, sanitizer builds, sources linked, and what
# a run must have observed to count as an observation at all.
CHECKS = {
    "C01": dict(
        driver="c01.cpp", flavors=["asan"], min_distinct=5000,
        require=["long-list", "type:-1", "type:1", "type:2", "type:3", "type:4", "int-converted",
                 "int-rejected", "float-converted", "equal-types", "different-types"],
        rule="A case is a batch of generated fields (grammar-directed, mutated numbers, boundary values, random "
             "bytes, all short strings over the numeric alphabet); non-trivial = a distinct non-empty field whose "
             "class was compared with the reference grammar."),
    "C02": dict(
        driver="c02.cpp", flavors=["asan"], min_distinct=1500,
        require=["wide", "tall", "field", "missing-column", "column-out-of-range", "wrapped", "copy", "assign", "destroy",
                 "numeric-views", "small-file", "long-row"],
        rule="A case is a generated CSV text with a random history of accesses over up to five readers (opened, "
             "copied, assigned, destroyed); non-trivial = a distinct (text, access history) whose every row, field "
             "and view was compared with the text."),
    "C03": dict(
        driver="c03.cpp", flavors=["asan"], min_distinct=1500,
        require=["wide", "tall", "visited", "moved", "iterator-copy", "declared", "partly-declared", "wrong-count", "entry", "unique", "assigned-reader"],
        rule="A case is a generated CSV text with iterator walks, declared types or entry reads; non-trivial = a "
             "distinct (text, walk/declaration) compared with the reference reading."),
    "C04": dict(
        driver="c04.cpp", flavors=["asan"], min_distinct=2000,
        require=["wide-table", "many-classes", "one-hot", "default", "label-before-input", "several-labels", "label-set", "long-table", "huge-table", "thousands-of-classes"],
        rule="A case is a random table (or CSV file) with a random subset of label columns; non-trivial = a "
             "distinct (table, label set) whose encodings were compared element by element with a direct construction."),
}
CHECKS.update({
    "C05": dict(
        driver="c05.cpp", flavors=["asan"], min_distinct=5000,
        require=["large", "long-text", "kind:1", "kind:2", "kind:3", "deep", "huge", "repeated-key", "numbers", "single-precision-value", "strings", "list", "object", "leaf", "used-leaf", "used-list", "used-object"],
        rule="A case is a generated document (tree, wide, deep, numbers, strings, stream of documents) written, read "
             "back and compared with a shadow tree and an independent reader; non-trivial = a distinct document with "
             "more than one node, or a distinct number."),
})
CHECKS.update({
    "C06": dict(
        driver="c06.cpp", flavors=["asan"], min_distinct=5000,
        require=["lengthy", "lengthy-object", "large", "overwrite", "set-key", "append", "assign-within", "assign-across", "append-copy", "copy", "move",
                 "destroy", "extracted-changed", "checked-access-throws", "checked-access-returns", "as-vector", "as-map",
                 "number-vector", "equal-pair", "different-pair", "near-equal", "near-different", "typed"],
        rule="A case is a history of up to 60 operations over up to five live trees, mirrored on shadow value trees, "
             "or a pair of trees differing in one place; non-trivial = a distinct (operation sequence, resulting trees)."),
})
CHECKS.update({
    "C07": dict(
        driver="c07.cpp", flavors=["asan"], min_distinct=10000,
        require=["json-rejected", "json-read", "json-truncated", "json-deep", "json-repeatable", "csv-opened", "csv-long", "mnist-opened",
                 "mnist-rejected", "mnist-truncated", "present-image", "cifar-opened", "present-picture", "missing", "fields"],
        rule="A case is a byte string (random, truncated or mutated from a valid one) given to one reader, followed by "
             "its accessors, under ASan/UBSan/LSan with CPU and memory limits; non-trivial = a distinct input."),
})
CHECKS.update({
    "C08": dict(
        driver="c08.cpp", flavors=["asan"], min_distinct=800,
        require=["image", "label", "item", "entry", "wrapped", "dataset", "rendered", "image-magic", "label-magic", "counts", "dimensions", "short-header", "large-set"],
        rule="A case is a generated MNIST file pair (valid with an access sequence over three readers, or with a "
             "corrupted header); non-trivial = a distinct (files, access sequence)."),
    "C09": dict(
        driver="c09.cpp", flavors=["asan"], min_distinct=800,
        require=["picture", "label", "item", "entry", "wrapped", "last-records", "row-column-channel", "channel-major", "cifar-10", "cifar-100", "names", "brightness", "rendered"],
        rule="A case is a generated CIFAR-10/100 batch (full size or short) with name files and an access sequence over "
             "two readers, or brightness/rendering probes; non-trivial = a distinct (batch, access sequence) or colour."),
})
CHECKS.update({
    "C10": dict(
        driver="c10.cpp", flavors=["asan"], min_distinct=5000, rss_mb=12000,
        require=["large-dataset", "from-vector", "from-rows", "from-sequences", "ragged-rows", "ragged-sequences", "regroup", "relabel",
                 "write-through", "copy", "swap", "shape", "empty", "tall-ragged"],
        rule="A case is a dataset of random source and shape with a history of regrouping, relabelling, writes, copies "
             "and swaps, every view compared with a shadow table after each step; plus all shapes up to 59 elements; "
             "non-trivial = a distinct (shape, history)."),
})
CHECKS.update({
    "C11": dict(
        driver="c11.cpp", flavors=["asan"], min_distinct=8000,
        require=["far-arrangements", "large-dataset", "cut", "empty-cut", "cut-beyond", "percentage-cut", "split", "proper-split", "rejoined", "shuffle", "moved",
                 "join-axis-0", "join-axis-1", "join-axis-2", "join-empty", "join-rejected", "shares", "arrangements"],
        rule="A case is a chain of up to six cuts, splits, shuffles and joins, every result and every source compared "
             "with shadow tables; all shares k/n and k/100; chi-square over all arrangements; non-trivial = a distinct "
             "(shape, operation chain), share or arrangement."),
})
CHECKS.update({
    "C12": dict(
        driver="c12.cpp", flavors=["asan"], min_distinct=8000,
        require=["large-dataset", "constant-column", "huge-column", "tiny-column", "negative-column", "column", "equal-bounds", "bounds-all",
                 "bounds-selection", "reversed-bounds", "picture", "no-rows", "wide", "tall"],
        rule="A case is a random dataset normalised by column or by explicit bounds, every value compared with its linear "
             "position computed in long double; non-trivial = a distinct dataset."),
})
CHECKS.update({
    "C13": dict(
        driver="c13.cpp", flavors=["asan"], lib="dnn", min_distinct=8000,
        require=["lengthy", "special-linear", "special-infinite", "long-vector", "relu", "relu'", "elu", "elu'", "elu'-of-output", "tanh", "tanh'", "tanh'-of-output", "sigmoid", "sigmoid'",
                 "sigmoid'-of-output", "stable-softmax", "stable-softmax-huge", "softmax'", "layer-Relu", "layer-Elu", "layer-Softmax",
                 "layer-Tanh", "layer-Sigmoid", "layer-Linear", "layer-inference", "cloned", "resized", "grid"],
        rule="A case is a random vector (ordinary, tiny, huge, edge values) through every kernel out of place and in "
             "place between canaries, or a history of a layer's inference/training/backward passes, against long double "
             "definitions; non-trivial = a distinct vector, history or grid value."),
})
CHECKS.update({
    "C14": dict(
        driver="c14.cpp", flavors=["asan"], lib="dnn", min_distinct=15000,
        require=["tied-prediction", "empty-target", "zero-target", "many-evaluations", "close-prediction", "many-classes", "long-history", "cross-entropy", "squared-error", "finite-difference", "reset", "batch-size", "clone", "resized", "at-tolerance",
                 "accuracy-class", "accuracy-tolerance", "gradient"],
        rule="A case is a random prediction/target pair through the loss kernels, or a history of up to 30 evaluations, "
             "resets, batch sizes and clones of a loss layer with shadow sums; non-trivial = a distinct pair or history."),
})
CHECKS.update({
    "C15": dict(
        driver="c15.cpp", flavors=["asan"], lib="dnn", min_distinct=15000,
        require=["wide", "extreme-values", "huge-values", "large-geometry", "convolution", "max-pooling", "average-pooling", "unequal-strides", "unequal-paddings", "window-in-padding",
                 "strides-leave-rest", "convolution-layer", "max-pooling-layer", "average-pooling-layer", "resized", "geometry"],
        rule="A case is a random geometry (shape, kernel, filters, strides, paddings) with random values through the kernel "
             "between canaries or the layer (with reshapes), against direct sums; plus every small geometry; "
             "non-trivial = a distinct (geometry, values)."),
    "C16": dict(
        driver="c16.cpp", flavors=["asan"], min_distinct=15000,
        require=["misfit-of-equal-size", "close-maxima", "large-blocks", "high-rank", "long-vector", "many-axis-0", "many-axis-1", "many-axis-2", "two", "slice", "product", "sum", "scaled", "shifted", "maximum",
                 "ties", "negative-maximum", "index", "index-missing", "matrix-vector", "shape"],
        rule="A case is a random set of blocks or slices (placement computed coordinate by coordinate, with the inverse) or "
             "random vectors through each helper between canaries; non-trivial = a distinct geometry or vector pair."),
})
CHECKS.update({
    "C17": dict(
        driver="c17.cpp", flavors=["asan", "tsan"], min_distinct=500, tsan_shards=2,
        technique="ThreadSanitizer and reference oracle on the real kernels under seeded schedule perturbation",
        require=["parallel", "single", "one-wide", "concurrent-call", "shared-operands", "big", "over-65536-weights", "special"],
        assumptions=["The betterthreads submodule is empty in the sandbox; /verif/shim provides its task manager on real threads."],
        rule="A case is a random layer size and values through the threaded kernels (1-8 workers, seeded delays), alone or "
             "from 2-4 concurrent callers, under ASan and TSan; non-trivial = a distinct task completion order."),
})
CHECKS.update({
    "C18": dict(
        driver="c18.cpp", flavors=["asan"], lib="dnn", min_distinct=15000,
        technique="Finite-difference oracle over the real forward passes, under ASan/UBSan",
        require=["giant-layer", "exact-Dense", "exact-Conv", "exact-MaxPool", "exact-AvgPool", "close-values", "large-window", "many-filters", "met-target", "large-layer", "large-chain", "deep-chain", "layer-Dense", "layer-Relu", "layer-Elu", "layer-Softmax", "layer-Tanh", "layer-Sigmoid", "layer-Linear",
                 "layer-Conv", "layer-MaxPool", "layer-AvgPool", "unequal-strides", "padded", "resized", "cloned",
                 "accumulated", "inference-between", "consumed", "cce", "mse", "chain-of-3", "same-step", "consumed-chain"],
        rule="A case is a random layer (also resized or cloned) or chain with a loss, 1-3 training steps with inference and "
             "optimizer calls in between, every gradient compared with difference quotients; non-trivial = a distinct "
             "(structure, input)."),
})
CHECKS.update({
    "C19": dict(
        driver="c19.cpp", flavors=["asan"], lib="dnn", min_distinct=15000,
        technique="Reference recurrence and difference quotients compared online over operation histories, under ASan/UBSan",
        require=["very-long-sequence", "very-large-layer", "long-sequence", "large-layer", "one-step", "many-steps", "carried-state", "backward", "accumulated", "inference", "set-state", "oversized-state",
                 "reset", "time-steps-changed", "init", "optimized", "resized", "clone", "model-step"],
        rule="A case is a history of sequences (training or inference), state settings, resets, sequence-length changes, "
             "initialisations, optimizer calls and clones of a random recurrent layer; non-trivial = a distinct "
             "(parameters, sequence)."),
})
CHECKS.update({
    "C20": dict(
        driver="c20.cpp", flavors=["asan"], lib="dnn", min_distinct=15000,
        technique="Online mask oracle over operation histories and 6.5-sigma frequency monitors, under ASan/UBSan",
        require=["loaded", "wide-layer", "training", "kept", "dropped", "inference", "gradient", "clone", "init", "resized", "p-zero", "p-one", "p-outside",
                 "statistics", "wide-statistics", "vast-layer", "special-dropped", "special-kept", "model", "model-kept", "model-dropped"],
        rule="A case is a history of training passes, inferences, gradients, clones and initialisations of a dropout layer "
             "with a twin of the same generator, 400 passes for frequencies per position, neighbour and pass, or a model "
             "with dropout against the one without; non-trivial = a distinct masked output, probability or model input."),
})
CHECKS.update({
    "C21": dict(
        driver="c21.cpp", flavors=["asan"], lib="dnn", min_distinct=15000,
        technique="Shadow optimizer state compared online over operation histories, under ASan/UBSan",
        require=["extreme-gradients", "special-gradient", "step-beyond-1000", "long-training", "many-parameters", "adam", "gd", "adam-defaults", "reset", "late-layer", "clone", "mismatch", "from-clone", "from-other", "later-step",
                 "no-parameters", "model"],
        rule="A case is a history of optimizer calls, resets, new layers and clones over up to 7 layers sharing 1-2 "
             "optimizers, or the training calls of a model; non-trivial = a distinct parameter vector reached."),
})
CHECKS.update({
    "C22": dict(
        driver="c22.cpp", flavors=["asan"], lib="dnn", min_distinct=8000,
        technique="Shadow graph compared online after every declaration, under ASan/UBSan",
        require=["large-tree", "large-chain", "large-graph", "add-layer", "add-loss", "add-twice", "unknown-layer", "edge", "arc", "back-arc", "loss-edge", "loss-arc", "many-to-one",
                 "one-to-many", "back-lists", "copied", "assigned", "self-assigned", "destroyed", "separate", "not-a-tree",
                 "ordered-run", "long-ordered-run", "many-to-loss", "beyond-a-loss"],
        rule="A case is a history of declarations, repetitions, unknown layers, copies and assignments over up to three "
             "graphs of up to nine layers, all queries and run lists compared after each; non-trivial = a distinct final graph."),
})
CHECKS.update({
    "C23": dict(
        driver="c23.cpp", flavors=["asan"], lib="dnn", min_distinct=15000,
        technique="Event logs of probe layers and bitwise ownership snapshots of model copies, under ASan/UBSan",
        require=["several-losses", "long-chain", "events", "prediction", "step", "edge-twice", "copied-chain", "chain-1", "chain-7", "predict", "train", "train-from", "isolated",
                 "reset-score", "copy", "assign", "swap", "destroy", "restructured", "side-by-side"],
        rule="A case is a chain of logging probe layers declared in random order (every call compared with the definition), "
             "or a history of predictions, steps, training, scores, copies, assignments, swaps and destructions over a "
             "family of models; non-trivial = a distinct input through a chain or prediction of a family."),
})
CHECKS.update({
    "C24": dict(
        driver="c24.cpp", flavors=["asan"], lib="all", min_distinct=8000,
        technique="Round-trip oracle (text, parameters, behaviour) on saved models and rejected files, under ASan/UBSan",
        require=["many-layers", "several-shapes", "first-prediction", "fresh", "other-values", "other-sizes", "recurrent", "dropout", "second-generation", "copy-of-the-loading-model",
                 "type-Dense", "type-Elu", "type-Conv", "type-MaxPool", "type-AveragePool", "type-CCELoss", "type-MSELoss",
                 "other-type", "fewer-layers", "not-a-model", "cut-off", "missing-entry", "missing-parameter", "missing-file", "copy-other-sizes"],
        rule="A case is a random model with extreme and ordinary parameters saved and loaded into a fresh, differently "
             "initialised or differently sized one, or a file that is not that model (wrong type, fewer layers, cut off, "
             "entries or parameters missing); non-trivial = a distinct file."),
})
CHECKS.update({
    "C25": dict(
        driver="c25.cpp", flavors=["asan"], lib="dnn", min_distinct=8000,
        technique="Exact reproducibility oracle and Kolmogorov/6.5-sigma statistical monitors over seeded draws",
        require=["many-layers", "near-seed", "long-sequence-positions", "other-seed", "fresh-seed", "chain", "recurrent", "before-relu", "not-before-relu", "branch", "branch-with-relu",
                 "normal", "uniform", "dense normal kaiming", "dense uniform xavier", "dense normal auto", "convolution normal kaiming",
                 "convolution uniform xavier", "recurrent normal kaiming", "recurrent uniform xavier", "draws", "sequences"],
        assumptions=["Statistical bounds lie about 6.5 standard deviations out; the seeds are fixed by VERIF_SEED."],
        rule="A case is a model initialised repeatedly with equal, other and fresh seeds, a random tree under automatic "
             "selection, a layer with about 3000 weights, 3000 direct draws, or 1500 index sequences; non-trivial = a "
             "distinct parameter vector or sequence."),
})
CHECKS.update({
    "C26": dict(
        driver="c26.cpp", flavors=["asan"], lib="all", min_distinct=8000,
        technique="Event logs of probe layers and a recording optimizer against the definition, and training by hand, under ASan/UBSan",
        require=["many-rows", "many-epochs", "update", "events", "partial-batch", "batch-larger-than-dataset", "no-rows", "no-epochs", "model", "fitted", "fitted-again",
                 "deterministic", "dropout", "initialised-only", "cce", "mse", "learnt", "epochs>200", "rows>65500", "far-fit", "same-seed-again", "over-65536-parameters"],
        rule="A case is up to three training runs over probe layers (every call and gradient compared), of a random model, "
             "or fits of a random descriptor-built network compared with a hand-assembled, hand-trained one; non-trivial = a "
             "distinct dataset with its settings, or distinct parameters or predictions after training."),
})
CHECKS.update({
    "C27": dict(
        driver="c27.cpp", flavors=["asan", "tsan"], lib="all", shards=4, tsan_shards=4, min_distinct=4000,
        technique="ThreadSanitizer and ASan on seeded, perturbed schedules, per-thread event logs (exactly-once, ordered updates), training by hand",
        require=["workers-1", "workers-2", "workers-8", "tasks", "tasks-overlapped", "several-threads", "steps", "entry-level", "batch-level",
                 "partial-batch", "no-rows", "entry-model", "batch-model", "other-workers", "fit-1", "fit-2", "step-failed", "independent", "large-batch", "large-batch-model", "far-rows",
                 "thrown-0", "thrown-1", "thrown-2", "thrown-3", "thrown-4"],
        assumptions=["The task manager is a stand-in with the interface of betterthreads (an empty submodule here) on real threads."],
        rule="A case is a parallel training run with 1-8 workers and a perturbed schedule over probe layers (every step and "
             "update compared), a random model or described network (compared with one thread without copies), a run with "
             "a failing step, or models used in several threads; non-trivial = a distinct completion order of tasks, dataset "
             "with settings, or distinct parameters or predictions."),
})
CHECKS.update({
    "C28": dict(
        driver="c28.cpp", flavors=["asan"], lib="all", min_distinct=8000,
        technique="Differential monitor: descriptor-built networks against hand-assembled models over call histories, under ASan/UBSan",
        require=["Dense", "Conv", "MaxPool", "AvgPool", "Dropout", "activation-0", "activation-6", "second-input", "no-layers", "other-loss",
                 "accuracy", "partly-correct", "evaluate-cce", "evaluate-mse", "sequences", "compile", "compiled-again", "default-compile",
                 "fit-before-compile", "predict-before-compile", "evaluate-before-compile", "fit", "predict", "mode-0", "mode-1", "mode-2",
                 "sizes-first", "rows>65500", "lengthy"],
        rule="A case is a random descriptor list built in three ways and compared row by row with a hand-assembled model, or a "
             "history of compilations, fits, predictions and evaluations; non-trivial = a distinct network with seed, or "
             "distinct predictions."),
})
CHECKS.update({
    "C29": dict(
        driver="c29.cpp", flavors=["asan"], lib="all", min_distinct=4000,
        flags=["-I{repo}/profile", "-fmacro-prefix-map={repo}/profile=datadir/profile"],
        technique="Shadow measurements under a virtual clock, call logs of stand-in networks and generated data files, under ASan/UBSan",
        require=["many-clicks", "thousand-tries", "click", "restart", "reset", "dump", "dump-rejected", "odd-count", "even-count", "not-a-directory", "failed-run",
                 "own-count", "default-count", "training", "prediction", "testing", "training-testing", "csv-dataset", "mnist-dataset"],
        assumptions=["The clock functions of the C++ library are replaced in the driver, so every duration is known exactly."],
        rule="A case is a history of a stopwatch, of profiled functions (also failing ones), of profiled networks that log "
             "their calls, or a generated profile dataset; non-trivial = a distinct list of durations, calls or data."),
})
CHECKS.update({
    "C30": dict(
        driver="c30.cpp", flavors=["asan"], lib="dnn", min_distinct=3000,
        technique="Shadow descriptions compared with what layers and models report, print and accept, under ASan/UBSan",
        require=["branches", "many-branches", "same-parameters-reshaped", "misfit-of-equal-size", "many-names", "kind-Dense", "kind-Relu", "kind-Elu", "kind-Softmax", "kind-Tanh", "kind-Sigmoid", "kind-Linear", "kind-Conv", "kind-MaxPool",
                 "kind-AvgPool", "kind-Dropout", "kind-Recurrent", "kind-Cce", "kind-Mse", "kind-Concatenate", "large", "unnamed", "parameters",
                 "no-parameters", "printed", "pass", "scores", "reshaped", "image-shape", "defaults", "misfit", "printed-model", "with-loss", "threads"],
        rule="A case is a layer of random kind, sizes and settings, its clone and its shape changes, or a chain model, every reported "
             "size, shape, parameter, printed value and pass compared with the shadow description; non-trivial = a distinct description."),
})
CHECKS.update({
    "C31": dict(
        driver="c31.cpp", flavors=["asan", "tsan"], lib="all", flags=["-I{repo}/profile"], shards=4, tsan_shards=4, min_distinct=4000,
        technique="ThreadSanitizer and ASan on concurrent workloads over separate objects and over shared constant ones; digests compared with the same calls alone",
        require=["types", "csv", "json", "mnist", "cifar", "datasets", "kernels", "layers", "losses", "graphs", "models", "networks", "stopwatches",
                 "shared-dataset", "shared-json", "shared-row", "shared-model", "shared-layer", "shared-graph", "shared-description", "shared-training-data",
                 "overlapped", "three-at-once", "unnamed", "twins", "one-kind", "many-kinds"],
        assumptions=["Reports inside the narrowing cache of libstdc++'s character facet (same bytes written by all threads) are suppressed."],
        rule="A case is 2-6 threads released together, each with 2-5 workloads over objects of its own (one kind or mixed), or over "
             "shared objects used through constant calls and copies; the digests of everything seen are compared with the same "
             "calls made alone afterwards; non-trivial = a distinct digest."),
})
CHECKS.update({
    "C32": dict(
        driver="c32.cpp", flavors=["asan"], lib="all", flags=["-I{repo}/profile"], min_distinct=10000,
        technique="Fault injection: chosen allocations fail under ASan/UBSan/LSan; digests of the same calls afterwards",
        require=["types", "csv", "json", "mnist", "cifar", "datasets", "kernels", "layers", "losses", "graphs", "models", "networks", "stopwatches",
                 "reported", "leaks-counted", "all-later-ones-fail-too", "left-behind:dataset", "left-behind:json", "left-behind:graph", "left-behind:model", "left-behind:layer", "left-behind:reader"],
        rule="A case is a seeded workload over one part of the library repeated 12 times with a chosen allocation failing (alone or with all later ones), then again undisturbed, "
             "or one changing call on an object repeated 6 times with a chosen allocation failing, after which the object is destroyed or assigned anew and compared; non-trivial = a distinct (workload, failing allocation)"),
    "C33": dict(
        driver="c33.cpp", flavors=["asan"], lib="all", flags=["-I{repo}/profile"], min_distinct=5000,
        technique="Runtime monitoring of random histories of copies, moves, swaps and changes against recorded digests, under ASan/UBSan/LSan",
        require=["dataset", "json-item", "json-dict", "json-list", "json-leaf", "shape", "layer-shape", "stopwatch", "csv", "csv-row", "csv-field", "mnist-item", "cifar-item", "description",
                 "dense", "conv", "max-pool", "avg-pool", "dropout", "relu", "elu", "softmax", "tanh", "sigmoid", "recurrent", "mse", "cross-entropy", "graph", "model", "moved", "changed", "outlived"],
        rule="A case is a history of 3-25 copies, moves, assignments (also to itself), swaps, insertions, erasures, rotations and changes over vectors, lists and owned copies of one type, "
             "every value compared with what it showed when it was made or last changed; non-trivial = distinct (type, history)"),
})
