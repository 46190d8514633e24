---------------------------- MODULE OptionsDefs ----------------------------
(* Which hyper-parameter each command-line flag and each functional option   *)
(* names, and what it means for a training.                                  *)
EXTENDS CorpusDefs
CommonFlags == [batch |-> "BatchSize", dim |-> "Dim", d |-> "Dim", goroutines |-> "Goroutines", inmemory |-> "DocInMemory", initlr |-> "Initlr", iter |-> "Iter",
                logbatch |-> "LogBatch", maxcount |-> "MaxCount", mincount |-> "MinCount", threshold |-> "SubsampleThreshold", tolower |-> "ToLower",
                verbose |-> "Verbose", window |-> "Window", w |-> "Window"]
\* flags are spelled without their hyphens here
Flags == [word2vec |-> [maxdepth |-> "MaxDepth", minlr |-> "MinLR", model |-> "ModelType", sample |-> "NegativeSampleSize", optimizer |-> "OptimizerType",
                        updatelrbatch |-> "UpdateLRBatch"] @@ CommonFlags,
          glove |-> [alpha |-> "Alpha", cnt |-> "CountType", solver |-> "SolverType", xmax |-> "Xmax"] @@ CommonFlags,
          lexvec |-> [minlr |-> "MinLR", sample |-> "NegativeSampleSize", rel |-> "RelationType", smooth |-> "Smooth", updatelrbatch |-> "UpdateLRBatch"] @@ CommonFlags]
Same(s) == [x \in s |-> x]
CommonOptions == Same({"BatchSize", "DocInMemory", "Goroutines", "Dim", "Initlr", "Iter", "MaxCount", "MinCount", "SubsampleThreshold", "ToLower", "Verbose", "Window"})
Options == [word2vec |-> Same({"LogBatch", "MaxDepth", "MinLR", "NegativeSampleSize", "UpdateLRBatch"}) @@ [Model |-> "ModelType", Optimizer |-> "OptimizerType"] @@ CommonOptions,
            glove |-> Same({"Alpha", "Xmax"}) @@ [Solver |-> "SolverType"] @@ CommonOptions,
            lexvec |-> Same({"LogBatch", "MinLR", "NegativeSampleSize", "Smooth", "UpdateLRBatch"}) @@ [Relation |-> "RelationType"] @@ CommonOptions]
Field(via, model, name) == IF via = "cli" THEN Flags[model][name] ELSE Options[model][name]
Names(via, model) == IF via = "cli" THEN DOMAIN Flags[model] ELSE DOMAIN Options[model]
\* one setting; settings in order
Put(o, f, v) == [o EXCEPT ![f] = v]
Resolve(o, via, model, sets) == FoldLeft(LAMBDA x, s : Put(x, Field(via, model, s.name), s.val), o, sets)
Bool == {"DocInMemory", "ToLower", "Verbose"}
Typed == [ModelType |-> {"cbow", "skipgram"}, OptimizerType |-> {"ns", "hs"}, SolverType |-> {"sgd", "adagrad"}, CountType |-> {"inc", "prox"},
          RelationType |-> {"ppmi", "pmi", "co", "logco"}]
=============================================================================
