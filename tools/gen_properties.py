#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the long strings stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("P01", "The vocabulary is an exact census of the corpus",
  "After a corpus has been loaded, the vocabulary contains exactly the distinct whitespace-separated words of the whole text (lower-cased first when lower-casing is requested), numbered 0,1,2,... in order of first appearance, each with its exact number of occurrences, and the corpus length is the total number of words. Word-to-id and id-to-word lookups are inverse to each other; a word or id that is not in the vocabulary is reported as absent with frequency zero. This holds in in-memory and in streaming mode, wherever the reader was positioned before loading and however it chops the text into reads.",
  ["inputs", "configurations"], "every text (any words, separators, length), every read chunking and starting position, both corpus modes, lower-casing on or off",
  "no test loads a corpus into a vocabulary at all; two tests read one fixed five-word string",
  ["pkg/corpus/dictionary/dictionary.go", "pkg/corpus/memory/memory.go", "pkg/corpus/fs/fs.go", "pkg/corpus/cpsutil/cpsutil.go"],
  [("dense id assignment and counting", "dictionary.(*Dictionary).Add"), ("rewind and word scan", "cpsutil.ReadWord")],
  [("word2id / id2word / cfs", "the vocabulary bijection and frequencies", "pkg/corpus/dictionary/dictionary.go")],
  ["Corpus.Dictionary()", "Corpus.Len()"])

p("P02", "Only words within the frequency limits are offered for training, in order",
  "The word sequence that a loaded corpus offers for training is the corpus text in order with exactly those occurrences removed whose word occurs fewer times than the minimum count or more times than the maximum count; a negative minimum and a non-positive maximum switch the respective limit off. Words outside the limits stay in the vocabulary with their counts. In-memory and streaming mode offer the same sequence, every time it is asked for.",
  ["inputs", "configurations", "histories"], "every text, every minimum and maximum count, both modes, every number of repeated passes",
  "no test covers filtering, either corpus mode, or a second pass",
  ["pkg/corpus/cpsutil/cpsutil.go", "pkg/corpus/memory/memory.go", "pkg/corpus/fs/fs.go"],
  [("count filters", "cpsutil.MaxCount / MinCount / Filters.Any"), ("filtered sequence", "memory.IndexedDoc, fs.BatchWords")],
  observe=["Corpus.IndexedDoc()", "Corpus.BatchWords()"])

p("P03", "Streamed batches partition the eligible words and are never changed afterwards",
  "One streaming pass delivers the eligible words as consecutive batches, every batch holding exactly the configured batch size except possibly the last, whose concatenation is the eligible word sequence, and the delivery channel is closed exactly once after the last batch. The contents of a batch that has been handed over never change afterwards, however slowly it is consumed. Every further pass delivers the same batches again.",
  ["inputs", "schedules", "histories"], "every text, batch size, channel capacity, consumer speed and number of passes",
  "no test streams batches; ownership of a handed-over batch only fails with a slow concurrent consumer",
  ["pkg/corpus/fs/fs.go"], [("batch cut and fresh buffer per batch", "fs.(*Corpus).BatchWords")],
  [("ids / cursor", "batch under construction", "pkg/corpus/fs/fs.go")], ["Corpus.BatchWords()"])

p("P04", "Co-occurrence counts equal the number of position pairs inside the window",
  "With plain counting, the co-occurrence value of an unordered pair of words equals the number of position pairs of the text at distance 1 up to the window size that carry those two words, and no other pair has an entry. The result is the same in in-memory and streaming mode, with or without lower-casing, and for texts shorter than the window. The value of a pair does not depend on the order in which its words are given, and different pairs never share an entry for any word numbers up to 2^32-1.",
  ["inputs", "configurations"], "every text (also empty, one word, shorter than the window), every window size, both modes, every pair of word numbers",
  "the only test adds one pair and counts entries; the window test uses one five-word text with window 2",
  ["pkg/corpus/cooccurrence/cooccurrence.go", "pkg/corpus/cooccurrence/encode/encode.go", "pkg/corpus/memory/memory.go", "pkg/corpus/fs/fs.go", "pkg/corpus/cpsutil/cpsutil.go"],
  [("pair code", "encode.EncodeBigram / DecodeBigram"), ("sliding window", "cpsutil.ReadWordWithForwardContext"), ("pair loop", "memory.(*Corpus).Load")],
  [("ma", "pair -> accumulated weight", "pkg/corpus/cooccurrence/cooccurrence.go")], ["Corpus.Cooccurrence().EncodedMatrix()"])

p("P05", "Proximity counting weights each co-occurrence by 1/distance",
  "With proximity counting, every position pair of the text at distance d, 1 <= d <= window, contributes exactly 1/d to the co-occurrence value of its unordered word pair, and nothing else contributes. Loading a readable text with proximity counting never fails, also when a word is repeated inside the window. In-memory and streaming mode agree.",
  ["inputs", "configurations"], "every text, in particular with repeated words inside one window, every window size, both modes",
  "no test uses proximity counting",
  ["pkg/corpus/cooccurrence/cooccurrence.go", "pkg/corpus/memory/memory.go", "pkg/corpus/fs/fs.go", "pkg/corpus/cpsutil/cpsutil.go"],
  [("proximity weight", "co.(*Cooccurrence).Add")], observe=["Corpus.Cooccurrence().EncodedMatrix()"])

p("P06", "Work is split into contiguous, complete, disjoint and balanced shares",
  "Splitting n items over t workers (t >= 1, n >= 0) yields t consecutive index ranges that start at 0, end at n, neither overlap nor leave gaps, and whose sizes differ by at most one. With fewer items than workers the surplus shares are empty.",
  ["inputs", "configurations"], "every item count and every positive worker count",
  "no test calls the splitter",
  ["pkg/model/modelutil/modelutil.go"], [("interval computation", "modelutil.IndexPerThread")], observe=["modelutil.IndexPerThread()"])

p("P07", "Every training iteration trains every eligible item exactly once",
  "With subsampling disabled (threshold 0), every training iteration of word2vec and LexVec trains every eligible word occurrence exactly once, and every iteration of GloVe trains every co-occurring word pair exactly once, for every number of workers, batch size, corpus mode and schedule. Iterations do not overlap: all training of one iteration is finished before the next one starts reading the corpus, and all training is finished when training returns.",
  ["schedules", "inputs", "configurations"], "every interleaving of reader, workers and progress observer; every corpus, worker count, batch size, number of iterations",
  "no test trains a model; skipped or doubled work changes numbers only slightly and depends on share and batch boundaries",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go", "pkg/model/glove/glove.go", "pkg/model/modelutil/modelutil.go", "pkg/corpus/fs/fs.go"],
  [("fan-out per share or batch", "train / batchTrain"), ("iteration barrier", "WaitGroup + channel close in train / batchTrain"), ("per-worker scratch tokens", "word2vec skipGram.ch / cbow.ch")],
  [("trained", "per-item rendezvous with the observer", "word2vec.go, lexvec.go, glove.go")],
  ["Model.WordVector() before and after Train", "Seek/Read calls on the corpus reader"])

p("P08", "Training always finishes and leaves nothing running",
  "For every valid configuration (positive window, worker count, batch sizes and dimension) and every readable text, including empty texts, single words, texts whose words are all filtered out and texts with fewer items than workers, training returns successfully after the configured number of iterations, without crashing or blocking. Once it has returned, all of its goroutines terminate.",
  ["schedules", "inputs", "configurations"], "every interleaving of producer, workers and observer; every text; every valid configuration of the three models",
  "no test trains; deadlocks need particular worker/batch/text combinations",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go", "pkg/model/glove/glove.go", "pkg/corpus/fs/fs.go", "pkg/model/word2vec/sigmoid_table.go"],
  [("channel close / WaitGroup / semaphore protocol", "train, batchTrain, trainPerThread, observe"), ("channel close by producer", "fs.BatchWords")],
  observe=["Train() return", "process goroutines after Train"])

p("P09", "An unreadable corpus makes training fail with an error",
  "If reading or rewinding the corpus fails at any point of any pass over it, also during a later iteration, or a word exceeds the scanner's limit, training returns a non-nil error: it neither hangs, nor crashes, nor reports success, and leaves no goroutine behind. If no read or rewind fails, no error is reported.",
  ["fault_sequences", "crash_points", "schedules"], "every position (pass and byte offset) of a read or rewind failure, in every mode and model",
  "no test injects a reader failure; failures in later passes need a reader that fails on its n-th rewind",
  ["pkg/corpus/cpsutil/cpsutil.go", "pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go", "pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go", "pkg/model/glove/glove.go"],
  [("scanner and rewind errors", "cpsutil.ReadWord"), ("producer error hand-over", "batchTrain + BatchWords")],
  observe=["Train() result", "Corpus.Load() / BatchWords() result"])

p("P10", "A training step only involves words inside the window of its own share",
  "Training one occurrence in word2vec or LexVec pairs it only with the words at the surrounding positions up to a radius r with 1 <= r <= window, the same r on both sides, inside its own batch or worker share, each of them exactly once and never with its own position. In CBOW the context words whose vectors are summed are exactly those whose vectors are updated. Words removed by the frequency limits are never a context.",
  ["inputs", "configurations", "schedules"], "every text, window, batch size, worker count and random radius choice",
  "no test trains; window edge and batch edge errors change no asserted value",
  ["pkg/model/word2vec/model.go", "pkg/model/lexvec/lexvec.go"],
  [("dynamic window", "skipGram.trainOne, cbow.dowith, lexvec.trainOne")], observe=["Model.WordVector() before and after Train"])

p("P11", "Negative sampling draws the configured number of non-target words",
  "In word2vec with negative sampling each training step updates its target word as the positive example exactly once per context (per step in CBOW) and then considers exactly the configured number of randomly drawn vocabulary words as negative examples; a draw that equals the target is skipped, never trained as negative. With sample size zero only the positive example is trained.",
  ["inputs", "configurations"], "every text, every sample size, every outcome of the random draws, small and large vocabularies",
  "no test trains with negative sampling",
  ["pkg/model/word2vec/optimizer.go", "pkg/model/modelutil/modelutil.go"],
  [("sampling loop", "negativeSampling.optim"), ("random draw", "modelutil.NextRandom")], observe=["Model.WordVector() before and after Train"])

p("P12", "The Huffman tree is an optimal prefix code over the vocabulary",
  "For every vocabulary, the tree built for hierarchical softmax is one binary tree with exactly one leaf per word (in word-number order), inner nodes with exactly two children carrying the branch codes 0 and 1 and a weight equal to the sum of their children's, and a zero vector of the requested dimension on every inner node. Its total frequency-weighted depth is the minimum over all binary trees with these leaves, and the result is the same for the same vocabulary.",
  ["inputs"], "every vocabulary size (also 0 and 1) and every frequency assignment, including ties",
  "no test builds a tree",
  ["pkg/corpus/dictionary/huffman.go", "pkg/corpus/dictionary/node/node.go"],
  [("merge of the two lightest", "dictionary.HuffnamTree")], observe=["Dictionary.HuffnamTree() nodes: Parent, Code, Val, Vector"])

p("P13", "A word's tree path is complete and stable under concurrent lookups",
  "The path reported for a word is the sequence of tree nodes from the root down to the word's leaf, cut to its first max-depth nodes when a positive max-depth is smaller than the path, and uncut for max-depth 0 as documented. This is so for every one of any number of concurrent first lookups of the same or different words and for every later lookup with any depth.",
  ["schedules", "inputs", "histories"], "every interleaving of concurrent lookups; every tree; every sequence of depths",
  "no test looks up a path, let alone concurrently",
  ["pkg/corpus/dictionary/node/node.go", "pkg/model/word2vec/optimizer.go"],
  [("lazily cached path", "node.(*Node).GetPath")], [("cache", "memoised root-to-leaf path", "pkg/corpus/dictionary/node/node.go")], ["Node.GetPath()"])

p("P14", "The learning rate follows its schedule and never drops below the minimum",
  "In word2vec and LexVec, training starts with the initial learning rate; after every update-lr-batch trained words of an iteration it becomes the initial rate times (1 - words trained in this iteration / corpus length), but never less than the configured minimum rate. Every training step therefore uses a rate between the minimum and the initial rate (given minimum <= initial). GloVe uses its initial rate throughout.",
  ["schedules", "inputs", "configurations"], "every interleaving of workers and the observer that updates the rate, every corpus length, update batch, minimum rate, iteration count",
  "no test trains; the rate is only visible through its effect on the vectors",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go", "pkg/model/glove/solver.go"],
  [("rate update in the observer", "observe")], [("currentlr", "rate used by workers", "word2vec.go, lexvec.go")], ["Model.WordVector() before and after Train"])

p("P15", "GloVe fits exactly the observed co-occurrence statistics",
  "In every GloVe iteration, each co-occurring word pair is trained towards the logarithm of its co-occurrence value in both directions (each word's own vector against the other's context vector), weighted by min(1, (value/xmax)^alpha); word pairs that do not co-occur are never trained. This holds for both solvers, both counting types, both corpus modes and any number of workers.",
  ["inputs", "configurations"], "every text, window, counting type, xmax, alpha, solver, worker count",
  "no test trains GloVe",
  ["pkg/model/glove/glove.go", "pkg/model/glove/item.go", "pkg/model/glove/solver.go"],
  [("item construction", "makeItems"), ("two-direction update", "trainPerThread, solver.trainOne")], observe=["Model.WordVector() before and after Train"])

p("P16", "LexVec trains each pair towards its co-occurrence relation",
  "With the collocation relation, every LexVec step on an occurrence and one of its context words pulls the two word vectors towards an inner product equal to the pair's co-occurrence count, and then, the configured number of times, pulls the word's vector and the context vector of a randomly drawn vocabulary word towards that drawn pair's count (zero if they never co-occur). With the log-collocation relation the targets are the logarithms of the counts; with the pointwise mutual information relation they are log(count * words^s / (frequency * frequency^s)) for the smoothing s, where of the two frequencies of a pair the same one is raised to s however the pair is met (with s = 1 it makes no difference), and with its positive variant those below zero are zero. No other vectors are changed.",
  ["inputs", "configurations"], "every text, window, sample size and random draw",
  "no test trains LexVec",
  ["pkg/model/lexvec/lexvec.go", "pkg/model/lexvec/item.go"],
  [("relation table", "makeItems, calculateRelation"), ("step", "trainOne, update")], observe=["Model.WordVector() before and after Train"])

p("P17", "Exported vectors are the model's own, single or aggregated, as copies",
  "After training, the single word vectors are one row per vocabulary word in word-number order with the configured dimension holding the word's own vector, and the aggregated vectors add to it the word's context vector for the models that keep one (word2vec with negative sampling, GloVe, LexVec; with hierarchical softmax both are equal). Asking for vectors never changes the model, and changing a returned matrix never affects the model or later results. Saving with a vector type writes exactly the vectors returned for that type.",
  ["configurations", "histories", "inputs"], "every model, optimizer, vector type, text, and order of export calls",
  "no test exports vectors",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go", "pkg/model/modelutil/matrix/matrix.go"],
  [("export", "WordVector"), ("row storage", "matrix.Slice")], observe=["Model.WordVector()", "Model.Save()"])

p("P18", "Saved vectors load back as the same words and values",
  "Saving writes exactly one line per vocabulary word, in word-number order: the word followed by its values with six decimals, separated by spaces. Loading that output returns the same words in the same order with the same dimension and the values rounded to six decimals, and each loaded norm is the Euclidean norm of its vector, for every vocabulary, every vector dimension and every value including negative, huge, infinite and not-a-number ones. A matrix whose row count differs from the vocabulary is refused.",
  ["inputs"], "every vocabulary (any non-blank words), every dimension and value, every read chunking when loading back",
  "tests parse one five-dimensional line and never save",
  ["pkg/model/modelutil/vector/vector.go", "pkg/embedding/embedding.go", "pkg/embedding/embutil/embutil.go"],
  [("writer", "vector.Save"), ("line parser", "embedding.Load")], observe=["vector.Save() output", "embedding.Load() result"])

p("P19", "A failed write is reported by saving",
  "If the destination fails to accept any part of the output, saving returns a non-nil error, whatever the position of the failure and also when it only shows at the final flush; what was accepted is a prefix of the correct output. If saving returns nil, the destination has received the complete output.",
  ["fault_sequences", "crash_points"], "every byte position at which the destination starts to fail or accepts only part of a write",
  "no test saves",
  ["pkg/model/modelutil/vector/vector.go", "pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go"],
  [("buffered writer and flush", "vector.Save")], observe=["vector.Save() / Model.Save() result"])

p("P20", "Loading vectors is all-or-nothing and validates every line",
  "Loading a vector file succeeds exactly when every line that does not start with a space consists of a word and at least one further field and all further fields are numbers; it then returns one entry per such line in file order. Otherwise, or when reading fails, it returns an error and no entries. A searcher is only created when all entries have the same dimension.",
  ["inputs", "fault_sequences"], "every sequence of well-formed, skipped and malformed lines, every position of a read failure, every mix of dimensions",
  "tests load one well-formed file",
  ["pkg/embedding/embedding.go", "pkg/search/search.go"],
  [("line validation", "parse, parseLine, Embedding.Validate"), ("dimension check", "Embeddings.Validate, search.New")], observe=["embedding.Load()", "search.New()"])

p("P21", "Similarity search returns the true nearest neighbours, ranked",
  "A search for k neighbours returns min(k, c) entries, where c is the number of searched words (the query word itself excluded when searching by word) with positive cosine similarity to the query, and these are the most similar ones with their exact cosine similarity, in non-increasing order and ranked 1,2,3,... without gaps, blanks or duplicates. A non-positive k returns no neighbours; searching by an unknown word is an error. None of this ever crashes.",
  ["inputs", "configurations"], "every set of vectors (zero vectors, ties, duplicates of directions, NaN), every query of the same dimension, every k including zero, negative and larger than the number of words",
  "two tests search four vectors with k=1",
  ["pkg/search/search.go", "pkg/search/searchutil/searchutil.go", "pkg/embedding/embutil/embutil.go"],
  [("bounded insertion", "(*Searcher).Search"), ("cosine", "searchutil.Cosine")], [("neighbors / low", "current top-k and admission threshold", "pkg/search/search.go")],
  ["Searcher.Search / SearchInternal / SearchVector"])

p("P22", "Searches never interfere with each other",
  "A search changes neither the loaded vectors nor the query it was given, and the result it returned is never changed by anything done later, nor does what its receiver does with it affect any later search. Any number of searches running concurrently on the same searcher return exactly what each of them returns when run alone, without data races.",
  ["schedules", "histories"], "every sequence and every interleaving of searches with different queries and k on one searcher",
  "tests run each searcher once",
  ["pkg/search/search.go", "pkg/embedding/embedding.go"], [("no shared mutable state", "(*Searcher).Search")], observe=["Searcher methods"])

p("P23", "The console evaluates each line on its own and ends cleanly",
  "For each input line the console shows: for a known word (spelled as an identifier), its nearest neighbours; for 'a + b' or 'a - b' over known words, the nearest neighbours of the sum or difference vector, excluding a and b; for anything else, including an unknown word on either side or another operator, a message and no neighbours. The answer to a line never depends on earlier lines, and an empty line shows nothing. The session ends with success on 'exit' and at the end of input.",
  ["histories", "inputs"], "every sequence of input lines, every position of unknown words, end of input at any point",
  "the console package has no test",
  ["pkg/search/console/console.go", "pkg/search/console/op.go", "cmd/query/console/console.go"],
  [("expression evaluation and cursor reset", "(*Console).eval, evalBinaryExpr"), ("prompt loop", "(*Console).Run")],
  [("cursor", "operands and vector of the current line", "pkg/search/console/console.go")], ["standard output of 'wego console'"])

p("P24", "Training commands never clobber files and only succeed with a complete result",
  "A training command never changes a file that already exists at its output path. It exits with status zero exactly when it has written a complete vector file, one line per vocabulary word, creating missing parent directories; it exits non-zero with a message when the output already exists, the input is missing or cannot be read, or a setting is invalid, and then leaves no output file behind, so that the corrected command can be repeated. The query command prints the ranked neighbours of exactly one given word and exits non-zero when the vectors cannot be loaded, the word is unknown or not exactly one word is given.",
  ["histories", "inputs", "configurations"], "every sequence of commands over every state of input, output and parent directory",
  "no test runs a command",
  ["cmd/model/word2vec/word2vec.go", "cmd/model/glove/glove.go", "cmd/model/lexvec/lexvec.go", "cmd/query/query.go", "wego.go"],
  [("existence checks and output creation", "execute")], observe=["exit status, standard output and the file system after a command"])

p("P25", "Every setting changes exactly its own hyper-parameter",
  "Each command-line flag of a training command and each functional option of the Go SDK sets exactly the one hyper-parameter it names to the given value and leaves all others alone, in any combination and order, the last setting winning. Settings that are not given have the same default values on the command line and in the SDK.",
  ["configurations", "histories"], "every subset and order of settings, every model",
  "no test touches options",
  ["pkg/model/word2vec/options.go", "pkg/model/glove/options.go", "pkg/model/lexvec/options.go", "cmd/model/cmdutil/cmdutil.go", "cmd/query/cmdutil/cmdutil.go"],
  [("flag binding", "LoadForCmd"), ("functional options", "ModelOption constructors")], observe=["Options values after parsing / applying"])

p("P26", "Unknown model, optimizer, solver, relation, counting or vector types are refused",
  "Training with an unknown word2vec model or optimizer type, an unknown GloVe solver or counting type, or an unknown LexVec relation on a text that has co-occurrences returns an error, and saving with an unknown vector type returns an error and writes nothing. No unknown name is ever silently treated as one of the known ones, and every known name is accepted.",
  ["configurations", "inputs"], "every combination of known and unknown names (near misses, empty, case variants), both corpus modes",
  "one test tries one unknown counting type on the counter itself",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/item.go", "pkg/model/modelutil/vector/vector.go", "pkg/corpus/cooccurrence/cooccurrence.go"],
  [("type switches with error default", "Train, makeItems, co.New, Save")], observe=["Train() / Save() result"])

p("P27", "Training a model again starts afresh",
  "Training a model that has been trained before, on the same or another text, gives the same vocabulary, performs the same training work with the same learning rates and exports vectors of the same shape as a newly created model with the same settings: nothing of the earlier training (vocabulary, counts, learning rate, vectors) carries over. This also holds when the earlier training failed.",
  ["histories"], "every sequence of trainings on different texts with one model object, including failed ones",
  "no test trains even once",
  ["pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go"],
  [("re-initialisation at the start of training", "Train")], [("currentlr, corpus, param", "per-model training state", "word2vec.go, lexvec.go, glove.go")],
  ["Model.Train / WordVector / Save sequences"])

p("P28", "Hierarchical softmax trains along the word's own tree path",
  "In word2vec with hierarchical softmax each training step changes only the inner nodes on the path from the root to the trained word (the first max-depth nodes of that path when max-depth is positive, the whole path when it is 0), moving each towards branch code 0 or 1 of the next path node as the word's code requires, and moves the context vectors accordingly.",
  ["inputs", "configurations"], "every text (hence every frequency distribution), every max-depth, both model types",
  "no test trains with hierarchical softmax",
  ["pkg/model/word2vec/optimizer.go", "pkg/corpus/dictionary/node/node.go", "pkg/corpus/dictionary/huffman.go"],
  [("path walk", "hierarchicalSoftmax.optim")], observe=["Model.WordVector() before and after Train"])

p("P29", "Progress output states true totals and never alters the outcome",
  "In verbose mode, loading reports the number of words and of co-occurring position pairs actually read and of distinct co-occurring pairs built, each iteration reports the number of eligible word occurrences (GloVe: co-occurring pairs) it went through, and saving reports the number of words written; each final report is preceded by one at every multiple of the logging interval, and nothing is reported otherwise. Switching verbose mode on or off, with any positive logging interval, changes neither the result of training and saving nor the files written.",
  ["configurations", "schedules"], "every text, model, mode and logging interval",
  "no test runs in verbose mode",
  ["pkg/util/verbose/verbose.go", "pkg/model/word2vec/word2vec.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go", "pkg/corpus/fs/fs.go", "pkg/corpus/memory/memory.go", "pkg/model/modelutil/vector/vector.go"],
  [("verbose callbacks", "verbose.Do")], observe=["standard output", "Model.Save() output"])

p("P30", "Every training step is the update rule of its model, in numbers",
  "The vectors a training returns are exactly what its update rules make of the initial vectors, for inputs of any magnitude. Negative sampling: for the target word (label 1) and then each drawn word (label 0), with the input vector x (skip-gram: the context word's vector; CBOW: the sum of the context words' vectors) and the word's context vector y, the gradient is g = rate * (label - sigmoid(x.y)), where sigmoid is the logistic function to the resolution of the table (1000 entries over -6..6) and exactly 0 below and 1 above that range; y changes by g*x, and x (CBOW: each context word's vector) by the sum over all these words of g*y, with y as it was before that step. Hierarchical softmax: the same for the inner nodes on the path of the target word, label 1 where the path's next code is 0; nodes whose inner product is out of the range contribute nothing. GloVe: diff = weight * rate * (x.y + both biases - log value), weight = min(1, (value/xmax)^alpha); SGD subtracts diff*y from x, diff*x from y and diff from both biases; AdaGrad divides each of these by the root of the accumulated squares, which start at 1, of that coordinate (for the vectors including the present step, for the biases before it). LexVec: diff = rate * (x.y - relation value), diff*y is subtracted from x and diff*x from y, the values before the step being used for both.",
  ["inputs", "configurations", "schedules"], "every text, every configuration of the three models, every choice of windows, draws and item orders, every initial vector; learning rates of any size",
  "only one value of the sigmoid table is tested; no test executes a training step",
  ["pkg/model/word2vec/optimizer.go", "pkg/model/word2vec/sigmoid_table.go", "pkg/model/word2vec/model.go", "pkg/model/glove/solver.go", "pkg/model/glove/glove.go", "pkg/model/lexvec/lexvec.go"],
  [("update formulas", "negativeSampling.optim, hierarchicalSoftmax.optim, skipGram/cbow.trainOne, stochastic/adaGrad.trainOne, lexvec.update")], observe=["WordVector(Single)/WordVector(Agg) before and after a training"])

p("P31", "Subsampling decides every occurrence independently, by the word's frequency",
  "In word2vec and LexVec, each occurrence of a word of (absolute) frequency f in each iteration is trained with probability max(0, 1 - sqrt(threshold/f)), decided independently of every other occurrence and iteration: with threshold 0 every occurrence is trained, a word no more frequent than the threshold is never trained, and words occurring more often are trained relatively more often. An occurrence that is not trained is still there as context of the occurrences around it.",
  ["inputs", "configurations"], "every text, frequency and threshold, both corpus modes, any window, any number of workers", "no test covers subsampling",
  ["pkg/model/modelutil/subsample/subsample.go", "pkg/model/word2vec/word2vec.go", "pkg/model/lexvec/lexvec.go"], [("Bernoulli trial", "Subsampler.Trial"), ("one trial per occurrence", "trainPerThread")],
  observe=["Subsampler.Trial()", "WordVector(Single)/WordVector(Agg) before and after a training"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
