prop("P01", "Phrase tables: counts, lookups and N-best lists follow the update history",
 "After any sequence of entry additions, count increments, clears and (for the disk-based table) reopenings, every phrase table answers every source, target and joint count, probability, per-source and per-target listing, iteration and size query as the history of updates implies, and no query changes the table. An N-best request returns the entries of the requested phrase ordered by decreasing score and limited to the requested number, and a phrase that was never entered is reported as absent with count zero. The in-memory, hat-trie and LevelDB tables agree on all of this.",
 ["histories", "inputs"], "every operation sequence up to the bound over a small universe of phrases (including phrases that are prefixes of one another and word indices around the byte and 254 boundaries of the key encoding), for each of the three tables",
 "the unit tests run a handful of fixed sequences per table; they sample neither the interleavings of updates and queries nor the encoding of other word indices",
 ["src/phrase_models/StlPhraseTable.cc", "src/phrase_models/HatTriePhraseTable.cc", "src/phrase_models/LevelDbPhraseTable.cc"],
 [("count bookkeeping of addTableEntry/incrCountsOfEntry", "src/phrase_models/*PhraseTable.cc"), ("order-preserving key encoding", "HatTriePhraseTable::vectorToKey, LevelDbPhraseTable::vectorToKey")],
 "Every history within the bounds is executed on the real tables and compared with a map-based reference after every step; longer histories and larger universes are only covered by the structured growth scenario.")

prop("P02", "Phrase extraction yields exactly the consistent phrase pairs",
 "For every word alignment and every extraction setting (maximum phrase lengths, monotonicity, and widening over unaligned source words), the extracted phrase pairs are exactly those consistent with the alignment, each with the weight its links imply and none twice. The bisegmentation-based variant extracts the pairs occurring in at least one complete consistent segmentation of the sentence pair, each weighted by the fraction of the segmentations that contain it, and reports the logarithm of their number.",
 ["inputs", "configurations"], "every alignment matrix up to 4x4 (and long thin shapes), every combination of the extraction settings",
 "no unit test covers extraction; the installcheck runs it on one corpus and compares nothing but the exit status",
 ["src/phrase_models/PhraseExtractionTable.cc", "src/phrase_models/PhraseExtractUtils.cc"],
 [("dynamic programming over cells", "PhraseExtractionTable::extractConsistentPhrases*")],
 "Exhaustive over the stated grids; the reference enumerates spans and segmentations directly from the definition.")

prop("P03", "Word alignment matrices and alignment files keep exactly the stated links",
 "The set operations, symmetrisation heuristics, transposition, flipping and predicates on word alignment matrices give the links their definitions imply, and converting between a matrix and an alignment vector loses nothing. Reading GIZA-format alignment files, printing them, combining two of them sentence by sentence (including with transposition) and storing them in an alignment container yields the links of the files for every sentence pair.",
 ["inputs", "programs"], "every pair of matrices within the grid bounds and every alignment file of the bounded shape, for every operation",
 "no existing test constructs an alignment matrix",
 ["src/nlp_common/WordAligMatrix.cc", "src/phrase_models/AlignmentExtractor.cc", "src/phrase_models/AlignmentContainer.cc"],
 [("matrix operators", "WordAligMatrix.cc"), ("GIZA file parser", "AlignmentExtractor::getNextAlignment"), ("file operations", "AlignmentExtractor::join/intersect/sum/symmetr*")],
 "Exhaustive over all matrix pairs up to 3x3/2x4 and files of up to two sentence pairs.")

prop("P04", "N-gram language models give the interpolated probabilities of their counts",
 "Whether its n-gram counts come from a count file in any line order, from incremental training or from both, a language model returns for every history and word the bucketed Jelinek-Mercer interpolation of the relative frequencies down to the uniform distribution, which adds up to one over the vocabulary for seen histories. Sentence probabilities, the probabilities obtained through language model states, perplexities and count queries are the ones those probabilities and counts imply. Saving, reloading, reopening and converting the model to its LevelDB form change none of this.",
 ["inputs", "histories", "configurations"], "every training corpus, history, word, test sentence, weight table and order within the bounds; every operation sequence on the n-gram tables",
 "the unit tests only exercise fixed sequences on the LevelDB n-gram table; the installcheck trains one model and compares no probability",
 ["src/incr_models/_incrNgramLM.h", "src/incr_models/_incrJelMerNgramLM.h", "src/incr_models/vecx_x_incr_cptable.h", "src/incr_models/LevelDbNgramTable.cc", "src/nlp_common/BaseNgramLM.h", "src/nlp_common/BaseIncrNgramLM.h"],
 [("recursive interpolation", "_incrJelMerNgramLM::pTrgGivenSrcRec"), ("incremental count collection", "BaseIncrNgramLM::collectNgramCounts"), ("shared key space of histories and n-grams", "LevelDbNgramTable")],
 "Exhaustive for orders 1-3 over the bounded corpora; longer texts and larger vocabularies only through the growth scenario.")

prop("P05", "Alignment model inference equals the sum and maximum over all alignments",
 "For every sentence pair and every parameter setting of the IBM 1, IBM 2 and HMM alignment models (smoothed or not, in memory or LevelDB), the probability of a sentence pair is the sum over all its alignments of the product of the model's own word translation, alignment and length probabilities, and the reported best alignment attains the maximum of that product. The different entry points (words or indices, cached, partial, phrase and single-alignment probabilities, log-likelihood) agree with that, and cached values never change a result. Word translation and alignment probabilities are non-negative and add up to at most one.",
 ["inputs", "configurations"], "every sentence pair up to the length bound over small vocabularies, for every trained model of every bounded corpus",
 "the unit tests compare a few lexical probabilities after fixed insertions; no inference result is tested",
 ["src/sw_models/IncrIbm1AligModel.cc", "src/sw_models/IncrIbm2AligModel.cc", "src/sw_models/_incrHmmAligModel.cc", "src/sw_models/IncrHmmP0AligModel.cc", "src/sw_models/SmoothedIncrIbm1AligModel.cc"],
 [("forward and Viterbi recursions", "_incrHmmAligModel::calcSumIncrHmmLgProb, bestAligGivenVMatrices"), ("caches of translation and alignment scores", "_incrHmmAligModel::nextSrcIdx, CachedHmmAligLgProb")],
 "Exhaustive over the bounded corpora and sentence pairs; longer sentences only through the growth scenario.")

prop("P06", "Alignment model training performs incremental expectation maximisation",
 "After any sequence of batch training, incremental training over any range of sentence pairs and additions of sentence pairs, the word translation, alignment and sentence length parameters of the IBM 1, IBM 2 and HMM models are those of incremental expectation maximisation, in which each trained pair replaces its previous expected counts by the ones the current parameters give. Every parameter stays a probability, and iterating over a corpus never decreases the likelihood of the IBM models.",
 ["histories", "inputs"], "every training history up to the depth bound over every bounded corpus",
 "the unit tests train nothing; the installcheck only looks at exit statuses",
 ["src/sw_models/IncrIbm1AligModel.cc", "src/sw_models/IncrIbm2AligModel.cc", "src/sw_models/_incrHmmAligModel.cc", "src/sw_models/anjiMatrix.cc", "src/sw_models/WeightedIncrNormSlm.cc"],
 [("sufficient statistics replaced per sentence pair", "IncrIbm1AligModel::fillEmAuxVars, updatePars"), ("batch updates in log space", "obtainLogNewSuffStat")],
 "Exhaustive over histories up to the depth bound; the reference is a double precision EM that keeps the expected counts per sentence pair; tolerance 1e-3.")

prop("P07", "Word alignment models survive being saved and reloaded",
 "After any training history, a saved and reloaded IBM 1, IBM 2 or HMM model (in memory or LevelDB, into a fresh or an already used object) has the same vocabularies, sentence pairs with their counts, parameters, translation lists and inference results as the saved one. Training can go on from the reloaded model with the same result as without the interruption. Saving over existing files, including those the model was loaded from, leaves exactly the saved model.",
 ["histories", "inputs"], "every training history before and after the save up to the depth bound, over every bounded corpus, restriction on kept expectations, and kind of target object",
 "no test saves or loads an alignment model",
 ["src/sw_models/_incrHmmAligModel.cc", "src/sw_models/IncrIbm1AligModel.cc", "src/sw_models/IncrIbm2AligModel.cc", "src/sw_models/anjiMatrix.cc", "src/sw_models/anjm1ip_anjiMatrix.cc", "src/sw_models/LightSentenceHandler.cc", "src/sw_models/IncrLexLevelDbTable.cc"],
 [("file set of a model prefix", "load/print of each model class"), ("kept expectations with size mapping", "anjiMatrix::load, load_maxnsize_data"), ("lazily read sentence files", "LightSentenceHandler::printSentPairs")],
 "Exhaustive over the stated histories; the oracle is the uninterrupted model run side by side.")

prop("P08", "Edit distance models compute minimal edit scripts",
 "For every pair of strings, integer sequences or word sequences and every weighting of hits, insertions, substitutions and deletions, the reported distance is the minimum cost over all edit scripts, the reported operations or operation counts have exactly that cost, and transform the first sequence into the second. The prefix variants give the minimum over all prefixes of the first sequence, completing an unfinished last word. Incremental row-by-row computation with or without cache gives the same values as the computation from scratch for every way of splitting the prefix.",
 ["inputs", "histories"], "all pairs of sequences up to a length over small alphabets, all error models of a set, all ways of cutting a prefix into increments",
 "the unit tests check a few distances of fixed strings",
 ["src/error_correction/EditDistForStr.cc", "src/error_correction/EditDistForVec.h", "src/error_correction/EditDistForVecString.cc", "src/error_correction/_editDist.h", "src/error_correction/NonPbEcModelForNbUcat.cc"],
 [("dynamic programming matrices and back-tracking", "calculateEditDistOps, calculateEditDistPrefixOps"), ("incremental matrices", "incrEditDistPrefix, incrEditDistPrefixFirstRow")],
 "Exhaustive within the stated lengths; the reference enumerates edit scripts by an independent recursion.")

prop("P09", "Word graph operations keep the set of scored paths",
 "Every query of a word graph (best paths with excluded arcs and other weights, rest and previous scores, n-best lists with their components, adjacency) agrees with the enumeration of all its paths. Ordering, reducing to useful states, printing and loading keep the paths, their scores, words and components, in any order of these operations; pruning removes exactly the arcs whose best complete path is worse than the threshold and never the best path. thot_wg_proc writes these results to its files.",
 ["inputs", "histories"], "all acyclic graphs over 4 states with up to 4 or 5 arcs, all operation sequences up to a depth, all arc insertion orders",
 "no unit test reads a word graph",
 ["src/error_correction/WordGraph.cc", "src/error_correction/NbSearchStack.cc", "src/error_correction/thot_wg_proc.cc"],
 [("forward and backward dynamic programming", "calcPrevScores, calcRestScores, bestPathFromFinalStateToIdx"), ("A* n-best search", "obtainNbestList"), ("state remapping", "obtainWgComposedOfUsefulStates, orderArcsTopol"), ("text format", "print, load")],
 "Exhaustive over the stated graphs and histories; the reference enumerates the paths of a plain list of arcs. Cycles, final states with outgoing arcs and words equal to the separator ||| at the start of arcs without components are excluded.")

prop("P10", "Error correction models correct a sentence at minimal cost",
 "Given a sentence and a prefix the user validated, both error correction models return a sentence that starts with the prefix (completing its last word if it is unfinished) and continues with the rest of the sentence after one of its minimum cost alignments to the prefix. The scores they give while words of the prefix are added one by one, and after any history of changed prefixes, equal the weighted edit distance of each prefix of the sentence. Weights are accepted or refused as a whole.",
 ["inputs", "histories"], "all sentences and prefixes up to a length over a small vocabulary, all histories of prefix additions and removals up to a depth, several weightings",
 "no unit test covers error correction models",
 ["src/error_correction/PfsmEcm.cc", "src/error_correction/PfsmEcmForWg.cc", "src/error_correction/NonPbEcModelForNbUcat.cc", "src/error_correction/_editDistBasedEcm.cc"],
 [("edit distance based correction", "correctStrGivenPref, correctStrGivenPrefWg"), ("incremental state information", "updateScoreInfo, PfsmEcmForWg::EcmScoreInfo")],
 "Exhaustive within the stated lengths; the reference enumerates the set of minimal corrections. Correcting an empty sentence with NonPbEcModelForNbUcat is excluded.")

prop("P11", "Interactive corrections extend the prefix and come from the word graph",
 "For every word graph, every text the user typed and every set of rejected words, the corrections offered extend the typed text, are a minimal cost correction of the start of a path of the graph followed by the best rest of the path that respects the rejected words, and come sorted and at most as many as asked for. Where each state is reached by one path they are exactly the best ones with their scores. After any history of longer, shorter or changed texts the corrections equal those of a fresh processor.",
 ["inputs", "histories"], "all small word graphs, all typed texts up to two words, all histories of changes of the text up to a depth, all rejections of a set",
 "no unit test covers interactive translation",
 ["src/error_correction/WgProcessorForAnlp.h", "src/error_correction/PfsmEcmForWg.cc", "src/error_correction/WgHandler.cc"],
 [("incremental scores per state and prefix position", "updateWgpInfoForArc, getValidProcPrefixVec"), ("n-best states and positions inside arcs", "obtainNbestHypStates, obtainNbestHypSubStates"), ("rejected words", "wordSatisfiesRejWordConstraint")],
 "Exhaustive over the stated graphs and histories; the reference enumerates paths, positions and minimal corrections. Optimality is decided on trees; one known finding about states reached by several arcs.")

prop("P12", "The decoder finds the best translation of its log-linear model",
 "With unlimited stacks and no heuristic the decoder returns a derivation whose weighted feature sum is the maximum over all ways to segment, reorder within the jump limit and translate the source sentence, for every phrase table, language model, weighting and interpolation with word models. With limited stacks and any heuristic it still returns a complete derivation made of allowed phrases, and the score and feature components it reports are those of that derivation. Translations for a prefix or a reference start with or equal it, and no result depends on sentences decoded before.",
 ["inputs", "configurations"], "all source sentences up to a length over small vocabularies, phrase tables and language models of a family, all combinations of decoder settings, all histories of requests up to a depth",
 "no unit test runs the decoder",
 ["src/stack_dec/_pbTransModel.h", "src/stack_dec/PbTransModel.h", "src/stack_dec/_stackDecoderRec.h", "src/stack_dec/_smtMultiStackRec.h", "src/stack_dec/multi_stack_decoder_rec.h", "src/stack_dec/SmtStack.h"],
 [("hypothesis expansion and options", "_pbTransModel::expand, extendHypDataIdx"), ("stack search with recombination", "_stackDecoderRec::decode, pushGivenPredHyp"), ("features", "LangModelFeat, DirectPhraseModelFeat, SrcPosJumpFeat")],
 "Exhaustive within the stated bounds; the reference enumerates derivations. Optimality with equivalence classes merged by jump count (more than one hypothesis expanded per iteration) is not claimed.")

prop("P13", "The decoder's word graph represents exactly the translations explored",
 "Every path of the word graph a search leaves behind is a derivation of the source sentence with its score and feature components, the translation returned is one of the paths, and when a monotone search keeps every hypothesis the paths are exactly all derivations. N-best lists hold distinct paths sorted by score, pruning never loses the best path nor paths within the threshold, and the printed graph and table of states describe the same graph. Searches with a prefix or a reference leave only paths that respect it, and a reused decoder leaves the graph of its last sentence only.",
 ["inputs", "configurations"], "all source sentences up to a length over small vocabularies, phrase tables of a family, all combinations of search settings, all histories of requests up to a depth",
 "no unit test produces a word graph",
 ["src/stack_dec/_stackDecoderRec.h", "src/stack_dec/HypStateDict.h", "src/error_correction/WordGraph.cc", "src/stack_dec/_pbTransModel.h"],
 [("arcs from hypothesis expansions", "_stackDecoderRec::addArcToWordGraph"), ("state dictionary", "getHypStateIndex, printHypStateIdxInfo"), ("n-best search", "WordGraph::obtainNbestList")],
 "Exhaustive within the stated bounds; the reference enumerates derivations and paths. After printing with components the scores in memory no longer contain the heuristic of the initial state; only the file is judged then.")

prop("P14", "Translation constraints are understood and obeyed",
 "Phrase annotations in a source sentence, in XML or JSON, are understood as the sentence without annotations plus the demanded translation of each annotated phrase, whatever the spacing and whatever was parsed before; anything that is no well-formed annotation is kept as words or ignored, never a crash. A translation is accepted if and only if every annotated phrase is a segment of its own translated as demanded. The decoder always finds a translation that obeys the annotations, and with unlimited stacks the best one.",
 ["inputs", "configurations"], "all sentences of annotated and plain phrases up to a length, all segmentations in every order, all decoder settings of a set",
 "no unit test covers translation metadata",
 ["src/stack_dec/TranslationMetadata.h", "src/stack_dec/JsonTranslationMetadata.h", "src/stack_dec/_pbTransModel.h"],
 [("annotation parsers", "obtainTransConstraints, constraintFound, addTranslations"), ("validation", "transViolatesSrcPhrConstraint"), ("use in expansion", "_pbTransModel::expand, getTransForHypUncovGap")],
 "Exhaustive within the stated bounds; annotations whose segments contain other tags are not judged. JSON phrases are matched from left to right; phrases after one that is not found are not demanded.")

prop("P15", "Quality measures equal their definitions",
 "For every pair of translations and references, BLEU, chrF and WER as computed by the scorers, the library functions over files and the command line tools equal their textbook definitions (clipped n-gram matches, brevity penalty, F-score of character n-grams, word edit distance over reference length). BLEU and chrF lie between zero and one, and the value of a corpus comes from the statistics of all its sentences. Background statistics of online learning follow the exponential decay of the sentences seen since the last reset.",
 ["inputs", "histories"], "all pairs of sentences up to a length over small alphabets, all small corpora, all background histories up to a depth",
 "the unit tests compare eight sentence pairs for chrF and none for BLEU or WER",
 ["src/stack_dec/bleu.cc", "src/stack_dec/chrf.cc", "src/stack_dec/MiraBleu.cc", "src/stack_dec/MiraChrF.cc", "src/stack_dec/MiraWer.cc", "utils/stack_dec/thot_calc_wer.py"],
 [("clipped n-gram counts", "prec_n, count_ngrams"), ("combination", "calc_bleuf, MiraBleu::scoreFromStats, calculate_chrf"), ("edit distance", "MiraWer::ed")],
 "Exhaustive within the stated lengths. Pinned: the file measure takes missing n-gram orders as precision zero, the scorer as one. Empty reference files are not judged.")

prop("P16", "Weight learning follows K-best MIRA",
 "For every set of n-best lists with references, the weights K-best MIRA returns are the average weights of the epoch that translates best over all epochs and restarts (the initial weights when no epoch has positive quality), with the dimension of the initial weights, where each step moves towards the candidate of high score and quality and away from that of high score and low quality by at most C. Every epoch visits each sentence exactly once, in whatever order the random numbers give. An update depends on its own input only, not on earlier updates.",
 ["inputs", "schedules", "histories"], "all small n-best lists with features and qualities of a set, all outcomes of the random numbers that order the sentences",
 "the unit tests run two examples with one order",
 ["src/stack_dec/KbMiraLlWu.cc", "src/stack_dec/KbMiraLlWu.h", "src/stack_dec/BaseMiraScorer.h"],
 [("update and early stopping", "KbMiraLlWu::update, updateClosedCorpus"), ("hope and fear", "KbMiraLlWu::HopeFear"), ("order of sentences", "sampleWoReplacement")],
 "Exhaustive within the stated bounds with rand() under the checker's control. Empty n-best lists and the uniformity of the order are not claimed.")

prop("P17", "Tuning by downhill simplex returns the best point found and never worsens",
 "For every sequence of function values, the step-by-step minimiser asks for the points of the Nelder-Mead method (reflection 1, expansion 2, contraction and shrinkage 1/2, every moved vertex evaluated again) and returns the best of all points evaluated, or an error when the tolerance is not reached within the iteration limit. It depends only on the values known, so a run of the tool interrupted after any number of evaluations and resumed from its values gives the same result, fixed variables stay fixed. Tuning the weights of the language model or the phrase models never worsens the measure they are tuned on and leaves weights in [0,1).",
 ["inputs", "histories", "crash_points"], "all values of the first evaluations from a small set, all interruption points, all small training and development corpora",
 "no unit test covers the minimiser; the install check tunes one model",
 ["src/downhill_simplex/step_by_step_dhs.c", "src/downhill_simplex/thot_dhs_step_by_step_min.cc", "utils/downhill_simplex/thot_dhs_min.sh", "src/stack_dec/WeightUpdateUtils.cc", "src/incr_models/_incrJelMerNgramLM.h"],
 [("minimiser", "step_by_step_simplex"), ("conversation with the target function", "get_next_funk, thot_dhs_min.sh"), ("users", "updatePmLinInterpWeights, updateModelWeights")],
 "Exhaustive within the stated bounds against an independent minimiser. What happens after all vertices had equal values and the reflection improves is not judged; neither are target values that are not numbers.")

prop("P18", "The containers under the models behave as maps, sets and lists",
 "For every history of operations, ordered vectors, tries, tries of vectors, hat-tries, bit sets and n-best lists hold exactly what the corresponding mathematical map, set or sorted list holds. Lookup, prefix ranges, iteration, copying, assignment, erasure, pruning and clearing all agree with it, and a copy does not share state with its original. This holds for every key, including empty, very long and arbitrary byte strings, and while nodes split.",
 ["histories", "inputs"], "all histories of operations up to a depth from small key sets, all subsets of key pools that split nodes",
 "the unit tests exercise the containers only through models, with one history each",
 ["src/nlp_common/OrderedVector.h", "src/nlp_common/Trie.h", "src/nlp_common/TrieVecs.h", "src/nlp_common/Bitset.h", "src/nlp_common/NbestTableNode.h", "src/nlp_common/NbestTransTable.h", "src/hat_trie/htrie_hash.h"],
 [("sorted insertion and search", "OrderedVector::insert, findPtr"), ("tree structure", "Trie::insert, Trie::clear, TrieVecs"), ("node bursting and erasure", "htrie_hash::insert, burst, erase_prefix")],
 "Exhaustive within the stated bounds. Hat-trie keys above 65535 bytes, which the library rejects, are not used; operations that do not compile when instantiated (Trie::erase) are not claimed.")

prop("P19", "Length, segmentation and completion models equal their definitions",
 "For every history of training, the sentence length model gives the normal distribution of the weighted mean and variance of the lengths seen (a default one for unseen lengths), its probabilities sum to at most one and its sums are distribution functions, and segmentation and cut models and the word penalty equal their distributions. The word predictor completes every prefix with the suffixes of the words seen, by frequency, counting only complete batches of retained sentences. Vocabularies map words to distinct indices one to one, also after loading a file with gaps, and the arithmetic below (log sums, factorials, distributions) is exact up to rounding.",
 ["histories", "inputs"], "all histories of updates up to a depth, all lengths and segmentations of a range, grids of arguments including extremes",
 "the unit tests sample a few lengths and no completion or segmentation model",
 ["src/incr_models/WordPredictor.cc", "src/incr_models/WordPenaltyModel.cc", "src/sw_models/WeightedIncrNormSlm.cc", "src/phrase_models/SegLenTable.cc", "src/phrase_models/SrcSegmLenTable.cc", "src/phrase_models/TrgSegmLenTable.cc", "src/phrase_models/TrgCutsTable.cc", "src/nlp_common/SingleWordVocab.cc", "src/nlp_common/MathFuncs.cc"],
 [("incremental variance", "WeightedIncrNormSlm::trainSentPair"), ("completion", "WordPredictor::getSuffixList, addSentence"), ("index assignment", "SingleWordVocab::addSrcSymbol, addTrgSymbol"), ("log arithmetic", "MathFuncs")],
 "Exhaustive within the stated bounds. The list of completions keeps one word per frequency (the interface is a map keyed by frequency). For uniform target segments before another segment only a total of at most one is claimed.")

prop("P20", "Text, options and descriptors are read as written",
 "For every text file, the line reader delivers each line and each field exactly once and in order, whatever blanks, empty lines or missing final newline it has, and copying, rewinding, reopening or closing a stream leaves it in the state that follows from the operations. Words, prefixes and blanks of strings are found as defined, and command lines and parameter files yield the values that follow each option. Model descriptors yield exactly their entries that are not commented out, and printing and reading them again yields the same.",
 ["inputs", "histories"], "all files and strings up to a length over a small alphabet, all command lines, parameter files and descriptors of a few lines, all histories of stream operations up to a depth",
 "the unit tests sample a handful of strings",
 ["src/nlp_common/AwkInputStream.cc", "src/nlp_common/StrProcUtils.cc", "src/nlp_common/options.cc", "src/nlp_common/ModelDescriptorUtils.cc"],
 [("fields", "AwkInputStream::get_NF, retrieveField"), ("words", "StrProcUtils"), ("options", "readSTLstring, readFloatSeq, isOption"), ("descriptors", "extractModelEntryInfo, fileIsDescriptor")],
 "Exhaustive within the stated bounds. NUL bytes, copies of streams not opened by name, and comments without a blank after # are not judged.")

prop("P21", "Client and server exchange complete messages and requests",
 "However the network splits, delays, interrupts or ends a byte stream, every integer and string sent arrives unchanged or the receiver gets an error, never a wrong or partial value. Each complete request of a client reaches the decoder once with its user and arguments, after that user was initialised successfully, and the client gets the decoder's answer, or an error when there is none. Clients that go away or send nonsense, failing initialisations and failing system calls affect no other request, and only a complete request to end the server ends it.",
 ["inputs", "fault_sequences", "histories"], "every fragmentation of sending and receiving, every position of an end, failure or interruption, all requests and histories of clients",
 "the install check sends a handful of short requests over the loopback device, which splits nothing",
 ["src/nlp_common/BasicSocketUtils.cc", "src/stack_dec/ThotDecoderClient.cc", "src/stack_dec/thot_server.cc"],
 [("framing", "recvInt, recvStlStr, writeInt, writeStr"), ("requests", "ThotDecoderClient::send*, process_request_switch"), ("users", "init_user_pars_if_required"), ("life of the server", "start_server")],
 "Exhaustive within the stated bounds. The server's threads run one after the other here; their interleavings belong to P22. Strings with NUL bytes cannot be sent through this interface; a client that stays silent blocks the accepting thread by design.")

prop("P22", "Concurrent requests to a decoder act as in some serial order",
 "Requests of several threads to one decoder (translations, coverages, assisted sessions, online training, error-model training, new and released users, printing) always return, whatever the schedule, and give the results of executing their operations one after the other in some order. So do all later translations, sessions and printed models. No two threads access the same data without synchronisation.",
 ["schedules", "histories"], "every pair and chosen triples of requests of the same, other and new users, every schedule up to a preemption bound",
 "the tests never run two requests at once",
 ["src/stack_dec/ThotDecoder.cc", "src/stack_dec/ThotDecoderPerUserVars.h", "src/stack_dec/WgUncoupledAssistedTrans.h", "src/nlp_common/ThreadSafePrint.cc"],
 [("atomic and non-atomic operations", "wait_on_non_atomic_op_cond, begin_non_atomic_op, decrease_non_atomic_ops_running"), ("one operation per user at a time", "per_user_mut"), ("users", "get_vecidx_for_user_id, release_user_data, initUserPars")],
 "Exhaustive over schedules whose context switches happen at synchronisation operations, up to the preemption bound; interleavings of unsynchronised accesses are covered by the data race check of every execution. One configuration of models.",
 technique="stateless exploration of the real threads under a controlled scheduler, with a data race monitor, against the set of serial results")

prop("P23", "A decoder serves every history of sessions, users, training and restarts",
 "Whatever requests came before, a translation depends only on the training so far and the user's parameters, an assisted session only on that and the user's own session, and its result continues the user's prefix however it was entered. Online training gives every model exactly what the same samples train, each sample counted once, for all settings. A decoder started from printed models goes on as the one that printed them, and configuration files mean the same in any order of lines and are refused when wrong.",
 ["histories", "configurations"], "every history of requests up to a length, every sequence of trainings under all interlacing settings, all settings and forms of a configuration file",
 "no unit test runs a whole decoder; the install check translates two sentences",
 ["src/stack_dec/ThotDecoder.cc", "src/stack_dec/StdFeatureHandler.cc", "src/stack_dec/WgUncoupledAssistedTrans.h", "src/phrase_models/_incrPhraseModel.cc"],
 [("sessions", "startCat, addStrToPref, setPref, resetPrefix"), ("online training", "incrTrainFeatsSentPair, trainAligModel, addNewTransOpts"), ("printing", "printModels, StdFeatureHandler::print"), ("configuration", "initUsingCfgFile, initUserPars")],
 "Exhaustive within the bounds, on the default modules with tiny models. The restart of interlaced training (R>0) is outside: its sufficient statistics are not printed by design.")

prop("P24", "The tools for word alignment tables keep what they should of every table",
 "Sorting a table of counts keeps its entries, merging the tables of several chunks adds up the counts of every entry and condition exactly once, filtering keeps exactly the entries asked for, pruning keeps the best translations that reach the cut and renormalises them, and conversions change nothing. That holds for every table, empty ones and extreme log counts included, in binary and in text form, from files and the standard input. A missing file is reported.",
 ["inputs"], "all tables over six entries per kind, all combinations of chunks, filters and cuts",
 "no test runs these tools; they act on every table of a map-reduce training",
 ["src/sw_models/thot_merge_bin_ilextable.cc", "src/sw_models/thot_filter_bin_ilextable.cc", "src/sw_models/thot_prune_bin_ilextable.cc", "src/sw_models/thot_sort_bin_ihmmatable.cc", "utils/sw_models/thot_merge_text_ilextable.sh", "utils/sw_models/thot_prune_text_ilextable.sh"],
 [("merging", "getNextEntry, printCounts"), ("filtering", "readFiltInfoRecord"), ("pruning", "printCounts"), ("text tools", "merge_sorted_counts, prune_sorted_table")],
 "Exhaustive within the bounds, on the real programs and scripts. Truncated binary files are outside.")

prop("P25", "Phrase tables are estimated, merged, filtered and converted without loss",
 "A phrase table has the counts that the phrase pairs extracted from the aligned corpus add up to, and estimating it in chunks (map-reduce) gives the same table and segmentation lengths, above any cut-off. Merging adds up counts exactly, sorting and flipping keep every entry and order each phrase's entries by count, filtering by a test corpus keeps exactly the entries occurring in it, and limiting keeps the best options of every phrase and reports what was left out. A table converted to a database gives the same probabilities and translations.",
 ["inputs", "configurations"], "all corpora of a few aligned pairs, all tables over eight entries, with all options",
 "no test runs the phrase table scripts; the conversions are only run by the install check on one table",
 ["src/phrase_models/thot_gen_phr_model.cc", "utils/phrase_models/thot_gen_phr_model_mr.sh", "utils/phrase_models/thot_merge_counts.sh", "utils/phrase_models/thot_sort_ttable.sh", "utils/phrase_models/thot_get_nbest_for_trg.sh", "utils/phrase_models/thot_filter_ttable_given_corpus.sh", "src/phrase_models/FastBdbPhraseTable.cc", "utils/phrase_models/thot_gen_leveldb_ttable.sh"],
 [("estimation", "extendModelFromPairPlusAlig(Brf), printTTable"), ("map-reduce", "thot_gen_phr_model_mr, thot_merge_counts, thot_cut_ttable"), ("limits", "filter_nbest, thot_sort_ttable, thot_filter_ttable"), ("databases", "thot_ttable_to_leveldb, thot_ttable_to_fbdb and the models that load them")],
 "Exhaustive within the bounds, on the real programs and scripts. Phrase extraction itself is P02's; LevelDB tables keep whole counts by design, so fractional ones are outside for them.")

prop("P26", "Preparing text changes what it should and nothing else",
 "Tokenising splits text at every blank and between some characters, never loses, adds or reorders characters, and keeps plain words, numbers and the tags of annotations whole; lowercasing changes case only; removing annotations leaves the text with the source side of its phrases. Categorising replaces exactly the digits, numbers and words with digits (both sides of an annotation or neither), and undoing it puts back, for every category in a translated segment, the matching source word. Cleaning, extracting, shuffling and sampling keep parallel lines parallel, choose by the documented limits and lose no line, one line out for each line in.",
 ["inputs"], "all texts of a few characters or pieces, all alignments of short sentences, all small corpora",
 "the install check tokenises one corpus; any single character combination can break a regular expression",
 ["utils/smt_preproc/thot_smt_preproc.py", "utils/smt_preproc/thot_clean_corpus_ln.py", "utils/nlp_common/thot_shuffle.sh", "utils/nlp_common/thot_extract_sents_by_ln.sh"],
 [("tokens", "Tokenizer.tokenize, annotated_string_to_xml_skeleton"), ("categories", "categorize, categ_src_trg_annotation, decategorize_word"), ("corpora", "compute_mean_stddev, thot_shuffle, thot_extract_sents_by_ln, thot_gen_rtfile")],
 "Exhaustive within the bounds, on the real tools as installed. Text that python's float takes for a number without digits (nan, inf) is outside.")

prop("P27", "Detokenizing and recasing give the best-scoring text of the models",
 "The models of the detokenizer and the recaser hold how often each word form and n-gram occurs in the raw text, however it is divided into chunks and tokenised. Detokenized text is the given tokens in order with some blanks removed, recased text the given words with other cases, one line for each line. Among all ways the models allow, it is one with the best weighted score of translation model, language model and penalties, for every model, order, weighting and interpolation.",
 ["inputs", "configurations"], "all small raw texts, orders, weights and tables of options, all sentences of a few tokens",
 "no test runs these tools",
 ["utils/smt_preproc/thot_smt_preproc.py", "utils/smt_preproc/thot_train_rec_lm_mr.sh", "utils/smt_preproc/thot_detokenize.sh", "utils/smt_preproc/thot_recase.sh"],
 [("models", "TransModel, LangModel, merge_ngram_counts"), ("search", "Decoder.best_first_search, expand, StateInfoDict, PriorityQueue"), ("output", "detokenize, recase, obtain_detok_sent")],
 "Exhaustive within the bounds, on the real tools as installed. The language model's treatment of the unigram of the sentence start (not counted) is taken as designed; texts the tokeniser changes are outside.")
prop("P28", "N-gram counts of a text, whole or in chunks, are exact",
 "The n-gram table of a text gives for every n-gram up to the order, with the sentence marks, how often it and its history occur in the text, with words taken as strings, whether the text is counted whole or in chunks that are merged, and with the first occurrences taken as unknown words when asked. A language model loaded from the table gives every sentence the probability that a model trained with the text gives, and the perplexity tool reports the totals of that model. Repetition rates, fractions of unseen n-grams and length statistics are those of the text; no temporary file remains.",
 ["inputs", "configurations"], "all texts of a few lines, orders, chunk sizes and options, all short test sentences",
 "the tests load one language model and run none of these tools",
 ["utils/incr_models/thot_get_ngram_counts.sh", "utils/incr_models/thot_get_ngram_counts_mr.sh", "utils/incr_models/thot_merge_ngram_counts.sh", "src/incr_models/_incrNgramLM.h", "utils/incr_models/thot_repetition_rate.sh"],
 [("counting", "thot_get_ngram_counts, thot_merge_ngram_counts"), ("model", "_incrNgramLM::load_ngrams, perplexity"), ("statistics", "thot_repetition_rate, thot_corpus_represent, thot_corpus_length")],
 "Exhaustive within the bounds, on the real tools as installed. Rates of texts without n-grams of some order (a division by zero in the tool) are outside.")

prop("P29", "Batch translation and alignment treat every sentence of a text alone",
 "The batch translator prints, one line per line of the text, the translation that a fresh decoder with the same models and options gives for that line alone, whatever precedes it in the text, on any number of processors, and whether the options come from the command line, from a configuration file or from both (the command line then wins). Word graphs requested for a text are those of the single sentences, pruned as asked, in files numbered by the lines, at any path. The batch aligner gives every pair the score and the phrase alignment of the decoder for that pair, with the given reference, prefix or coverage, and says for pairs that the model cannot generate that every word is aligned with every word.",
 ["inputs", "configurations"], "all texts of a few lines out of a pool, all combinations of the search options on both channels, thresholds and processors",
 "the tests run none of the batch programs",
 ["src/stack_dec/thot_ms_dec.cc", "src/stack_dec/thot_ms_alig.cc", "utils/stack_dec/thot_decoder.sh", "utils/stack_dec/thot_aligner.sh", "src/stack_dec/_stackDecoderRec.h"],
 [("loop over the sentences, options and configuration", "thot_ms_dec, thot_ms_alig"), ("splitting and joining", "thot_decoder, thot_aligner")],
 "Exhaustive within the bounds, on the real programs with the translation models linked in instead of loaded by dlopen; each line is compared with a separate decoder of the library, so an error of decoder and batch program alike is the matter of P12 to P14.")

prop("P30", "Tuning takes its weights from the scores of the lists and texts it is given",
 "Weights updated from n-best lists are those of the updating algorithm for exactly these lists, references and selected components; text scores, language model and interpolation weights are those that the models compute, never worse on the development text, and a refused update changes no file. Rescoring, merging, filtering and editing n-best lists keep every entry with its scores and translation, and the value given to downhill simplex is the quality of the lists' best translations plus the penalties. The tuning loop repeats decoding, merging and updating as documented and prints the weights of the best iteration; no temporary file remains.",
 ["inputs", "configurations", "histories"], "all small n-best lists, development texts, weights and selections of components, whole tuning loops on texts with different courses",
 "no test runs the tuning tools",
 ["src/stack_dec/thot_ll_weight_upd_nblist.cc", "src/incr_models/thot_lm_weight_upd.cc", "src/stack_dec/thot_li_weight_upd.cc", "utils/stack_dec/thot_ll_weight_upd.sh", "utils/stack_dec/thot_dhs_nbl_rescore.sh", "utils/error_correction/thot_merge_nbest_list.sh", "utils/stack_dec/thot_filter_nblist.sh"],
 [("updates", "thot_ll_weight_upd_nblist, thot_lm_weight_upd, thot_li_weight_upd"), ("n-best lists", "thot_obtain_best_trans_from_nbl, thot_merge_nbest_list, thot_filter_nblist"), ("loop", "update_best_quality, obtain_curr_nblists, convergence_reached")],
 "Exhaustive within the bounds, on the real programs and scripts. The updating algorithm and BLEU themselves are judged by P15 and P17; precision is that of the printed numbers (6 digits).")
