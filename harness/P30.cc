// Tuning: scores, weight updates and tools for n-best lists.
// SOURCES: downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc
// FLAGS: -include svc_pre.h
// PROGRAM: thot_ms_dec stack_dec/thot_ms_dec.cc verif:batch_mods.cc verif:mc.cc downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc 
// PROGRAM: thot_server stack_dec/thot_server.cc verif:batch_mods.cc verif:mc.cc downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc stack_dec/ThotDecoder.cc nlp_common/BasicSocketUtils.cc
// PROGRAM: thot_ll_weight_upd_nblist stack_dec/thot_ll_weight_upd_nblist.cc verif:batch_mods.cc verif:mc.cc downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc 
// PROGRAM: thot_scorer stack_dec/thot_scorer.cc verif:batch_mods.cc verif:mc.cc downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc 
// PROGRAM: thot_lm_weight_upd incr_models/thot_lm_weight_upd.cc verif:batch_mods.cc verif:mc.cc downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc 
// PROGRAM: thot_li_weight_upd stack_dec/thot_li_weight_upd.cc stack_dec/PhrLocalSwLiTm.cc verif:batch_mods.cc verif:mc.cc downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc 
// PROGRAM: thot_check_constraints stack_dec/thot_check_constraints.cc verif:batch_mods.cc verif:mc.cc downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc 
// PROGRAM: thot_wg_proc error_correction/thot_wg_proc.cc verif:batch_mods.cc verif:mc.cc downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc 
// PROGRAM: thot_dhs_step_by_step_min downhill_simplex/thot_dhs_step_by_step_min.cc verif:batch_mods.cc verif:mc.cc downhill_simplex/step_by_step_dhs.c error_correction/BaseErrorCorrectionModel.cc error_correction/EditDistForStr.cc error_correction/EditDistForVecString.cc error_correction/NbSearchStack.cc error_correction/NonPbEcModelForNbUcat.cc error_correction/PfsmEcm.cc error_correction/PfsmEcmForWg.cc error_correction/WgHandler.cc error_correction/WordGraph.cc error_correction/_editDistBasedEcm.cc incr_models/IncrJelMerNgramLM.cc incr_models/WordPenaltyModel.cc incr_models/WordPredictor.cc incr_models/lm_ienc.cc nlp_common/AwkInputStream.cc nlp_common/DynClassFileHandler.cc nlp_common/MathFuncs.cc nlp_common/ModelDescriptorUtils.cc nlp_common/Prob.cc nlp_common/ThreadSafePrint.cc nlp_common/getline.c nlp_common/SingleWordVocab.cc nlp_common/StrProcUtils.cc nlp_common/WordAligMatrix.cc nlp_common/ctimer.c nlp_common/mem_alloc_utils.cc nlp_common/options.cc nlp_common/printAligFuncs.cc phrase_models/AlignmentExtractor.cc phrase_models/BaseIncrPhraseModel.cc phrase_models/BasePhraseModel.cc phrase_models/BpSet.cc phrase_models/CategPhrasePairFilter.cc phrase_models/HatTriePhraseTable.cc phrase_models/PhraseExtractUtils.cc phrase_models/PhraseExtractionTable.cc phrase_models/SegLenTable.cc phrase_models/SrcSegmLenTable.cc phrase_models/SrfNodeInfoMap.cc phrase_models/SrfNodeKey.cc phrase_models/StrictCategPhrasePairFilter.cc phrase_models/TrgCutsTable.cc phrase_models/TrgSegmLenTable.cc phrase_models/WbaIncrPhraseModel.cc phrase_models/_incrPhraseModel.cc phrase_models/_wbaIncrPhraseModel.cc stack_dec/BaseHypState.cc stack_dec/CustomFeatureHandler.cc stack_dec/DirectPhraseModelFeat.cc stack_dec/DynClassFactoryHandler.cc stack_dec/InversePhraseModelFeat.cc stack_dec/KbMiraLlWu.cc stack_dec/LangModelFeat.cc stack_dec/MiraBleu.cc stack_dec/bleu.cc stack_dec/PhrHypNumcovJumps01EqClassF.cc stack_dec/PhrHypNumcovJumpsEqClassF.cc stack_dec/PhrHypState.cc stack_dec/PhrNbestTransTablePrefKey.cc stack_dec/PhrNbestTransTableRefKey.cc stack_dec/PhrScoreInfo.cc stack_dec/SmtModelUtils.cc stack_dec/SrcPhraseLenFeat.cc stack_dec/SrcPosJumpFeat.cc stack_dec/StdFeatureHandler.cc stack_dec/TrgPhraseLenFeat.cc stack_dec/WeightUpdateUtils.cc stack_dec/WordPenaltyFeat.cc sw_models/CachedHmmAligLgProb.cc sw_models/IncrHmmAligTable.cc sw_models/IncrHmmP0AligModel.cc sw_models/IncrLexTable.cc sw_models/LightSentenceHandler.cc sw_models/WeightedIncrNormSlm.cc sw_models/_incrHmmAligModel.cc sw_models/_incrHmmP0AligModel.cc sw_models/_sentLengthModel.cc sw_models/anjiMatrix.cc sw_models/anjm1ip_anjiMatrix.cc 
// SCRIPTS: utils/nlp_common/thot_general_lib.sh utils/nlp_common/thot_simple_sched_lib.sh utils/nlp_common/thot_adv_sched_lib.sh utils/stack_dec/thot_decoder.sh utils/stack_dec/thot_ll_weight_upd.sh utils/stack_dec/thot_gen_nblists.sh utils/stack_dec/thot_nblist_tune.sh utils/stack_dec/thot_dhs_nbl_rescore.sh utils/stack_dec/thot_filter_nblist.sh utils/stack_dec/thot_get_nblist_segm_info.py utils/downhill_simplex/thot_dhs_min.sh utils/error_correction/thot_augment_nblist.sh utils/error_correction/thot_extract_sents_from_nbl.awk utils/error_correction/thot_obtain_best_trans_from_nbl.sh utils/error_correction/thot_remove_nbl_component.sh utils/error_correction/thot_rescore_nbest.sh utils/error_correction/thot_merge_nbest_list.sh
// LIBS: -lgmp -lz -ldb_cxx -lleveldb -lpthread -ldl -lltdl
#include "service.h"
#include "multi_stack_decoder_rec.h"
#include "StdFeatureHandler.h"
#include "CustomFeatureHandler.h"
#include <functional>
using mc::Ctx;
using mc::str;
typedef std::vector<std::string> Strs;
typedef std::vector<double> Vec;
static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && std::string(t) == "thorough"; }
struct Quiet { std::streambuf *e, *o; std::ostringstream s; Quiet() { e = std::cerr.rdbuf(s.rdbuf()); o = std::cout.rdbuf(s.rdbuf()); } ~Quiet() { std::cerr.rdbuf(e); std::cout.rdbuf(o); } };
static const svc::Corpus corpus = {{svc::words("a b"), svc::words("x y")}, {svc::words("b"), svc::words("z")}, {svc::words("a c b"), svc::words("x w")}, {svc::words("c"), svc::words("w y")}, {svc::words("b a"), svc::words("x z")}};
static const std::string& models(Ctx& c) {                    // one set of models for all the executions of a process
  static std::string d;
  if (d != c.scratch() + "/models") { Quiet q; d = c.scratch() + "/models"; svc::makeModels(d, corpus); setenv("SVC_INI", svc::ini.c_str(), 1); }
  return d;
}
static std::string lines(const Strs& v, bool last = true) { std::string r; for (size_t i = 0; i < v.size(); ++i) r += v[i] + (i + 1 < v.size() || last ? "\n" : ""); return r; }
static std::string quoted(const Strs& v) { std::string r; for (auto& x : v) r += "[" + x + "]"; return r; }
static std::string shown(const Vec& v) { std::string r; for (size_t i = 0; i < v.size(); ++i) { std::ostringstream o; o << v[i]; r += (i ? " " : "") + o.str(); } return r; }
static std::string tail(const std::string& s) { return s.size() > 600 ? s.substr(s.size() - 600) : s; }
static mc::Result run(Ctx& c, Strs a) { c.step(); auto r = mc::runCmd(c, a, "", 150); c.checkf(r.ok(), [&] { return str(mc::join(a), " fails with status ", r.status, ": ", tail(r.err)); }); return r; }
static void refused(Ctx& c, Strs a, const std::string& why) { c.step(); auto r = mc::runCmd(c, a); c.checkf(!r.ok() && WIFEXITED(r.status), [&] { return str(mc::join(a), ": ", why, " is not refused (status ", r.status, "): ", r.out, tail(r.err)); }); }
static void mustEq(Ctx& c, const std::string& what, const std::string& got, const std::string& want) { c.checkf(got == want, [&] { return what + ": got\n" + got + "instead of\n" + want; }); }

// ------------------------------------------------------------------ n-best lists
struct Entry { Vec comp; std::string trans; };
struct List { Strs names; Vec w; std::vector<Entry> e; };
static std::string fmt(double x) { std::ostringstream o; o << x; return o.str(); }
static std::string header(const List& l) { std::string s = "# "; for (size_t i = 0; i < l.w.size(); ++i) s += (i ? " , " : "") + l.names[i] + " " + fmt(l.w[i]); return s; }
static double score(const Vec& w, const Vec& v) { double s = 0; for (size_t i = 0; i < w.size(); ++i) s += w[i] * v[i]; return s; }
static std::string entry(const List& l, size_t k, bool arcs = true) { return fmt(score(l.w, l.e[k].comp)) + " ||| " + shown(l.e[k].comp) + (arcs ? str(" ||| 0->", k + 1, " ", k + 1, "->9") : "") + " ||| " + l.e[k].trans; }
static std::string print(const List& l, bool arcs = true) { std::string s = header(l) + "\n"; for (size_t k = 0; k < l.e.size(); ++k) s += entry(l, k, arcs) + "\n"; return s; }

// ------------------------------------------------------------------ weights from n-best lists
struct Case { std::string ref; std::vector<Entry> e; };
static const std::vector<Case> cases = {
  {"x y z w", {{{-1, -2, 0.5}, "x y z w"}, {{-0.5, -1, 0}, "x y"}}},
  {"x y z w", {{{-1, -2, 0.5}, "x w"}, {{-2, -1, 1}, "x y z w"}, {{-3, 0, 0}, "x y z"}}},
  {"x x", {{{0, 0, 1}, "x"}, {{1, 0, 0}, "x x"}}},
  {"y", {{{-1, -1, -1}, "y"}}},
  {"x y", {{{-4, 0.25, 1}, "z"}, {{-1, 0.5, 1}, ""}, {{-2, 1, 1}, "x y x y"}}},
  {"z w x", {{{0.001, 1e-05, 3}, "z w x y"}, {{0.002, 1e-06, 2}, "z w"}, {{100, 0, 1}, "w x"}}},
};
static void update(Ctx& c) {
  std::vector<Case> t; int n = 1 + c.choose(thorough() ? 3 : 2); for (int i = 0; i < n; ++i) t.push_back(cases[c.choose(cases.size())]);
  Vec w = c.pick(std::vector<Vec>{{1, 1, 1}, {0, 0.5, -2}}); int va = c.choose(9);           // bits of va; 8: not given
  int bad = va == 8 ? c.choose(3) : 0;                                                       // one reference less, one more
  models(c); auto d = mc::freshDir(c); std::string files; Strs refs;
  for (int i = 0; i < n; ++i) { List l{{"wpw", "lmw", "tmw"}, w, t[i].e}; auto f = str(d, "/", i, ".nbl"); mc::writeFile(f, print(l, i % 2 == 0)); files += f + "\n"; refs.push_back(t[i].ref); }
  mc::writeFile(d + "/files", files);
  Strs given = refs; if (bad == 1) given.pop_back(); if (bad == 2) given.push_back("x"); mc::writeFile(d + "/refs", lines(given));
  Strs a = {mc::bin("thot_ll_weight_upd_nblist"), "-w"}; for (double x : w) a.push_back(fmt(x));
  a.insert(a.end(), {"-nb", d + "/files", "-r", d + "/refs"}); if (va < 8) { a.push_back("-va"); for (int b = 0; b < 3; ++b) a.push_back(va >> b & 1 ? "1" : "0"); }
  c.log(str(quoted(refs), " weights ", shown(w), " included ", va, " references ", bad));
  if (bad) return refused(c, a, "another number of references");
  auto in = [&](int b) { return va == 8 || (va >> b & 1); }; auto keep = [&](const Vec& v) { Vec r; for (int b = 0; b < 3; ++b) if (in(b)) r.push_back(v[b]); return r; };
  std::vector<Strs> nb; std::vector<std::vector<Vec>> comps; for (auto& x : t) { nb.push_back({}); comps.push_back({}); for (auto& e : x.e) { nb.back().push_back(e.trans); comps.back().push_back(keep(e.comp)); } }
  Vec nw; { Quiet q; KbMiraLlWu u; MiraBleu s; u.link_scorer(&s); u.updateClosedCorpus(refs, nb, comps, keep(w), nw); }
  std::string want = "Updated weights:"; size_t j = 0; for (int b = 0; b < 3; ++b) want += " " + (in(b) ? fmt(nw[j++]) : "0");
  auto r = run(c, a); c.outcome(r.out); mustEq(c, "updated weights", r.out, want + "\n");
}
// ------------------------------------------------------------------ scores of texts
static void scores(Ctx& c) {
  static const Strs pool = {"x y z w", "x y", "", "z w x x y", "w"};
  Strs s, r; int n = c.choose(thorough() ? 4 : 3), m = c.choose(thorough() ? 4 : 3); for (int i = 0; i < n; ++i) s.push_back(pool[c.choose(5)]);
  for (int i = 0; i < m; ++i) r.push_back(pool[c.choose(5)]);
  if (thorough() && n == 3 && m == 3 && (s[0] != s[2])) throw mc::Skip();
  bool nl = s.empty() || s.back().empty() || c.flip(); c.log(str(quoted(s), " against ", quoted(r)));
  models(c); auto d = mc::freshDir(c); mc::writeFile(d + "/s", lines(s, nl)); mc::writeFile(d + "/r", lines(r));
  Strs a = {mc::bin("thot_scorer"), "-r", d + "/r", "-t", d + "/s"};
  if (n != m) return refused(c, a, "another number of references");
  double x; MiraBleu b; b.corpusScore(s, r, x); auto o = run(c, a); c.outcome(o.out); mustEq(c, "score", o.out, "Score= " + fmt(x) + "\n");
}
// ------------------------------------------------------------------ language model weights
static std::map<std::string, std::string> files(const std::string& d) { std::map<std::string, std::string> r; for (auto& e : std::filesystem::directory_iterator(d)) r[e.path().filename()] = mc::readFile(e.path()); return r; }
static void lmWeights(Ctx& c) {
  static const Strs train = {"x y", "x w y", "z", "y x z x"}, dev = {"x y", "w z", "", "y y x q", "z x w"};
  Strs t; for (int i = 0; i < 2; ++i) t.push_back(train[c.choose(4)]);
  Strs v; int n = 1 + c.choose(2); for (int i = 0; i < n; ++i) v.push_back(dev[c.choose(5)]);
  int order = 2 + c.choose(2), how = c.choose(thorough() ? 6 : 5);           // prefix, descriptor, no model, no corpus, no module, two models
  if (how >= 2 && how <= 4 && (n > 1 || t[0] != t[1])) throw mc::Skip();       // refused whatever the text
  if (!thorough() && (t[0] > t[1] || (n > 1 && v[0] > v[1]))) throw mc::Skip();
  models(c); auto d = mc::freshDir(c); std::filesystem::create_directory(d + "/m");
  c.log(str(quoted(t), " development ", quoted(v), " order ", order, " how ", how));
  auto make = [&](const std::string& p, bool other) { Quiet q; IncrJelMerNgramLM l; mc::writeFile(p + ".weights", str(order, other ? " 2 1" : " 1 0", other ? " 0.5 0.2 0.9 0.3" : " 0.7 0.6", order == 3 ? (other ? " 0.4 0.4\n" : " 0.5\n") : "\n")); l.loadWeights(p.c_str()); l.setNgramOrder(order); for (auto& x : t) l.trainSentence(svc::words(x), Count(1)); l.print(p.c_str()); };
  make(d + "/m/lm", false); if (how == 5) make(d + "/m/second", true);
  mc::writeFile(d + "/v", lines(v)); std::string lm = d + "/m/lm";
  if (how == 1 || how == 4 || how == 5) { lm = d + "/m/desc"; mc::writeFile(lm, str("thot lm descriptor\n/modules/", how == 4 ? "nothing.so" : "incr_jel_mer_ngram_lm_factory.so", " lm main\n", how == 5 ? "/modules/incr_jel_mer_ngram_lm_factory.so second other\n" : "")); }
  auto want = files(d + "/m");
  Strs a = {mc::bin("thot_lm_weight_upd"), "-lm", how == 2 ? d + "/m/none" : lm, "-c", how == 3 ? d + "/none" : d + "/v"};
  if (how >= 2 && how <= 4) {
    refused(c, a, how == 2 ? "a model that does not exist" : how == 3 ? "a corpus that does not exist" : "a module that does not exist");
    c.check(files(d + "/m") == want, "the refused update changes files"); return;
  }
  for (auto& p : how == 5 ? Strs{"lm", "second"} : Strs{"lm"}) {
    Quiet q; IncrJelMerNgramLM l; l.load((d + "/m/" + p).c_str()); LgProb before, after; unsigned s, w, no; double pb, pa;
    bool measured = l.perplexity((d + "/v").c_str(), s, w, before, pb) == THOT_OK; int ret = l.updateModelWeights((d + "/v").c_str()); if (ret == THOT_ERROR) throw mc::Skip();
    l.perplexity((d + "/v").c_str(), s, w, after, pa); if (measured) c.checkf(pa <= pb * (1 + 1e-9), [&] { return str("perplexity ", pb, " before and ", pa, " after the update"); });
    auto f = c.scratch() + "/w"; l.printWeights(f.c_str()); want[p + ".weights"] = mc::readFile(f + ".weights");
  }
  run(c, a); auto got = files(d + "/m"); for (auto& f : want) { mustEq(c, "file " + f.first, got[f.first], f.second); c.outcome(f.second); } c.check(got.size() == want.size(), "other files");
}
// ------------------------------------------------------------------ interpolation of phrase and word models
static void liWeights(Ctx& c) {
  static const std::vector<std::pair<std::string, std::string>> dev = {{"a b", "x y"}, {"b", "y"}, {"c a", "w x"}, {"a c b", "x w y z"}, {"q a", "x x"}};
  Strs s, r; int n = 1 + c.choose(2); for (int i = 0; i < n; ++i) { int k = c.choose(5); s.push_back(dev[k].first); r.push_back(dev[k].second); }
  double l1 = c.pick(Vec{0.7, 0.1}), l2 = c.pick(Vec{0.7, 0.99}); int how = c.choose(4);                   // fine, no model, no source, no references
  auto d = mc::freshDir(c); { Quiet q; svc::makeModels(d, corpus, l1, l2); setenv("SVC_INI", svc::ini.c_str(), 1); }
  c.log(str(quoted(s), " ", quoted(r), " lambda ", l1, " ", l2, " how ", how));
  mc::writeFile(d + "/s", lines(s)); mc::writeFile(d + "/r", lines(r)); auto want = files(d + "/tm");
  Strs a = {mc::bin("thot_li_weight_upd"), "-tm", d + (how == 1 ? "/none/tm" : "/tm/tm"), "-t", d + (how == 2 ? "/none" : "/s"), "-r", d + (how == 3 ? "/none" : "/r")};
  if (how) { refused(c, a, "a file that does not exist"); setenv("SVC_INI", (models(c).substr(0, 0) + c.scratch() + "/models/master.ini").c_str(), 1); c.check(files(d + "/tm") == want, "the refused update changes files"); return; }
  int ret; std::string lam;
  { Quiet q; StdFeatureHandler f; f.setDefaultTransSoFile("/modules/wba_incr_phrase_model_factory.so"); f.setDefaultSingleWordSoFile("/modules/incr_hmm_p0_alig_model_factory.so");
    f.loadBilingualFeats(d + "/tm/tm", 0); ret = f.updatePmLinInterpWeights(d + "/s", d + "/r"); f.printAligModelLambdas(c.scratch() + "/tm"); lam = mc::readFile(c.scratch() + "/tm.lambda"); f.clear(); }
  if (ret == THOT_ERROR) throw mc::Skip();
  want["tm.lambda"] = lam; run(c, a); setenv("SVC_INI", (models(c) + "/master.ini").c_str(), 1); auto got = files(d + "/tm");
  for (auto& f : want) if (got[f.first] != f.second) mustEq(c, "file " + f.first, got[f.first], f.second); c.check(got.size() == want.size(), "other files"); c.outcome(lam);
}
// ------------------------------------------------------------------ tools for n-best lists
static const std::vector<Entry> pool = {{{-1, 2, 0.5}, "x y"}, {{-2.25, -1, 4}, "z"}, {{0.00001, 0.00002, 0}, "w x"}, {{-1000.5, 3, 0.125}, "y y z"}, {{0, 0, 0}, ""}, {{0.00003, -0.00001, 0.00004}, "10 x"}};
static const Strs names = {"wpw", "lmw", "ptsw"};
static List pickList(Ctx& c, int max, bool two = true) { List l{names, c.pick(two ? std::vector<Vec>{{1, 1, 1}, {0.5, 0, -2}} : std::vector<Vec>{{1, 1, 1}}), {}}; int n = c.choose(max + 1); for (int i = 0; i < n; ++i) l.e.push_back(pool[c.choose(pool.size())]); return l; }
static std::string sixDigits(double x) { char b[64]; snprintf(b, 64, "%.6g", x); return b; }
static std::string fixed(double x) { char b[64]; snprintf(b, 64, "%f", x); return b; }
static bool near(const std::string& a, double b) { char* e; double x = strtod(a.c_str(), &e); return !*e && !a.empty() && std::abs(x - b) <= 2e-5 * std::max(std::abs(b), 1e-3); }
static Strs split(const std::string& s, const std::string& sep) { Strs r; size_t p = 0, q; while ((q = s.find(sep, p)) != std::string::npos) { r.push_back(s.substr(p, q - p)); p = q + sep.size(); } r.push_back(s.substr(p)); return r; }
static Strs rows(const std::string& s) { Strs r = split(s, "\n"); if (!r.empty() && r.back().empty()) r.pop_back(); return r; }
static mc::Result sh(Ctx& c, Strs a, const std::string& in = "") { a.insert(a.begin(), "bash"); a[1] = mc::bin(a[1]); c.step(); auto r = mc::runCmd(c, a, in); c.checkf(r.ok(), [&] { return str(mc::join(a), " fails: ", tail(r.err)); }); return r; }
static void lists(Ctx& c) {
  bool arcs = c.flip(); List l = pickList(c, thorough() ? 4 : 3); auto d = mc::freshDir(c), f = d + "/l.nbl"; mc::writeFile(f, print(l, arcs)); c.log(print(l, arcs));
  Vec w = c.pick(std::vector<Vec>{{1, 0, 0}, {-1, 2, 0.5}, {0, 0, 0}}); std::string ws = shown(w); c.log("weights " + ws);
  { auto r = sh(c, {"thot_rescore_nbest", ws}, print(l, arcs)); auto o = rows(r.out); c.checkf(o.size() == l.e.size() + 1 && o[0] == "# " + ws, [&] { return "rescored list\n" + r.out; });
    for (size_t k = 0; k < l.e.size(); ++k) { auto x = split(o[k + 1], " ||| "), y = split(entry(l, k, arcs), " ||| "); c.checkf(near(x[0], score(w, l.e[k].comp)), [&] { return str("score ", x[0], " of entry ", k + 1, " instead of ", score(w, l.e[k].comp)); }); if (!l.e[k].trans.empty()) { x[0] = y[0]; c.checkf(x == y, [&] { return "entry " + o[k + 1]; }); } } }
  { auto r = sh(c, {"thot_obtain_best_trans_from_nbl", f, ws}); auto o = rows(r.out); c.checkf(o.size() == 1, [&] { return "best translation\n" + r.out; });
    double best = -1e300; for (auto& e : l.e) best = std::max(best, score(w, e.comp)); bool ok = l.e.empty() && o[0].empty(); for (auto& e : l.e) if (e.trans == o[0] && (score(w, e.comp) == best || near(sixDigits(score(w, e.comp)), best))) ok = true;
    c.outcome(r.out); c.checkf(ok, [&] { return "best translation with " + ws + ": " + r.out + "of\n" + print(l, arcs); }); }
  { auto r = mc::runCmd(c, {"gawk", "-f", mc::repo("utils/error_correction/thot_extract_sents_from_nbl.awk"), f}); std::string want; for (auto& e : l.e) want += e.trans + "\n"; mustEq(c, "sentences", r.out, want); }
  { Strs sc; std::string sf; for (size_t k = 0; k < l.e.size(); ++k) { double x = k % 2 ? -0.5 : 12.25; sc.push_back(fmt(x)); sf += fmt(x) + "\n"; } mc::writeFile(d + "/sc", sf);
    auto r = sh(c, {"thot_augment_nblist", "-n", f, "-a", "rnnw", "-s", d + "/sc"}); auto o = rows(r.out); c.checkf(o.size() == l.e.size() + 1 && o[0] == header(l) + " , rnnw 1", [&] { return "augmented list\n" + r.out; });
    for (size_t k = 0; k < l.e.size(); ++k) { auto x = split(o[k + 1], " ||| "), y = split(entry(l, k, arcs), " ||| "); double s = score(l.w, l.e[k].comp) + atof(sc[k].c_str()); c.checkf(x[0] == fixed(s) || std::abs(atof(x[0].c_str()) - s) < 2e-6, [&] { return "augmented score " + x[0] + str(" instead of ", s); }); y[1] += " " + sc[k]; y[0] = x[0]; c.checkf(x == y, [&] { return "augmented entry " + o[k + 1]; }); } }
}
static void removed(Ctx& c) {
  bool arcs = c.flip(); List l = pickList(c, 2); int k = c.choose(4); std::string name = k == 3 ? "pst" : names[k].substr(0, names[k].size() - 1); c.log(print(l, arcs) + "without " + name);
  auto r = sh(c, {"thot_remove_nbl_component", "-c", name}, print(l, arcs)); auto o = rows(r.out); List m = l; if (k < 3) { m.names.erase(m.names.begin() + k); m.w.erase(m.w.begin() + k); for (auto& e : m.e) e.comp.erase(e.comp.begin() + k); }
  c.outcome(r.out); c.checkf(o.size() == l.e.size() + 1 && o[0] == header(m), [&] { return "list\n" + r.out + "instead of\n" + print(m, arcs); });
  for (size_t i = 0; i < m.e.size(); ++i) {
    auto x = split(o[i + 1], " ||| "), y = split(entry(m, i, arcs), " ||| "); c.checkf(std::abs(atof(x[0].c_str()) - score(m.w, m.e[i].comp)) < 2e-6, [&] { return "score of " + o[i + 1]; });
    std::istringstream in(x.size() > 1 ? x[1] : ""); Vec v; double q; while (in >> q) v.push_back(q); c.checkf(v.size() == m.w.size(), [&] { return "components of " + o[i + 1]; }); for (size_t j = 0; j < v.size(); ++j) c.check(std::abs(v[j] - m.e[i].comp[j]) < 2e-6, "components of " + o[i + 1]);
    x[0] = y[0]; x[1] = y[1]; c.checkf(x == y, [&] { return "entry " + o[i + 1]; });
  }
}
static void merged(Ctx& c) {
  List a = pickList(c, 2, thorough()), b = pickList(c, 2); auto d = mc::freshDir(c); mc::writeFile(d + "/a", print(a)); mc::writeFile(d + "/b", print(b)); c.log(print(a) + print(b));
  std::set<std::string> want; for (auto* l : {&a, &b}) for (size_t k = 0; k < l->e.size(); ++k) { auto e = entry(*l, k); e = "-" + e.substr(e.find(' ')); if (e.back() == ' ') e.pop_back(); want.insert(e); }
  auto r = sh(c, {"thot_merge_nbest_list", d + "/a", d + "/b"}); auto o = rows(r.out); std::multiset<std::string> got; for (size_t i = 1; i < o.size(); ++i) { auto e = o[i]; if (e.back() == ' ') e.pop_back(); got.insert(e); }
  c.outcome(r.out); c.checkf(!o.empty() && o[0] == "# wpw - , lmw - , ptsw -" && got == std::multiset<std::string>(want.begin(), want.end()), [&] { return "merged list\n" + r.out; });
}
// ------------------------------------------------------------------ the function that downhill simplex minimises
static void function(Ctx& c) {
  static const std::vector<std::vector<int>> ls = {{0, 1}, {}, {1, 2, 3}, {3}, {5, 0, 2}, {2, 5}}; static const Strs refs = {"x y", "w x z", "z"};
  int n = 1 + c.choose(2); std::vector<List> t; for (int i = 0; i < n; ++i) { List l{names, {1, 1, 1}, {}}; for (int k : ls[c.choose(ls.size())]) l.e.push_back(pool[k]); t.push_back(l); }
  Vec w = c.pick(std::vector<Vec>{{1, 1, 1}, {-1, 1, 0.5}, {-0.25, -2, 1}, {0, 0, -1}}); std::string nnc = c.pick(Strs{"", "1 1 1", "0 1 0", "1 0"}); int fac = c.choose(2);
  if (nnc.empty() && fac) throw mc::Skip(); models(c); auto d = mc::freshDir(c); std::filesystem::create_directory(d + "/n"); std::filesystem::create_directory(d + "/sd"); Strs r;
  for (int i = 0; i < n; ++i) { mc::writeFile(str(d, "/n/s_", i, ".nbl"), print(t[i])); r.push_back(refs[i]); c.log(print(t[i])); } mc::writeFile(d + "/r", lines(r)); c.log(str("weights ", shown(w), " constraints ", nnc, " factor ", fac));
  setenv("NBL_DIR", (d + "/n").c_str(), 1); setenv("REF", (d + "/r").c_str(), 1); setenv("NON_NEG_CONST", nnc.c_str(), 1); if (fac) setenv("NNC_PEN_FACTOR", "10", 1); else unsetenv("NNC_PEN_FACTOR");
  Strs a = {"thot_dhs_nbl_rescore", d + "/sd"}; for (double x : w) a.push_back(fmt(x)); auto o = sh(c, a);
  for (auto e : {"NBL_DIR", "REF", "NON_NEG_CONST", "NNC_PEN_FACTOR"}) unsetenv(e);
  // every choice of the best translations (equal scores) gives a possible value
  double pen = 0; std::istringstream in(nnc); int on; for (size_t i = 0; i < w.size() && in >> on; ++i) if (on && w[i] < 0) pen += -w[i] * (fac ? 10 : 1000);
  std::vector<Strs> best; for (auto& l : t) { double b = -1e300; for (auto& e : l.e) b = std::max(b, score(w, e.comp)); Strs q; for (auto& e : l.e) if (near(sixDigits(score(w, e.comp)), b)) q.push_back(e.trans); if (q.empty()) q.push_back(""); best.push_back(q); }
  bool ok = false; std::string all; for (auto& x : best[0]) for (auto& y : n > 1 ? best[1] : Strs{""}) { Strs s = {x}; if (n > 1) s.push_back(y); double q; MiraBleu b; b.corpusScore(s, r, q); double v = 1 - q + pen; all += str(" ", v); if (std::abs(atof(o.out.c_str()) - v) < 1e-5 * std::max(1.0, v) + 1e-6) ok = true; }
  c.outcome(o.out); c.checkf(ok && rows(o.out).size() == 1, [&] { return "value " + o.out + "instead of" + all; }); c.check(std::filesystem::is_empty(d + "/sd"), "temporary files are left");
}
// ------------------------------------------------------------------ n-best lists without the entries that violate constraints
struct Piece { int from, to; std::string words; };
typedef std::vector<Piece> Deriv;
static const std::vector<Deriv> derivs = {
  {{1, 1, "x"}, {2, 2, "w"}, {3, 3, "y"}}, {{1, 1, "x"}, {2, 2, "w w"}, {3, 3, "y"}}, {{1, 1, "x"}, {2, 3, "w w"}}, {{1, 2, "x w"}, {3, 3, "z"}}, {{2, 2, "w w"}, {1, 1, "x"}, {3, 3, "y"}},
  {{1, 1, "x x"}, {2, 2, "w"}, {3, 3, "y"}}, {{3, 3, "z"}, {1, 1, "x"}, {2, 2, "w"}}, {{1, 3, "z"}}, {{1, 1, "x w"}, {2, 2, "w w"}, {3, 3, "z"}}, {{2, 3, "w w"}, {1, 1, "x"}}, {{3, 3, "w"}, {2, 2, "w w"}, {1, 1, "x"}},
};
struct Constr { int from, to; std::string words; };
static void filter(Ctx& c) {
  static const std::vector<std::pair<std::string, std::vector<Constr>>> srcs = {
    {"a b c", {}}, {"a <phr_pair_annot> <src_segm> b </src_segm> <trg_segm> w w </trg_segm> </phr_pair_annot> c", {{2, 2, "w w"}}}, {"a <phr_pair_annot> <src_segm>b c</src_segm> <trg_segm>w w</trg_segm> </phr_pair_annot>", {{2, 3, "w w"}}},
    {"<phr_pair_annot> <src_segm>a</src_segm> <trg_segm>x</trg_segm> </phr_pair_annot> b <phr_pair_annot> <src_segm>c</src_segm> <trg_segm>z</trg_segm> </phr_pair_annot>", {{1, 1, "x"}, {3, 3, "z"}}}};
  auto& src = srcs[c.choose(srcs.size())]; int n = c.choose(thorough() ? 4 : 3); std::vector<Deriv> ds; for (int i = 0; i < n; ++i) ds.push_back(derivs[c.choose(derivs.size())]);
  std::string wg = "# wpw 1 , lmw 1\n", arcs, idx = "# SOURCE SENTENCE: " + src.first + "\n# SOURCE SENTENCE WITHOUT METADATA: a b c\n", nbl = "# wpw 1 , lmw 1\n"; std::map<int, int> id; id[0] = 0; std::set<std::string> seen; std::map<std::string, std::set<std::string>> par; Strs es; std::vector<Strs> trs; std::vector<bool> keep;
  for (size_t k = 0; k < ds.size(); ++k) {
    int cov = 0; std::string path, t; Strs tr; bool good = true;
    for (auto& p : ds[k]) { int nc = cov; for (int j = p.from; j <= p.to; ++j) nc |= 1 << j; if (!id.count(nc)) { int q = id.size(); id[nc] = q; } auto ar = str(id[cov], "->", id[nc]); path += (path.empty() ? "" : " ") + ar; tr.push_back(ar); t += (t.empty() ? "" : " ") + p.words; par[ar].insert(p.words); auto l = str(id[cov], " ", id[nc], " -1 ||| -0.5 -0.5 ||| ", p.words, "\n"); if (seen.insert(l).second) arcs += l; cov = nc; }
    for (auto& q : src.second) { bool ok = false; for (auto& p : ds[k]) if (p.from == q.from && p.to == q.to && p.words == q.words) ok = true; good = good && ok; }
    es.push_back(str(-1.5 * k - 1, " ||| ", -0.5, " ", k, " ||| ", path, " ||| ", t)); trs.push_back(tr); keep.push_back(good);
  }
  for (auto& x : id) { if (x.first) { std::string b; for (int j = 3; j >= 0; --j) b += x.first >> j & 1 ? "1" : "0"; idx += str(x.second, " ", b.substr(b.find('1')), " -1\n"); } else idx += "0 0 0\n"; }
  wg += id.count(14) ? str(id[14], " \n") : "\n"; wg += arcs;
  // entries with two segmentations along the same states are left out
  for (size_t k = 0; k < ds.size(); ++k) { std::function<int(size_t, std::string)> ways = [&](size_t i, std::string t) { if (i == trs[k].size()) return t == es[k].substr(es[k].rfind("||| ") + 4) + " " ? 1 : 0; int r = 0; for (auto& w : par[trs[k][i]]) r += ways(i + 1, t + w + " "); return r; }; if (ways(0, "") != 1) throw mc::Skip(); }
  std::string want = nbl; for (size_t k = 0; k < es.size(); ++k) { nbl += es[k] + "\n"; if (keep[k]) want += es[k] + "\n"; }
  models(c); auto d = mc::freshDir(c); mc::writeFile(d + "/g.wg", wg); mc::writeFile(d + "/g.idx", idx); mc::writeFile(d + "/l.nbl", nbl); c.log(src.first + "\n" + nbl + wg + idx);
  auto r = sh(c, {"thot_filter_nblist", "-n", d + "/l.nbl", "-p", d + "/g"}); c.outcome(r.out); mustEq(c, "list without violations of " + src.first, r.out, want);
}

// ------------------------------------------------------------------ the whole loops
static Strs listDir(const std::string& d) { Strs r; for (auto& e : std::filesystem::directory_iterator(d)) r.push_back(e.path().filename()); std::sort(r.begin(), r.end()); return r; }
static const Strs devText = {"a b", "b a c", "c q b", "c"};
static const std::vector<Strs> devRefs = {{"x y", "x w"}, {"z x w y", "x w y z"}, {"w y z", "w y q z"}, {"w y", "z"}};
struct Dev { Strs text, refs; };
static Dev pickDev(Ctx& c, int max) { Dev t; int n = 1 + c.choose(max); for (int i = 0; i < n; ++i) { int k = c.choose(devText.size()); t.text.push_back(devText[k]); t.refs.push_back(devRefs[k][c.choose(2)]); } return t; }
static Strs startWeights(Ctx& c, const std::string& cfg, Strs& nm) { auto r = run(c, {mc::bin("thot_server"), "-c", cfg, "-w"}); Strs w; auto y = svc::words(rows(r.out)[0]); for (size_t i = 4; i + 1 < y.size(); i += 3) { c.check(y[i].back() == ':' && (i + 2 == y.size() || y[i + 2] == ","), "weights " + r.out); nm.push_back(y[i]); w.push_back(y[i + 1]); } return w; }
static std::string sixth(int i) { char b[16]; snprintf(b, 16, "%06d", i); return b; }
// the n-best lists of a text, and its translations
static Strs nbestLists(Ctx& c, const std::string& d, const std::string& cfg, const Strs& w, const std::string& text, int lines, int n) {
  std::filesystem::remove_all(d); std::filesystem::create_directory(d); Strs a = {mc::bin("thot_ms_dec"), "-c", cfg, "-t", text, "-o", d + "/o", "-wg", d + "/g"};
  if (!w.empty()) { a.push_back("-tmw"); a.insert(a.end(), w.begin(), w.end()); } run(c, a); Strs r;
  for (int i = 1; i <= lines; ++i) { auto l = d + "/" + sixth(i); run(c, {mc::bin("thot_wg_proc"), "-w", d + "/g_" + sixth(i) + ".wg", "-n", str(n), "-o", l}); r.push_back(mc::readFile(l + ".nbl")); }
  return r;
}
static void loop(Ctx& c) {
  static const std::vector<Dev> devs = {                          // chosen for the courses of their quality
    {{"b a c", "a c b a c"}, {"x x w y", "z w y x z w y"}}, {{"b a c", "b c b a"}, {"x z w y", "x w y z x"}}, {{"b a c", "a c b a c"}, {"x z w y", "x w y x x w y"}}, {{"c b a b", "b c b a"}, {"w y x z z", "z w y z x"}},
    {{"a c b a c", "b a c"}, {"x w y x x w y", "x x w y"}}, {{"a c b a c", "b c b a"}, {"z w y x z w y", "z w y x z"}}, {{"b c b a", "c b a b"}, {"x w y z x", "w y x z z"}}, {{"a b"}, {"x y"}},
    {{"a c b a c", "a c b a c"}, {"x w x w y", "z w y x z w y"}}, {{"a c b a c", "b c b a"}, {"z w y x z w y", "z w y z x"}}, {{"c b a b", "b c b a"}, {"w y z x z", "x w y z x"}}, {{"b c b a", "a c b a c"}, {"z w y x z", "z w y x z w y"}}};
  const Dev& t = devs[c.choose(devs.size())]; int n = c.pick(std::vector<int>{1, 4}), iters = c.pick(thorough() ? std::vector<int>{1, 2, 3, 5, 9} : std::vector<int>{2, 7}); Strs va = c.pick(std::vector<Strs>{{}, {"0", "1", "1", "0", "1", "1", "0"}, {"1", "0"}});
  int start = c.choose(2); if (!thorough() && !va.empty() && (!start || va.size() < 7 || n == 1 || iters == 7)) throw mc::Skip();
  auto d = mc::freshDir(c), cfg = d + "/cfg"; auto m = models(c); mc::writeFile(cfg, mc::readFile(svc::makeCfg(m)) + (start ? "-tmw 0 0.1 1 1 0 0 0\n" : "")); for (auto x : {"/sd", "/td", "/own"}) std::filesystem::create_directory(d + x); mc::writeFile(d + "/t", lines(t.text)); mc::writeFile(d + "/r", lines(t.refs));
  c.log(str(quoted(t.text), " references ", quoted(t.refs), " n ", n, " iterations ", iters, " included ", mc::join(va)));
  Strs nm, w = startWeights(c, cfg, nm), best; c.check(w.size() == 7, "weights of the decoder"); for (size_t i = 0; i < va.size(); ++i) if (va[i] == "0") w[i] = "0";
  Strs course; double bestQ = 0; int worse = 1; std::vector<std::string> all(t.text.size());
  for (int it = 1;; ++it) {
    auto nb = nbestLists(c, d + "/own/nb", cfg, w, d + "/t", t.text.size(), n); Strs trans;
    for (auto& l : nb) { mc::writeFile(d + "/own/l", l); trans.push_back(rows(sh(c, {"thot_obtain_best_trans_from_nbl", d + "/own/l", mc::join(w)}).out + "\n").at(0)); }
    double q; { MiraBleu b; b.corpusScore(trans, t.refs, q); } q = atof(fmt(q).c_str()); c.log(str("iteration ", it, ": ", mc::join(w), " ", quoted(trans), " quality ", q)); c.state(mc::hashStr(str(it, " ", mc::join(w)))); course.push_back(mc::join(w));
    if (it == 1 || q > bestQ) { bestQ = q; best = w; worse = 1; } else ++worse;
    if (it >= iters || worse >= 4) break;
    std::string fs; for (size_t i = 0; i < nb.size(); ++i) {
      auto f = str(d, "/own/c", i); if (it > 1) { mc::writeFile(d + "/own/l", nb[i]); mc::writeFile(d + "/own/m", all[i]); all[i] = sh(c, {"thot_merge_nbest_list", d + "/own/l", d + "/own/m"}).out; } else all[i] = nb[i];
      mc::writeFile(f, all[i]); fs += f + "\n";
    }
    mc::writeFile(d + "/own/fs", fs); Strs a = {mc::bin("thot_ll_weight_upd_nblist"), "-w"}; a.insert(a.end(), w.begin(), w.end()); if (!va.empty()) { a.push_back("-va"); a.insert(a.end(), va.begin(), va.end()); } a.insert(a.end(), {"-nb", d + "/own/fs", "-r", d + "/r"});
    auto r = svc::words(run(c, a).out); c.check(r.size() > 2, "no weights"); w.assign(r.begin() + 2, r.end());
  }
  setenv("TMPDIR", (d + "/td").c_str(), 1);
  Strs a = {"thot_ll_weight_upd", "-pr", "1", "-c", cfg, "-t", d + "/t", "-r", d + "/r", "-n", str(n), "-i", str(iters)}; if (!va.empty()) { a.push_back("-va"); a.insert(a.end(), va.begin(), va.end()); } a.insert(a.end(), {"-sdir", d + "/sd", "-tdir", d + "/td"});
  auto r = sh(c, a); unsetenv("TMPDIR"); c.outcome(r.out); mustEq(c, "tuned weights", r.out, mc::join(best) + "\n");
  Strs told; for (auto& l : rows(r.err)) { auto p = l.find("current weights: "); if (p == std::string::npos) continue; Strs x; for (auto& y : split(l.substr(p + 17), " , ")) { auto z = svc::words(y); x.push_back(z.empty() ? "" : z.back()); } told.push_back(mc::join(x)); }   // the course, if it is told
  if (!told.empty()) mustEq(c, "weights of the iterations", lines(told), lines(course));
  c.checkf(listDir(d + "/sd").empty() && listDir(d + "/td").empty(), [&] { return "temporary files are left: " + quoted(listDir(d + "/sd")) + quoted(listDir(d + "/td")); });
}
static void generated(Ctx& c) {
  Dev t = pickDev(c, 2); int n = c.pick(std::vector<int>{1, 4}), procs = 1 + c.choose(2); if (!thorough() && t.text.size() > 1 && t.text[0] >= t.text[1]) throw mc::Skip();
  if (procs > (int)t.text.size()) throw mc::Skip();   // refused by thot_decoder
  bool dhs = thorough() && n == 4 && procs == 1 && c.flip();
  auto cfg = svc::makeCfg(models(c)); auto d = mc::freshDir(c); for (auto x : {"/sd", "/td"}) std::filesystem::create_directory(d + x); mc::writeFile(d + "/t", lines(t.text)); mc::writeFile(d + "/r", lines(t.refs));
  c.log(str(quoted(t.text), " references ", quoted(t.refs), " n ", n, " processors ", procs, dhs ? " downhill simplex" : ""));
  auto nb = nbestLists(c, d + "/own", cfg, {}, d + "/t", t.text.size(), n); setenv("TMPDIR", (d + "/td").c_str(), 1);
  sh(c, {"thot_gen_nblists", "-pr", str(procs), "-c", cfg, "-s", d + "/t", "-n", str(n), "-o", d + "/out", "-sdir", d + "/sd", "-tdir", d + "/td"});
  auto got = listDir(d + "/out/nblist"); Strs want; for (size_t i = 1; i <= nb.size(); ++i) { auto f = "inputsent_" + sixth(i) + ".nbl"; want.push_back(f); mustEq(c, f, mc::readFile(d + "/out/nblist/" + f), nb[i - 1]); c.outcome(nb[i - 1]); }
  got.erase(std::remove_if(got.begin(), got.end(), [](const std::string& f) { return f.size() < 4 || f.substr(f.size() - 4) != ".nbl"; }), got.end()); c.checkf(got == want, [&] { return "lists " + quoted(got); });
  Strs a = {"thot_nblist_tune", "-t", d + "/r", "-n", d + "/out/nblist", "-o", d + "/tuned", "-tdir", d + "/td"}; if (dhs) a.push_back("-dhs"); sh(c, a); unsetenv("TMPDIR");
  Strs nm; Strs w = startWeights(c, cfg, nm); auto value = [&](const Strs& x) { setenv("NBL_DIR", (d + "/out/nblist").c_str(), 1); setenv("REF", (d + "/r").c_str(), 1); Strs b = {"thot_dhs_nbl_rescore", d + "/td"}; b.insert(b.end(), x.begin(), x.end()); auto r = sh(c, b).out; unsetenv("NBL_DIR"); unsetenv("REF"); return r; };
  if (!dhs) {
    std::string fs; for (auto& f : want) fs += d + "/out/nblist/" + f + "\n"; mc::writeFile(d + "/fs", fs);
    Strs b = {mc::bin("thot_ll_weight_upd_nblist"), "-w"}; b.insert(b.end(), w.begin(), w.end()); b.insert(b.end(), {"-nb", d + "/fs", "-r", d + "/r"}); auto o = run(c, b).out;
    mustEq(c, "tuned weights", mc::readFile(d + "/tuned/llweights_tune.out"), o); auto x = svc::words(o); x.erase(x.begin(), x.begin() + 2); mustEq(c, "score of the tuned weights", mc::readFile(d + "/tuned/llweights_tune.scr"), value(x));
  } else {
    auto x = svc::words(mc::readFile(d + "/tuned/llweights_tune.out")), img = svc::words(mc::readFile(d + "/tuned/llweights_tune.img")); double least = 1e300; for (auto& y : img) least = std::min(least, atof(y.c_str()));
    setenv("NON_NEG_CONST", "0 1 1 1 1 1 1", 1); double v = atof(value(x).c_str()); double start = atof(value(Strs(7, "1")).c_str()); unsetenv("NON_NEG_CONST"); c.outcome(str(v)); c.checkf(x.size() == 7 && img.size() >= 8 && v <= least + 1e-4 && v <= start + 1e-4, [&] { return str("the tuned weights ", mc::join(x), " have the value ", v, ", the least value seen is ", least, ", the first ", start); });
  }
  c.checkf(listDir(d + "/sd").empty() && listDir(d + "/td").empty(), [&] { return "temporary files are left: " + quoted(listDir(d + "/sd")) + quoted(listDir(d + "/td")); });
}

int main(int argc, char** argv) {
  return mc::run(argc, argv, "P30", {
    {"update", "texts of up to 2 (thorough 3) of 6 n-best lists, two weight vectors, every subset of the components, without -va, with too few and too many references", update, 3, 60},
    {"scores", "every pair of texts of up to 2 (thorough 3) lines out of 5", scores, 3, 60},
    {"lm-weights", "all training texts of 2 lines out of 4, all development texts of up to 2 lines out of 5 (thorough: in any order), orders 2 and 3, prefix, descriptor (thorough: of two models) and missing files", lmWeights, 4, 100},
    {"interpolation", "all development texts of up to 2 pairs out of 5, four initial weights, missing files", liWeights, 4, 100},
    {"lists", "all lists of up to 3 (thorough 4) of 6 entries, with and without arcs, two headers, three weight vectors: rescoring, best translation, sentences, new component", lists, 4, 60},
    {"component", "all lists of up to 2 of 6 entries, every component and an unknown one removed", removed, 3, 60},
    {"merge", "all pairs of lists of up to 2 of 6 entries", merged, 3, 60},
    {"function", "texts of up to 2 of 6 lists, four weight vectors, four sets of constraints, two factors", function, 4, 60},
    {"filter", "lists of up to 2 (thorough 3) of 11 derivations of a sentence, four sets of constraints", filter, 3, 60},
    {"loop", "twelve texts with different courses of the quality, n-best lists of 1 and 4, up to 7 (thorough 9) iterations, default and bad initial weights, three sets of components", loop, 4, 200},
    {"generate", "texts of 1 or 2 sentences out of 4, two references each, n-best lists of 1 and 4, 1 and 2 processors", generated, 3, 200},
  });
}
