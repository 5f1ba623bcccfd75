// The whole decoder service (ThotDecoder) with tiny models; needs FLAGS -include svc_pre.h
#ifndef VERIF_SERVICE_H
#define VERIF_SERVICE_H
#include "mc.h"
#include "prog.h"
#include "ins_op_pair.h"
#include "ThotDecoder.h"
#include "IncrJelMerNgramLM.h"
#include "WordPenaltyModel.h"
#include "WgProcessorForAnlp.h"
#include "PfsmEcmForWg.h"
#include "NonPbEcModelForNbUcat.h"
#include "IncrHmmP0AligModel.h"
#include "WbaIncrPhraseModel.h"
#include "PhrHypNumcovJumps01EqClassF.h"
#include "PbTransModel.h"
#include "WgUncoupledAssistedTrans.h"
#include "multi_stack_decoder_rec.h"
#include "MiraBleu.h"
#include "KbMiraLlWu.h"
#include "PhrScoreInfo.h"
#include "TranslationMetadata.h"
#include <sys/stat.h>
// the factories of the loadable modules, linked in
#define MODULE(x) create_##x
#define create create_lm
#define type_id type_id_lm
#include "IncrJelMerNgramLMFactory.cc"
#undef create
#undef type_id
#define create create_wp
#define type_id type_id_wp
#include "WordPenaltyModelFactory.cc"
#undef create
#undef type_id
#define create create_wgp
#define type_id type_id_wgp
#include "WgProcessorForAnlpPfsmFactory.cc"
#undef create
#undef type_id
#define create create_ecm
#define type_id type_id_ecm
#include "PfsmEcmForWgFactory.cc"
#undef create
#undef type_id
#define create create_ecu
#define type_id type_id_ecu
#include "NonPbEcModelForNbUcatFactory.cc"
#undef create
#undef type_id
#define create create_sw
#define type_id type_id_sw
#include "IncrHmmP0AligModelFactory.cc"
#undef create
#undef type_id
#define create create_pm
#define type_id type_id_pm
#include "WbaIncrPhraseModelFactory.cc"
#undef create
#undef type_id
#define create create_at
#define type_id type_id_at
#include "WgUncoupledAssistedTransPbTmFactory.cc"
#undef create
#undef type_id
#define create create_sd
#define type_id type_id_sd
#include "multi_stack_decoder_rec__pbtm_factory.cc"
#undef create
#undef type_id
#define create create_sc
#define type_id type_id_sc
#include "MiraBleuFactory.cc"
#undef create
#undef type_id
#define create create_wu
#define type_id type_id_wu
#include "KbMiraLlWuFactory.cc"
#undef create
#undef type_id
#define create create_md
#define type_id type_id_md
#include "TranslationMetadataPhrScoreInfoFactory.cc"
#undef create
#undef type_id

namespace svc {
struct Module { const char *base, *so; void *create, *type; };
#define M(base, so, x) {base, so, (void*)create_##x, (void*)type_id_##x}
static const Module modules[] = {
  M("BaseNgramLM", "incr_jel_mer_ngram_lm_factory.so", lm), M("BaseWordPenaltyModel", "word_penalty_model_factory.so", wp),
  M("BaseWgProcessorForAnlp", "wg_processor_for_anlp__pfsm_factory.so", wgp), M("BaseErrorCorrectionModel", "pfsm_ecm_for_wg_factory.so", ecm),
  M("BaseEcModelForNbUcat", "non_pb_ec_model_for_nb_ucat_factory.so", ecu), M("BaseSwAligModel", "incr_hmm_p0_alig_model_factory.so", sw),
  M("BasePhraseModel", "wba_incr_phrase_model_factory.so", pm), M("BaseAssistedTrans", "wg_uncoupled_assisted_trans__pbtm_factory.so", at),
  M("BaseStackDecoder", "multi_stack_decoder_rec__pbtm_factory.so", sd), M("BaseScorer", "mira_bleu_factory.so", sc),
  M("BaseLogLinWeightUpdater", "kb_mira_ll_wu_factory.so", wu), M("BaseTranslationMetadata", "translation_metadata__phrscoreinfo_factory.so", md),
};
#undef M
static std::string ini;
static std::string err;
static int opened = 0;

typedef std::vector<std::string> Str;
typedef std::vector<std::pair<Str, Str>> Corpus;      // (source, target)
inline Str words(const std::string& s) { Str r; std::istringstream i(s); std::string w; while (i >> w) r.push_back(w); return r; }

// Prints the models of a tiny bilingual corpus below dir: tm/tm*, lm/lm*; and master.ini
inline void makeModels(const std::string& dir, const Corpus& k, double lambdaD = 0.7, double lambdaI = 0.7) {
  mkdir(dir.c_str(), 0700); mkdir((dir + "/tm").c_str(), 0700); mkdir((dir + "/lm").c_str(), 0700);
  ini = dir + "/master.ini";
  std::string m = "# modules\n"; for (auto& x : modules) m += mc::str(x.base, " ; /modules/", x.so, " ;\n");
  mc::writeFile(ini, m);
  std::string tm = dir + "/tm/tm", lm = dir + "/lm/lm";
  {                                                   // file names seen from the other direction: *_swm is p(s|t)
    IncrHmmP0AligModel d, i; std::pair<unsigned, unsigned> rg;
    for (auto& p : k) { d.addSentPair(p.first, p.second, Count(1), rg); i.addSentPair(p.second, p.first, Count(1), rg); }
    WbaIncrPhraseModel pm;
    for (int n = 0; n < 3; ++n) { d.trainAllSents(); i.trainAllSents(); }
    d.print((tm + "_invswm").c_str()); i.print((tm + "_swm").c_str());
  }
  mc::writeFile(tm + ".lambda", mc::str(lambdaD, " ", lambdaI, "\n"));
  {
    std::map<std::pair<Str, Str>, int> n; std::map<Str, int> ns, nt;
    auto add = [&](const Str& s, const Str& t) { ++n[{s, t}]; ++ns[s]; ++nt[t]; };
    for (auto& p : k) {
      if (p.first.size() == p.second.size()) for (size_t i = 0; i < p.first.size(); ++i) add({p.first[i]}, {p.second[i]});
      add(p.first, p.second);
    }
    std::string t; for (auto& e : n) t += mc::str(mc::join(e.first.second), " ||| ", mc::join(e.first.first), " ||| ", nt[e.first.second], " ", e.second, "\n");
    mc::writeFile(tm + ".ttable", t);
  }
  {
    IncrJelMerNgramLM l; mc::writeFile(lm + ".weights", "2 1 0 0.7 0.6\n"); l.loadWeights(lm.c_str()); l.setNgramOrder(2);
    std::string wp;
    for (auto& p : k) { l.trainSentence(p.second, Count(1)); wp += mc::join(p.second) + "\n"; }
    l.print(lm.c_str()); mc::writeFile(lm + ".wp", wp);
  }
}
// Configuration file
inline std::string makeCfg(const std::string& dir, const std::string& extra = "") {
  mc::writeFile(dir + "/server.cfg", mc::str("# configuration\n-tm ", dir, "/tm/tm\n-lm ", dir, "/lm/lm\n-W 0\n-S 10\n-A 3\n-E 3\n-nomon 0\n-h 6\n-np 5\n", extra));
  return dir + "/server.cfg";
}
}  // namespace svc
extern "C" {
void* svc_dlopen(const char* f, int) {
  std::string n = f; n = n.substr(n.rfind('/') + 1);
  for (auto& m : svc::modules) if (n == m.so) { ++svc::opened; return (void*)&m; }
  svc::err = "no module " + n; return nullptr;
}
void* svc_dlsym(void* h, const char* n) { auto m = (const svc::Module*)h; return !strcmp(n, "create") ? m->create : !strcmp(n, "type_id") ? m->type : (svc::err = "no symbol", nullptr); }
int svc_dlclose(void*) { --svc::opened; return 0; }
char* svc_dlerror() { static std::string last; if (svc::err.empty()) return nullptr; last = svc::err; svc::err.clear(); return &last[0]; }
const char* svc_master_ini() { return svc::ini.c_str(); }
}
#endif
