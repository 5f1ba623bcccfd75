From fb187a806c357c41e83f2a6c4a6e62fee4824db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 01/98] fix: StlPhraseTable queries must neither add target
 phrases nor dereference end iterators

---
 src/phrase_models/StlPhraseTable.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/phrase_models/StlPhraseTable.cc b/src/phrase_models/StlPhraseTable.cc
index 512ba01..cfb0036 100644
--- a/src/phrase_models/StlPhraseTable.cc
+++ b/src/phrase_models/StlPhraseTable.cc
@@ -225,6 +225,9 @@ void StlPhraseTable::addSrcTrgInfo(const std::vector<WordIndex>& s,
 
         std::cerr << "Make sure that entries for s phrase and t phrase are added before adding (s, t) entry" << std::endl;
         std::cerr << "Missing parts have been added with count 0" << std::endl;
+
+        // Restore key, now that both of its parts exist
+        srcTrgKey = getSrcTrgKey(s, t, found);
     }
 
     // Update entry value
@@ -317,6 +320,10 @@ Count StlPhraseTable::getSrcTrgInfo(const std::vector<WordIndex>& s,
                                     const std::vector<WordIndex>& t,
                                     bool &found)
 {
+    // Queries must not add missing target phrases to the table
+    getTrgInfo(t, found);
+    if (!found) return 0;
+
     SrcTrgKey srcTrgKey = getSrcTrgKey(s, t, found);
     if (!found) return 0;
 
@@ -390,6 +397,10 @@ bool StlPhraseTable::getEntriesForTarget(const std::vector<WordIndex>& t,
     bool found;
     srctn.clear();  // Make sure that structure does not keep old values
 
+    // Queries must not add missing target phrases to the table
+    getTrgInfo(t, found);
+    if (!found || srcPhraseInfo.empty()) return false;
+
     // Prepare iterators
     SrcTrgKey srcTrgBegin = getSrcTrgKey(srcPhraseInfo.begin()->first, t, found);
     if (!found) return false;
-- 
2.43.0


From efb45c667ad5b9dd7e962bddb7560850827e0636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 02/98] fix: HatTriePhraseTable must keep fractional counts and
 iterate over tables without target phrases

---
 src/phrase_models/HatTriePhraseTable.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/phrase_models/HatTriePhraseTable.cc b/src/phrase_models/HatTriePhraseTable.cc
index b9fca7b..760c46e 100644
--- a/src/phrase_models/HatTriePhraseTable.cc
+++ b/src/phrase_models/HatTriePhraseTable.cc
@@ -445,7 +445,7 @@ bool HatTriePhraseTable::getEntriesForSource(const std::vector<WordIndex>& s,
         ppi.first = cTrg(trgPhrase);  // t count
         ppi.second = iter.value();  // (s, t) count
 
-        if ((int) ppi.first.get_c_s() == 0 || (int) ppi.second.get_c_s() == 0)
+        if (fabs(ppi.first.get_c_s()) < EPSILON || fabs(ppi.second.get_c_s()) < EPSILON)
             continue;
 
         trgtn.insert(std::pair<std::vector<WordIndex>, PhrasePairInfo>(trgPhrase, ppi));
@@ -555,7 +555,7 @@ HatTriePhraseTable::const_iterator HatTriePhraseTable::begin(void) const
 {
     // Shift the iterator to the first target phrase
     PhraseTable::const_iterator iterTrgBegin = phraseTable.begin();
-    while (!isTargetPhrase(keyToVector(iterTrgBegin.key())))
+    while (iterTrgBegin != phraseTable.end() && !isTargetPhrase(keyToVector(iterTrgBegin.key())))
     {
         iterTrgBegin++;
     }
-- 
2.43.0


From ff89724732d332581c5793b8ce9e8f2f1358cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 03/98] fix: LevelDbPhraseTable must aggregate target counts
 and report targets without entries as not found

---
 src/phrase_models/LevelDbPhraseTable.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/phrase_models/LevelDbPhraseTable.cc b/src/phrase_models/LevelDbPhraseTable.cc
index c50a7a0..822ab52 100644
--- a/src/phrase_models/LevelDbPhraseTable.cc
+++ b/src/phrase_models/LevelDbPhraseTable.cc
@@ -270,7 +270,8 @@ void LevelDbPhraseTable::addTableEntry(const std::vector<WordIndex>& s,
                                        PhrasePairInfo inf)
 {
     addSrcInfo(s, inf.first.get_c_s());  // (USUSED_WORD, s)
-    storeData(t, (int) round(inf.second.get_c_s()));  // (t)
+    // Values for target are aggregated over the source phrases
+    storeData(t, (int) round((cTrg(t) + inf.second).get_c_s()));  // (t)
     addSrcTrgInfo(s, t, (int) round(inf.second.get_c_st())); // (t, UNUSED_WORD, s)
 }
 
@@ -432,8 +433,7 @@ bool LevelDbPhraseTable::getEntriesForTarget(const std::vector<WordIndex>& t,
     
     srctn.clear();  // Make sure that structure does not keep old values
     
-    int i = 0;
-    for(it->Seek(start); it->Valid() && it->key().ToString() < end.ToString(); it->Next(), i++) {
+    for(it->Seek(start); it->Valid() && it->key().ToString() < end.ToString(); it->Next()) {
         std::vector<WordIndex> vec = keyToVector(it->key().ToString());
         std::vector<WordIndex> src(vec.begin() + start_vec.size(), vec.end());
 
@@ -448,7 +448,7 @@ bool LevelDbPhraseTable::getEntriesForTarget(const std::vector<WordIndex>& t,
 
     delete it;
 
-    return i > 0 && found;
+    return srctn.size() > 0 && found;
 }
 
 //-------------------------
-- 
2.43.0


From 035eff6a56f91845139706a39f44595d686c0f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 04/98] fix: AwkInputStream must not drop the last character of
 a last line without newline

---
 src/nlp_common/AwkInputStream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlp_common/AwkInputStream.cc b/src/nlp_common/AwkInputStream.cc
index 70d0e2f..5231a5f 100644
--- a/src/nlp_common/AwkInputStream.cc
+++ b/src/nlp_common/AwkInputStream.cc
@@ -56,7 +56,7 @@ bool AwkInputStream::getln(void)
     read=getline(&buff,&buftlen,filePtr);
     if(read!=-1)
     {
-      buff[read-1]='\0';
+      if(read>0 && buff[read-1]=='\n') buff[read-1]='\0';
       ++FNR;   
       NF=get_NF();   
       return true;   
-- 
2.43.0


From baa26f22ef0e678da3287abfb51c7e53fb9eab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 05/98] fix: WordAligMatrix::getAligVec must return 1-based
 positions, as putAligVec takes

---
 src/nlp_common/WordAligMatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlp_common/WordAligMatrix.cc b/src/nlp_common/WordAligMatrix.cc
index 85c460e..ca1ebaf 100644
--- a/src/nlp_common/WordAligMatrix.cc
+++ b/src/nlp_common/WordAligMatrix.cc
@@ -116,7 +116,7 @@ bool WordAligMatrix::getAligVec(std::vector<PositionIndex>& aligVec)
     {
       if(matrix[i][j]!=0)
       {
-        if(aligVec[j]==0) aligVec[j]=i;
+        if(aligVec[j]==0) aligVec[j]=i+1;
         else
         {
           aligVec.clear();
-- 
2.43.0


From e508eb0e6a9d1fc6a294c9fb85e1b83fb9a63807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 06/98] fix: WordAligMatrix::operator-= must remove the links
 of its argument

---
 src/nlp_common/WordAligMatrix.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nlp_common/WordAligMatrix.cc b/src/nlp_common/WordAligMatrix.cc
index ca1ebaf..7bbcbf3 100644
--- a/src/nlp_common/WordAligMatrix.cc
+++ b/src/nlp_common/WordAligMatrix.cc
@@ -292,8 +292,11 @@ WordAligMatrix& WordAligMatrix::operator-= (const WordAligMatrix &waMatrix)
   {
     for(i=0;i<I;++i)
       for(j=0;j<J;++j)
+      {
         if(matrix[i][j]!=0 && waMatrix.matrix[i][j]==0)	 
 		  matrix[i][j]=1;
+        else matrix[i][j]=0;
+      }
   }	
   return *this;
 }
-- 
2.43.0


From 8f0670cf394824658862b98e5be52ce7f7951a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 07/98] fix: _incrNgramLM::load_ngrams must skip lines that
 hold no n-gram

---
 src/incr_models/_incrNgramLM.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/incr_models/_incrNgramLM.h b/src/incr_models/_incrNgramLM.h
index 35118da..9a6eb21 100644
--- a/src/incr_models/_incrNgramLM.h
+++ b/src/incr_models/_incrNgramLM.h
@@ -483,7 +483,7 @@ bool _incrNgramLM<SRC_INFO,SRCTRG_INFO>::load_ngrams(const char *fileName)
         // need to know the order before adding any n-gram)
     while(awk.getln())
     {
-      if(ngramOrder<awk.NF-2) ngramOrder=awk.NF-2;
+      if(awk.NF>2 && ngramOrder<awk.NF-2) ngramOrder=awk.NF-2;
     }
 
         // Rewind file
@@ -492,15 +492,12 @@ bool _incrNgramLM<SRC_INFO,SRCTRG_INFO>::load_ngrams(const char *fileName)
         // Read n-grams
     while(awk.getln())
     {
-      if(awk.NF>1)
+      if(awk.NF>2)
       {
         hs.clear();
-        if(awk.NF>2)
+        for(i=1;i<awk.NF-2;++i)
         {
-          for(i=1;i<awk.NF-2;++i)
-          {
-            hs.push_back(awk.dollar(i));
-          }
+          hs.push_back(awk.dollar(i));
         }
         ht=awk.dollar(awk.NF-2);
         inf.first=atof(awk.dollar(awk.NF-1).c_str());
-- 
2.43.0


From 573ed252b02a622cd15162f02b78220e8fac41eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 08/98] fix: BaseNgramLM::perplexity must not count blank lines
 with the previous sentence's probability

---
 src/nlp_common/BaseNgramLM.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nlp_common/BaseNgramLM.h b/src/nlp_common/BaseNgramLM.h
index 89ddaf6..80e488f 100644
--- a/src/nlp_common/BaseNgramLM.h
+++ b/src/nlp_common/BaseNgramLM.h
@@ -289,9 +289,9 @@ int BaseNgramLM<LM_STATE>::perplexity(const char *corpusFileName,
           else std::cerr<<v[i]<<std::endl;
         }
       }
+      totalLogProb+=logp; 
+      ++numOfSentences;	 
     }
-    totalLogProb+=logp; 
-    ++numOfSentences;	 
   }
 
   perp=exp(-((double)totalLogProb/(numWords+numOfSentences))*M_LN10);
-- 
2.43.0


From 5538fdbc7eb25568831d2e72467db9fca1c81c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 09/98] fix: vecx_x_incr_cptable target counts must add up the
 entries of the target

---
 src/incr_models/vecx_x_incr_cptable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/incr_models/vecx_x_incr_cptable.h b/src/incr_models/vecx_x_incr_cptable.h
index febd76e..6c055fe 100644
--- a/src/incr_models/vecx_x_incr_cptable.h
+++ b/src/incr_models/vecx_x_incr_cptable.h
@@ -598,7 +598,7 @@ template<class X,class SRC_INFO,class SRCTRG_INFO>
 Count vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::cTrg(const X& t)
 {
   typename SrcTrgInfo::const_iterator titer;
-  Count c_t=SMALL_LG_NUM;
+  Count c_t=0;
   
   for(titer=srcTrgInfo.begin();titer!=srcTrgInfo.end();++titer)
   {
@@ -606,7 +606,7 @@ Count vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::cTrg(const X& t)
     {
       if(titer->first.size()>1)
       {
-        if(titer->first[0]==t)
+        if(titer->first.back()==t)
         {
           c_t=(float)c_t+(float)titer->second.get_c_st();
         }
@@ -677,7 +677,7 @@ LogCount vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::lcTrg(const X& t)
     {
       if(titer->first.size()>1)
       {
-        if(titer->first[0]==t)
+        if(titer->first.back()==t)
         {
           lc_t=MathFuncs::lns_sumlog(lc_t,titer->second.get_lc_st());
         }
-- 
2.43.0


From 82c85b33747b2d4e333a407d828b9919b3e3011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 10/98] fix: LevelDbNgramTable must update the count of the
 empty history and store counts exactly

---
 src/incr_models/LevelDbNgramTable.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/incr_models/LevelDbNgramTable.cc b/src/incr_models/LevelDbNgramTable.cc
index 2faca8a..35dbc5b 100644
--- a/src/incr_models/LevelDbNgramTable.cc
+++ b/src/incr_models/LevelDbNgramTable.cc
@@ -150,6 +150,7 @@ bool LevelDbNgramTable::retrieveData(const std::vector<WordIndex>& phrase, float
 bool LevelDbNgramTable::storeData(const std::string key, float count)
 {
     std::stringstream ss;
+    ss.precision(9);  // Digits required to restore the value of a float
     ss << count;
     std::string count_str = ss.str();
 
@@ -348,6 +349,15 @@ void LevelDbNgramTable::incrCountsOfEntryLog(const std::vector<WordIndex>& s,
 
     // Update counts
     addSrcTrgInfo(s, t, src_trg_count);  // (s, t)
+
+    // The count of a non-empty source is updated when the n-gram it
+    // constitutes is updated, the count of the empty one is not
+    if (s.empty())
+    {
+        Count src_count = cSrc(s);
+        src_count.incr_logcount((float) lc);
+        addSrcInfo(s, src_count);
+    }
 }
 
 //-------------------------
-- 
2.43.0


From cae6970920af8cd53d13b1c54f6743af8de2e9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 11/98] fix: vecx_x_incr_enc must give one code to an element
 repeated in a new sequence

---
 src/incr_models/vecx_x_incr_enc.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/incr_models/vecx_x_incr_enc.h b/src/incr_models/vecx_x_incr_enc.h
index 8f5650e..b4784f7 100644
--- a/src/incr_models/vecx_x_incr_enc.h
+++ b/src/incr_models/vecx_x_incr_enc.h
@@ -217,6 +217,7 @@ template<class HX,class X>
 std::vector<X> vecx_x_incr_enc<HX,X>::genHSrcCode(const std::vector<HX> &hs)
 {
   typename std::map<HX,X>::iterator iter;
+  std::map<HX,X> newCodes;
   std::vector<X> vecx;
   unsigned int i;
 
@@ -225,8 +226,14 @@ std::vector<X> vecx_x_incr_enc<HX,X>::genHSrcCode(const std::vector<HX> &hs)
     iter=hx_to_x.find(hs[i]);
     if(iter==hx_to_x.end())
     {
-      ++x_object;
-      vecx.push_back(x_object);
+          // Repeated new elements share their code
+      iter=newCodes.find(hs[i]);
+      if(iter==newCodes.end())
+      {
+        ++x_object;
+        iter=newCodes.insert(std::make_pair(hs[i],x_object)).first;
+      }
+      vecx.push_back(iter->second);
     }
     else
     {
-- 
2.43.0


From ea3c4c2e48c90bea7da55d9af5ebf96345e05654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 12/98] fix: vecx_x_incr_enc::load must not let new elements
 reuse the loaded codes

---
 src/incr_models/vecx_x_incr_enc.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/incr_models/vecx_x_incr_enc.h b/src/incr_models/vecx_x_incr_enc.h
index b4784f7..382f8c0 100644
--- a/src/incr_models/vecx_x_incr_enc.h
+++ b/src/incr_models/vecx_x_incr_enc.h
@@ -301,12 +301,13 @@ bool vecx_x_incr_enc<HX,X>::load(const char *prefixFileName)
   }
   else
   {
-    while(ifile)
+    while(ifile>>hx>>x)
     {
-      ifile>>hx>>x;
           //cout<<s<< " ||| " <<t<<" ||| "<<inf<<std::endl;
       this->hx_to_x[hx]=x;
       this->x_to_hx[x]=hx;
+          // New elements should not reuse the codes that were loaded
+      if(x_object<x) x_object=x;
     }
     return THOT_OK;
   }  
-- 
2.43.0


From ada88fa5e4aa063267b95bf23fe1f6372132a1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 13/98] fix: IncrIbm2AligModel::calcLgProbForAlig must count
 the sentence length probability

---
 src/sw_models/IncrIbm2AligModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sw_models/IncrIbm2AligModel.cc b/src/sw_models/IncrIbm2AligModel.cc
index ba6d554..83077af 100644
--- a/src/sw_models/IncrIbm2AligModel.cc
+++ b/src/sw_models/IncrIbm2AligModel.cc
@@ -324,7 +324,7 @@ LgProb IncrIbm2AligModel::incrIBM2LgProb(std::vector<WordIndex> nsSent,
      
   if(verbose) std::cerr<<"Obtaining IBM Model 2 logprob...\n"; 
   
-  LgProb lgProb=0;
+  LgProb lgProb=sentLenLgProb(slen,tlen);
   for(unsigned int j=0;j<alig.size();++j)
   {
     Prob p=pts(nsSent[alig[j]],tSent[j]);
-- 
2.43.0


From c789563ee965b316b9cfed98d1ca8146ec64a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 14/98] fix: lns_sublog must return the logarithm of zero when
 rounding makes the subtrahend reach the minuend

---
 src/nlp_common/MathFuncs.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nlp_common/MathFuncs.cc b/src/nlp_common/MathFuncs.cc
index 38fc250..ddfe90e 100644
--- a/src/nlp_common/MathFuncs.cc
+++ b/src/nlp_common/MathFuncs.cc
@@ -335,6 +335,9 @@ namespace MathFuncs
   //-------------------------
   double lns_sublog(double logx,double logy)
   { 
+        // The difference cannot be negative, return the logarithm of zero
+        // if rounding errors made logy reach logx
+    if(exp(logy-logx)>=1) return SMALL_LG_NUM;
     return logx+log(1-exp(logy-logx));
   }
   
@@ -366,6 +369,9 @@ namespace MathFuncs
   //-------------------------
   float lns_sublog_float(float logx,float logy)
   { 
+        // The difference cannot be negative, return the logarithm of zero
+        // if rounding errors made logy reach logx
+    if(exp(logy-logx)>=1) return SMALL_LG_NUM;
     return logx+log(1-exp(logy-logx));
   }
 
-- 
2.43.0


From db6f249729ba6b2fb50866991e5ff657c09d7771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 15/98] fix: printing expected values without size restriction
 must remove the .msinfo file of an older model

---
 src/sw_models/anjiMatrix.cc         | 8 ++++++++
 src/sw_models/anjm1ip_anjiMatrix.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/sw_models/anjiMatrix.cc b/src/sw_models/anjiMatrix.cc
index de2f08f..54aa40e 100644
--- a/src/sw_models/anjiMatrix.cc
+++ b/src/sw_models/anjiMatrix.cc
@@ -25,6 +25,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 //--------------- Include files --------------------------------------
 
 #include "anjiMatrix.h"
+#include <cstdio>
 
 //--------------- Global variables -----------------------------------
 
@@ -259,6 +260,13 @@ bool anjiMatrix::print(const char* prefFileName)
     retVal=print_maxnsize_data(maxnsizeDataFile.c_str());
     if(retVal==THOT_ERROR) return THOT_ERROR;
   }
+  else
+  {
+        // Remove file left by a model with restricted size
+    std::string maxnsizeDataFile=prefFileName;
+    maxnsizeDataFile=maxnsizeDataFile+".msinfo";
+    std::remove(maxnsizeDataFile.c_str());
+  }
   
   return THOT_OK;
 }
diff --git a/src/sw_models/anjm1ip_anjiMatrix.cc b/src/sw_models/anjm1ip_anjiMatrix.cc
index 5326a2e..790cae6 100644
--- a/src/sw_models/anjm1ip_anjiMatrix.cc
+++ b/src/sw_models/anjm1ip_anjiMatrix.cc
@@ -25,6 +25,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 //--------------- Include files --------------------------------------
 
 #include "anjm1ip_anjiMatrix.h"
+#include <cstdio>
 
 //--------------- Global variables -----------------------------------
 
@@ -513,6 +514,13 @@ bool anjm1ip_anjiMatrix::print(const char* prefFileName)
     retVal=print_maxnsize_data(maxnsizeDataFile.c_str());
     if(retVal==THOT_ERROR) return THOT_ERROR;
   }
+  else
+  {
+        // Remove file left by a model with restricted size
+    std::string maxnsizeDataFile=prefFileName;
+    maxnsizeDataFile=maxnsizeDataFile+".msinfo";
+    std::remove(maxnsizeDataFile.c_str());
+  }
   
   return THOT_OK;
 }
-- 
2.43.0


From abe61a786d65ee34283b4592e1cd70d97c09807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 16/98] fix: loading expected values must not depend on the
 size restriction set before

---
 src/sw_models/anjiMatrix.cc         | 2 ++
 src/sw_models/anjm1ip_anjiMatrix.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/sw_models/anjiMatrix.cc b/src/sw_models/anjiMatrix.cc
index 54aa40e..364334f 100644
--- a/src/sw_models/anjiMatrix.cc
+++ b/src/sw_models/anjiMatrix.cc
@@ -160,6 +160,8 @@ bool anjiMatrix::load(const char* prefFileName)
   bool retVal;
   std::string anjiFile=prefFileName;
   anjiFile=anjiFile+".anji";
+      // Values are loaded at the positions given in the file
+  anji_maxnsize=UNRESTRICTED_ANJI_SIZE;
   retVal=load_anji_values(anjiFile.c_str());
   if(retVal==THOT_ERROR) return THOT_ERROR;
 
diff --git a/src/sw_models/anjm1ip_anjiMatrix.cc b/src/sw_models/anjm1ip_anjiMatrix.cc
index 790cae6..beed0ed 100644
--- a/src/sw_models/anjm1ip_anjiMatrix.cc
+++ b/src/sw_models/anjm1ip_anjiMatrix.cc
@@ -413,6 +413,8 @@ bool anjm1ip_anjiMatrix::load(const char* prefFileName)
   bool retVal;
   std::string matrixFile=prefFileName;
   matrixFile=matrixFile+".anjm1ip_anji";
+      // Values are loaded at the positions given in the file
+  anjm1ip_anji_maxnsize=UNRESTRICTED_ANJM1IP_ANJI_SIZE;
   retVal=load_matrix_values(matrixFile.c_str());
   if(retVal==THOT_ERROR) return THOT_ERROR;
 
-- 
2.43.0


From e817c722eafa92723b314b02c50d458b1d70670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 17/98] fix: LightSentenceHandler::printSentPairs must not lose
 the pairs when printing over the files they are read from

---
 src/sw_models/LightSentenceHandler.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/sw_models/LightSentenceHandler.cc b/src/sw_models/LightSentenceHandler.cc
index 525f6a1..46e3cbb 100644
--- a/src/sw_models/LightSentenceHandler.cc
+++ b/src/sw_models/LightSentenceHandler.cc
@@ -25,6 +25,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 //--------------- Include files --------------------------------------
 
 #include "LightSentenceHandler.h"
+#include <cstdio>
 
 //--------------- LightSentenceHandler class function definitions
 
@@ -304,8 +305,14 @@ bool LightSentenceHandler::printSentPairs(const char *srcSentFile,
   std::ofstream trgOutF;
   std::ofstream countsOutF;
 
+      // Sentences are stored in temporary files first, since sentences
+      // may still have to be read from the files to be printed
+  std::string tmpSrcSentFile=std::string(srcSentFile)+".tmp";
+  std::string tmpTrgSentFile=std::string(trgSentFile)+".tmp";
+  std::string tmpSentCountsFile=std::string(sentCountsFile)+".tmp";
+
       // Open file with source sentences
-  srcOutF.open(srcSentFile,std::ios::out);
+  srcOutF.open(tmpSrcSentFile.c_str(),std::ios::out);
   if(!srcOutF)
   {
     std::cerr<<"Error while printing file with source sentences."<<std::endl;
@@ -313,7 +320,7 @@ bool LightSentenceHandler::printSentPairs(const char *srcSentFile,
   }
 
       // Open file with target sentences
-  trgOutF.open(trgSentFile,std::ios::out);
+  trgOutF.open(tmpTrgSentFile.c_str(),std::ios::out);
   if(!trgOutF)
   {
     std::cerr<<"Error while printing file with target sentences."<<std::endl;
@@ -321,7 +328,7 @@ bool LightSentenceHandler::printSentPairs(const char *srcSentFile,
   }
 
       // Open file with sentence counts
-  countsOutF.open(sentCountsFile,std::ios::out);
+  countsOutF.open(tmpSentCountsFile.c_str(),std::ios::out);
   if(!countsOutF)
   {
     std::cerr<<"Error while printing file with sentence counts."<<std::endl;
@@ -361,6 +368,15 @@ bool LightSentenceHandler::printSentPairs(const char *srcSentFile,
   srcOutF.close();
   trgOutF.close();
   countsOutF.close();
+
+      // Give files their final names
+  if(std::rename(tmpSrcSentFile.c_str(),srcSentFile)!=0 ||
+     std::rename(tmpTrgSentFile.c_str(),trgSentFile)!=0 ||
+     std::rename(tmpSentCountsFile.c_str(),sentCountsFile)!=0)
+  {
+    std::cerr<<"Error while printing files with sentence pairs."<<std::endl;
+    return THOT_ERROR;
+  }
   
   return THOT_OK;
 }
-- 
2.43.0


From 64e15a2409a97d5c6f7e4a0459b8a47a2d6ddc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 18/98] fix: incrEditDistPrefixFirstRow must not charge the
 blank that marks a complete word

---
 src/error_correction/EditDistForVecString.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/error_correction/EditDistForVecString.cc b/src/error_correction/EditDistForVecString.cc
index 36ea160..78b00cd 100644
--- a/src/error_correction/EditDistForVecString.cc
+++ b/src/error_correction/EditDistForVecString.cc
@@ -177,10 +177,16 @@ void EditDistForVecString::incrEditDistPrefixFirstRow(const std::vector<std::str
   
   for(unsigned int j=0; j<incr_y.size(); ++j)
   {
+        // A blank character in the last word of incr_y only means that
+        // the word is complete, it should not be inserted
+    std::string yWord=incr_y[j];
+    if(j==incr_y.size()-1 && StrProcUtils::lastCharIsBlank(yWord))
+      yWord=StrProcUtils::removeLastBlank(yWord);
+
     if(startingPos+j==0)
-      newScoreVec.push_back(insertionCost(incr_y[j]));
+      newScoreVec.push_back(insertionCost(yWord));
     else
-      newScoreVec.push_back(newScoreVec[startingPos+j-1] + insertionCost(incr_y[j]));
+      newScoreVec.push_back(newScoreVec[startingPos+j-1] + insertionCost(yWord));
   }
 }
 
-- 
2.43.0


From 7526b3815ee490e901532b46e7cc0b9794e7f282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:37 +0000
Subject: [PATCH 19/98] fix: words after an empty prefix must not be deleted
 when correcting a sentence

---
 src/error_correction/EditDistForStr.cc       | 13 +++++++++++--
 src/error_correction/EditDistForVecString.cc | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/error_correction/EditDistForStr.cc b/src/error_correction/EditDistForStr.cc
index 360b64c..17ba99d 100644
--- a/src/error_correction/EditDistForStr.cc
+++ b/src/error_correction/EditDistForStr.cc
@@ -251,8 +251,17 @@ Score EditDistForStr::processMatrixCellPref(const std::string& x,
       {
         pred_i=i-1;
         pred_j=0;
-        op_id=DEL_OP;
-        return dm[i-1][0] + deletionCost(x[i-1]);
+            // An empty y has been introduced from the beginning
+        if(usePrefDelOp && y.empty())
+        {
+          op_id=PREF_DEL_OP;
+          return dm[i-1][0];
+        }
+        else
+        {
+          op_id=DEL_OP;
+          return dm[i-1][0] + deletionCost(x[i-1]);
+        }
       }
     }
   }
diff --git a/src/error_correction/EditDistForVecString.cc b/src/error_correction/EditDistForVecString.cc
index 78b00cd..fedb3d5 100644
--- a/src/error_correction/EditDistForVecString.cc
+++ b/src/error_correction/EditDistForVecString.cc
@@ -477,8 +477,17 @@ Score EditDistForVecString::processMatrixCellPref(const std::vector<std::string>
       {
         pred_i=i-1;
         pred_j=0;
-        op_id=DEL_OP;
-        return dm[i-1][0] + deletionCost(x[i-1]);
+            // An empty y has been introduced from the beginning
+        if(usePrefDelOp && y.empty())
+        {
+          op_id=PREF_DEL_OP;
+          return dm[i-1][0];
+        }
+        else
+        {
+          op_id=DEL_OP;
+          return dm[i-1][0] + deletionCost(x[i-1]);
+        }
       }
     }
   }
-- 
2.43.0


From f2f12f8227c3eb894effaf2f3717cc5429bf3a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 20/98] fix: WordGraph::addArc must make room for a new
 predecessor state

---
 src/error_correction/WordGraph.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 2ddf88c..51b81b0 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -94,7 +94,7 @@ void WordGraph::addArc(HypStateIndex predStateIndex,
   arcsPruned.push_back(false);
   
       // Add the new arc   
-  if(succStateIndex<wordGraphStates.size())
+  if(succStateIndex<wordGraphStates.size() && predStateIndex<wordGraphStates.size())
   {
         // Add arc to predecessor and succesor states
     wordGraphStates[predStateIndex].arcsToSuccStates.push_back(wordGraphArcId);
@@ -102,11 +102,12 @@ void WordGraph::addArc(HypStateIndex predStateIndex,
   }
   else
   {
-        // There were not any arcs to the successor state
+        // There were not any arcs to the successor state or to the
+        // predecessor state
     WordGraphStateData wordGraphStateData;
 
         // Add the required number of empty elements to wordGraphStates
-    while(succStateIndex>=wordGraphStates.size())
+    while(succStateIndex>=wordGraphStates.size() || predStateIndex>=wordGraphStates.size())
       wordGraphStates.push_back(wordGraphStateData);
 
         // Add arc to succesor state
-- 
2.43.0


From e031bd8ce73058817d9254c357709827ebed182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 21/98] fix: WordGraph::orderArcsTopol must also reorder
 components, pruning marks and arc lists of states

---
 src/error_correction/WordGraph.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 51b81b0..448842f 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -719,6 +719,7 @@ void WordGraph::orderArcsTopol(void)
 {
       // Define auxiliary variables
   WordGraphArcs wordGraphArcsAux;
+  std::vector<WordGraphArcId> newArcOrder;
 
   std::vector<bool> arcAdded;
   arcAdded.insert(arcAdded.begin(),wordGraphArcs.size(),false);
@@ -774,6 +775,7 @@ void WordGraph::orderArcsTopol(void)
           atLeastOneArcAdded=true;
               // Add arc
           wordGraphArcsAux.push_back(wgArc);
+          newArcOrder.push_back(wgArcId);
               // Mark arc as added
           arcAdded[wgArcId]=true;
               // Close state
@@ -795,6 +797,23 @@ void WordGraph::orderArcsTopol(void)
   {
         // Replace wordGraphArcs with wordGraphArcsAux
     wordGraphArcs=wordGraphArcsAux;
+
+        // Reorder the information stored for each arc and the arc
+        // identifiers stored for each state
+    std::vector<bool> arcsPrunedAux=arcsPruned;
+    std::vector<std::vector<Score> > scrCompsVecAux=scrCompsVec;
+    for(HypStateIndex idx=0;idx<wordGraphStates.size();++idx)
+    {
+      wordGraphStates[idx].arcsToPredStates.clear();
+      wordGraphStates[idx].arcsToSuccStates.clear();
+    }
+    for(WordGraphArcId wgArcId=0;wgArcId<wordGraphArcs.size();++wgArcId)
+    {
+      arcsPruned[wgArcId]=arcsPrunedAux[newArcOrder[wgArcId]];
+      scrCompsVec[wgArcId]=scrCompsVecAux[newArcOrder[wgArcId]];
+      wordGraphStates[wordGraphArcs[wgArcId].predStateIndex].arcsToSuccStates.push_back(wgArcId);
+      wordGraphStates[wordGraphArcs[wgArcId].succStateIndex].arcsToPredStates.push_back(wgArcId);
+    }
   }
 
 }
-- 
2.43.0


From 2b5b625282eb86a5a6249abd8a2c664b0298d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 22/98] fix: word graph pruning must count the initial state
 score once

---
 src/error_correction/WordGraph.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 448842f..b2b1acc 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -1120,7 +1120,8 @@ unsigned int WordGraph::pruneArcsToPredStates(float threshold)
       HypStateIndex predStateIndex=wordGraphArcs[wordGraphArcId].predStateIndex;
       HypStateIndex succStateIndex=wordGraphArcs[wordGraphArcId].succStateIndex;
       Score arcScore=wordGraphArcs[wordGraphArcId].arcScore;
-      Score bestScoreAssociatedToArc=prevScores[predStateIndex]+arcScore+restScores[succStateIndex];
+          // NOTE: both previous and rest scores include the initial score
+      Score bestScoreAssociatedToArc=prevScores[predStateIndex]+arcScore+restScores[succStateIndex]-initialStateScore;
       // std::cerr<<predStateIndex<<" -> "<<succStateIndex<<" , "<<prevScores[predStateIndex]<<" ";
       // std::cerr<<arcScore<<" "<<restScores[succStateIndex]<<" , "<<bestScoreAssociatedToArc<<" , "<<bestHypScore<<" "<<bestHypScore+logThreshold<<std::endl;
 
-- 
2.43.0


From d2f42707954ab1ef8e38a2f74da1ee5e8188df00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 23/98] fix: final states that cannot be reached from the
 initial one are not useful

---
 src/error_correction/WordGraph.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index b2b1acc..d974bd8 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -1192,6 +1192,10 @@ void WordGraph::obtainUsefulStates(std::vector<bool>& stateIsUsefulVec,
   for(unsigned int i=0;i<wordGraphStates.size();++i)
     stateIsUsefulVec.push_back(false);
 
+      // Obtain boolean vector of states reachable from initial node
+  std::vector<bool> stateReachableFromInitVec;
+  obtainStatesReachableFromInit(stateReachableFromInitVec);
+
       // Set vector values for final states
   FinalStateSet::const_iterator fssIter;
   for(fssIter=finalStateSet.begin();fssIter!=finalStateSet.end();++fssIter)
@@ -1211,16 +1215,12 @@ void WordGraph::obtainUsefulStates(std::vector<bool>& stateIsUsefulVec,
         break;
       }
     }
-        // If at least one arc arrives to the final state, mark it as
-        // a useful one
-    if(atLeastOneArcArrivesToState)
+        // If at least one arc arrives to the final state and it can be
+        // reached from the initial state, mark it as a useful one
+    if(atLeastOneArcArrivesToState && stateReachableFromInitVec[*fssIter])
       stateIsUsefulVec[*fssIter]=true;
   }
 
-      // Obtain boolean vector of states reachable from initial node
-  std::vector<bool> stateReachableFromInitVec;
-  obtainStatesReachableFromInit(stateReachableFromInitVec);
-  
       // Reverse iteration over the arcs (arcs are assumed to be
       // topologically ordered)
   for(WordGraphArcId wgArcId=0;wgArcId<wordGraphArcs.size();++wgArcId)
-- 
2.43.0


From ff6cdcbaa558c7649103435f7f173e8a57bdbc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 24/98] fix: word graph pruning must not lose the best path
 through rounding

---
 src/error_correction/WordGraph.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index d974bd8..c2c4d32 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -1126,7 +1126,10 @@ unsigned int WordGraph::pruneArcsToPredStates(float threshold)
       // std::cerr<<arcScore<<" "<<restScores[succStateIndex]<<" , "<<bestScoreAssociatedToArc<<" , "<<bestHypScore<<" "<<bestHypScore+logThreshold<<std::endl;
 
           // Decide if the arc has to be pruned
-      if(bestScoreAssociatedToArc<bestHypScore+logThreshold)
+          // (a small tolerance is used since the order in which scores are
+          // added affects their least significant digits)
+      Score tolerance=1e-9*fabs(bestHypScore);
+      if(bestScoreAssociatedToArc<bestHypScore+logThreshold-tolerance)
       {
         arcsPruned[wordGraphArcId]=true;
         ++numPrunedArcs;
-- 
2.43.0


From 9e55d8a63a3df43ec3e082cbd8aa8256c7d06dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 25/98] fix: word graphs printed with their useful states must
 not list final states that are left out

---
 src/error_correction/WordGraph.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index c2c4d32..46cddda 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -1387,22 +1387,22 @@ void WordGraph::print(std::ostream &outS,
     outS<<std::endl;
   }
   
+      // Obtain useful states (may be misplaced)
+  std::vector<bool> stateIsUsefulVec;
+  std::map<HypStateIndex,HypStateIndex> remappedStates;
+  if(printOnlyUsefulStates)
+    obtainUsefulStates(stateIsUsefulVec,remappedStates);
+
       // Print final states  
   for(finalStateSetIter=finalStateSet.begin();finalStateSetIter!=finalStateSet.end();++finalStateSetIter)
   {
-    if(!finalStatePruned(*finalStateSetIter))
+    if(!finalStatePruned(*finalStateSetIter) && (!printOnlyUsefulStates || remappedStates.count(*finalStateSetIter)>0))
     {
       outS<<*finalStateSetIter<<" ";
     }
   }
   outS<<std::endl;
 
-      // Obtain useful states (may be misplaced)
-  std::vector<bool> stateIsUsefulVec;
-  std::map<HypStateIndex,HypStateIndex> remappedStates;
-  if(printOnlyUsefulStates)
-    obtainUsefulStates(stateIsUsefulVec,remappedStates);
-  
       // Print arcs
   for(unsigned int i=0;i<wordGraphArcs.size();++i)
   {
-- 
2.43.0


From ec1d31db47efae770b941cfafb4846b7b0a306f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 26/98] fix: words of the previous prefix are valid only up to
 the first difference with the new one

---
 src/error_correction/WgProcessorForAnlp.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/error_correction/WgProcessorForAnlp.h b/src/error_correction/WgProcessorForAnlp.h
index d26e9c5..f06324f 100644
--- a/src/error_correction/WgProcessorForAnlp.h
+++ b/src/error_correction/WgProcessorForAnlp.h
@@ -476,8 +476,11 @@ WgProcessorForAnlp<ECM_FOR_WG>::getValidProcPrefixVec(const std::vector<std::str
   for(unsigned int i=0;i<previousPrefixVec.size();++i)
   {
     if(i>=prefixVec.size()) break;
-    if(previousPrefixVec[i]==prefixVec[i])
-      result.push_back(previousPrefixVec[i]);
+    if(previousPrefixVec[i]!=prefixVec[i]) break;
+        // The last word of a prefix may be incomplete, its information
+        // is not valid if it is the last word of only one prefix
+    if((i+1==previousPrefixVec.size()) != (i+1==prefixVec.size())) break;
+    result.push_back(previousPrefixVec[i]);
   }
   return result;
 }
-- 
2.43.0


From 6aad0dcb7aefc5375c6ac81b9527b67ae2037fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 27/98] fix: a position inside a word graph arc must be scored
 with the rest of its own arc

---
 src/error_correction/WgProcessorForAnlp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error_correction/WgProcessorForAnlp.h b/src/error_correction/WgProcessorForAnlp.h
index f06324f..2ab663c 100644
--- a/src/error_correction/WgProcessorForAnlp.h
+++ b/src/error_correction/WgProcessorForAnlp.h
@@ -652,7 +652,7 @@ WgProcessorForAnlp<ECM_FOR_WG>::obtainNbestHypSubStates(unsigned int n,
                 // Obtain ecm score vector for w'th word of current arc
             std::vector<Score> ecmScrVec=ecm_wg_ptr->obtainScrVecFromEsi(ecmScrInfoForArcVec[wgArcId][w]);
                 // Calculate score of the sub-state
-            Score score=wgWeight*wgScr+ecmWeight*ecmScrVec.back()+(wgWeight*restScores[wgArc.predStateIndex]);
+            Score score=wgWeight*wgScr+ecmWeight*ecmScrVec.back()+(wgWeight*(wgArc.arcScore+restScores[wgArc.succStateIndex]));
             
                 // Create sub-state object
             HypSubStateIdx hssIdx;
-- 
2.43.0


From de1e393a7e82a847d9e7bafa843e2b1e19a7a91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 28/98] fix: count the end of sentence once in the scores of
 complete hypotheses when translating with a reference

---
 src/stack_dec/_pbTransModel.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stack_dec/_pbTransModel.h b/src/stack_dec/_pbTransModel.h
index 0050dab..3c76cd3 100644
--- a/src/stack_dec/_pbTransModel.h
+++ b/src/stack_dec/_pbTransModel.h
@@ -1422,6 +1422,11 @@ Score _pbTransModel<HYPOTHESIS>::calcRefLmHeurScore(const _pbTransModel::Hypothe
       }
     }
   }
+      // The score of a complete hypothesis already includes that of the
+      // end of sentence
+  if(this->isComplete(hyp))
+    return 0;
+
       // Return heuristic value
   unsigned int len=hyp.partialTransLength();
   if(len==0)
-- 
2.43.0


From 12d6cc434d4c4af23edf3d9524313aa84c15305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 29/98] fix: order the arcs of the word graph of best-first
 searches before they are used

---
 src/stack_dec/_stackDecoderRec.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/stack_dec/_stackDecoderRec.h b/src/stack_dec/_stackDecoderRec.h
index 59a0acc..e197c7d 100644
--- a/src/stack_dec/_stackDecoderRec.h
+++ b/src/stack_dec/_stackDecoderRec.h
@@ -112,6 +112,7 @@ class _stackDecoderRec: public _stackDecoder<SMT_MODEL>
                                  bool& existIndex);
       // Obtain hypothesis state index for hyp. If the index exist, the
       // value of existIndex will be set to true, and false otherwise
+  void orderWordGraph(void);
   bool printHypStateIdxInfo(const char* filename);
   void printHypStateIdxInfo(std::ostream &outS);
 };
@@ -162,6 +163,7 @@ void _stackDecoderRec<SMT_MODEL>::excludeScoreCompsInWg(void)
 template<class SMT_MODEL>
 WordGraph* _stackDecoderRec<SMT_MODEL>::getWordGraphPtr(void)
 {
+  orderWordGraph();
   return wordGraphPtr;
 }
 
@@ -176,10 +178,21 @@ void _stackDecoderRec<SMT_MODEL>::setWordGraphPtr(WordGraph* _wordGraphPtr)
   wgPtrOwnedByObject=false;
 }
 
+//---------------------------------------
+template<class SMT_MODEL>
+void _stackDecoderRec<SMT_MODEL>::orderWordGraph(void)
+{
+      // Word graph functions assume that arcs are in topological order,
+      // best-first search does not generate them in that order
+  if(!this->breadthFirst && !wordGraphPtr->empty())
+    wordGraphPtr->orderArcsTopol();
+}
+
 //---------------------------------------
 template<class SMT_MODEL>
 unsigned int _stackDecoderRec<SMT_MODEL>::pruneWordGraph(float threshold)
 {
+  orderWordGraph();
       // Prune word graph
   unsigned int numPrunedArcs=wordGraphPtr->prune(threshold);
   return numPrunedArcs;
@@ -199,6 +212,7 @@ bool _stackDecoderRec<SMT_MODEL>::printWordGraph(const char* filename)
     this->smtm_ptr->getWeights(compWeights);
     wordGraphPtr->setCompWeights(compWeights);
   }
+  orderWordGraph();
       // Print word graph
   std::string filenameWordGraph=filename;
   filenameWordGraph=filenameWordGraph+".wg";
-- 
2.43.0


From 0e2e56e7c5f88df6e160a0acd750c4c899bea50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 30/98] fix: accept source sentences made of blanks only

---
 src/stack_dec/TranslationMetadata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_dec/TranslationMetadata.h b/src/stack_dec/TranslationMetadata.h
index 7525073..9ab766b 100644
--- a/src/stack_dec/TranslationMetadata.h
+++ b/src/stack_dec/TranslationMetadata.h
@@ -151,7 +151,7 @@ void TranslationMetadata<SCORE_INFO>::obtainTransConstraints(std::string rawSrcS
     std::vector<std::string> tokRawSrcSentVec=StrProcUtils::stringToStringVector(tokRawSrcSent);
 
         // Scan string vector
-    bool end=false;
+    bool end=tokRawSrcSentVec.empty();
     unsigned int i=0;
     std::vector<std::string> srcPhrase;
     std::vector<std::string> trgPhrase;
-- 
2.43.0


From fc54180b7f9ee826bdb3726806a1a1ef44243063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:02 +0000
Subject: [PATCH 31/98] fix: do not look for constrained phrases beyond the end
 of the source sentence

---
 src/stack_dec/JsonTranslationMetadata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_dec/JsonTranslationMetadata.h b/src/stack_dec/JsonTranslationMetadata.h
index ebf0ea6..8cc6380 100644
--- a/src/stack_dec/JsonTranslationMetadata.h
+++ b/src/stack_dec/JsonTranslationMetadata.h
@@ -316,7 +316,7 @@ bool JsonTranslationMetadata<SCORE_INFO>::isPhraseInSentence(std::vector<std::st
   if(phrase.empty())
     return true;
 
-  if(startPosition + phrase.size() - 1 > srcSentVec.size())
+  if(startPosition + phrase.size() > srcSentVec.size())
     return false;  // Sentence is too short to contain phrase
   
   for(unsigned int i = 0; i < phrase.size(); i++)
-- 
2.43.0


From 28106d999f33a8c2bfaf4c1979c2c1604f1713c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 32/98] fix: report segmentation constraints that are not JSON
 objects instead of throwing

---
 src/stack_dec/JsonTranslationMetadata.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/JsonTranslationMetadata.h b/src/stack_dec/JsonTranslationMetadata.h
index 8cc6380..0b5471e 100644
--- a/src/stack_dec/JsonTranslationMetadata.h
+++ b/src/stack_dec/JsonTranslationMetadata.h
@@ -162,13 +162,13 @@ void JsonTranslationMetadata<SCORE_INFO>::obtainTransConstraints(std::string raw
               
                   // Check if translation field exists
               std::string translation;
-              if((*iter).get("translation").is<std::string>())
+              if((*iter).is<picojson::object>() && (*iter).get("translation").is<std::string>())
                 translation = (*iter).get("translation").get<std::string>();
               else
                 success=false;
 
               std::string original;
-              if((*iter).get("original").is<std::string>())
+              if((*iter).is<picojson::object>() && (*iter).get("original").is<std::string>())
                 original = (*iter).get("original").get<std::string>();
               else
                 success=false;
-- 
2.43.0


From cf2d71308ea0ed71b574152e9cf0e917df60cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 33/98] fix: keep BLEU of short candidates within [0,1]

---
 src/stack_dec/MiraBleu.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/MiraBleu.cc b/src/stack_dec/MiraBleu.cc
index 9b12c9c..52e5cc9 100644
--- a/src/stack_dec/MiraBleu.cc
+++ b/src/stack_dec/MiraBleu.cc
@@ -40,8 +40,8 @@ double MiraBleu::scoreFromStats(std::vector<unsigned int>& stats){
   for (unsigned int sz=1; sz<=4; sz++) {
     unsigned int prec = stats[sz*2];
     unsigned int total = stats[sz*2+1];
-    if (total == 0) log_aux += 1;
-    else            log_aux += (double)my_log((double)prec/total);
+    // n-grams longer than the candidates have a precision of one
+    if (total != 0) log_aux += (double)my_log((double)prec/total);
   }
   log_aux /= 4;
   return bp * (double)exp(log_aux);
-- 
2.43.0


From bdd2a4611008591ae3a229bfc9048b913f3a4423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:39 +0000
Subject: [PATCH 34/98] fix: do not count absent n-grams as found in the
 precision of chrF

---
 src/stack_dec/chrf.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stack_dec/chrf.cc b/src/stack_dec/chrf.cc
index be9abca..2250edf 100644
--- a/src/stack_dec/chrf.cc
+++ b/src/stack_dec/chrf.cc
@@ -254,6 +254,6 @@ void count_ngrams(const std::string& refSentence,
     }
 
     count = std::min(countref, countsys);
-    precision = systotal == 0 ? 1 : (float)count/systotal;
+    precision = systotal == 0 ? 0 : (float)count/systotal;
     recall = reftotal == 0 ? 1 : (float)count/reftotal;
 }
-- 
2.43.0


From e4a705ec5a2a7c94b8835af9fdb60c17b9d7a148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 35/98] fix: keep the current weights when no iteration of
 K-best MIRA improves on them

---
 src/stack_dec/KbMiraLlWu.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/KbMiraLlWu.cc b/src/stack_dec/KbMiraLlWu.cc
index 1ca4bae..de662b4 100644
--- a/src/stack_dec/KbMiraLlWu.cc
+++ b/src/stack_dec/KbMiraLlWu.cc
@@ -68,7 +68,7 @@ void KbMiraLlWu::update(const std::string& reference,
 
   assert (nblist.size() == scoreCompsVec.size());
 
-  std::vector<double> max_wAvg;
+  std::vector<double> max_wAvg(currWeightsVec);
   double quality, max_quality = 0;
 
   scorer->resetBackgroundCorpus();
@@ -163,7 +163,7 @@ void KbMiraLlWu::updateClosedCorpus(const std::vector<std::string>& references,
   // std::cerr << bleu << std::endl;
   // //##########################################################################
 
-  std::vector<double> max_wAvg;
+  std::vector<double> max_wAvg(currWeightsVec);
   double quality, max_quality = 0;
 
   scorer->resetBackgroundCorpus();
-- 
2.43.0


From 08a486b5555e6b818e9e825ac17997479adc3547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:16 +0000
Subject: [PATCH 36/98] fix: evaluate every vertex moved when shrinking the
 simplex

---
 src/downhill_simplex/step_by_step_dhs.c | 36 +++++++++++--------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/downhill_simplex/step_by_step_dhs.c b/src/downhill_simplex/step_by_step_dhs.c
index bbe861c..de50646 100644
--- a/src/downhill_simplex/step_by_step_dhs.c
+++ b/src/downhill_simplex/step_by_step_dhs.c
@@ -307,28 +307,22 @@ int step_by_step_simplex(double start[],
             }
           }
         }
-        if (constrain != NULL) {
-          constrain(v[vg],n);
-        }
-            //f[vg] = objfunc(v[vg]);
-        ret=step_by_step_objfunc(images_file,n,v[vg],x,&f[vg],verbosity);
-        if(ret==DSO_EVAL_FUNC) {
-          deallocate_dhs_mem(n,v,f,vr,ve,vc,vm);
-          return DSO_EVAL_FUNC;
-        }
-
-        k++;
-        if (constrain != NULL) {
-          constrain(v[vh],n);
-        }
-            //f[vh] = objfunc(v[vh]);
-        ret=step_by_step_objfunc(images_file,n,v[vh],x,&f[vh],verbosity);
-        if(ret==DSO_EVAL_FUNC) {
-            deallocate_dhs_mem(n,v,f,vr,ve,vc,vm);
-            return DSO_EVAL_FUNC;
+            /* all vertices but vs have been moved, the function has to be
+               evaluated for each one of them */
+        for (row=0;row<=n;row++) {
+          if (row != vs) {
+            if (constrain != NULL) {
+              constrain(v[row],n);
+            }
+                //f[row] = objfunc(v[row]);
+            ret=step_by_step_objfunc(images_file,n,v[row],x,&f[row],verbosity);
+            if(ret==DSO_EVAL_FUNC) {
+              deallocate_dhs_mem(n,v,f,vr,ve,vc,vm);
+              return DSO_EVAL_FUNC;
+            }
+            k++;
+          }
         }
-
-        k++;					
       }
     }
 		
-- 
2.43.0


From 7590dfa61b55dc63cf7d1320bd64e9c4d70776b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 37/98] fix: copy the keys of a trie along with its data

---
 src/nlp_common/Trie.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nlp_common/Trie.h b/src/nlp_common/Trie.h
index fa65d62..358c44e 100644
--- a/src/nlp_common/Trie.h
+++ b/src/nlp_common/Trie.h
@@ -153,6 +153,7 @@ Trie<KEY,DATA_TYPE>::Trie(const Trie<KEY,DATA_TYPE>& t)
   if(&t!=t.children)
   {
         // The node is initialized
+    this->key=t.key;
     this->data=t.data;
       
     if(t.children!=NULL) // node has children
@@ -187,6 +188,7 @@ Trie<KEY,DATA_TYPE>::operator=(const Trie<KEY,DATA_TYPE>& t)
     if(&t!=t.children)
     {
           // The node is initialized
+      this->key=t.key;
       this->data=t.data;
       
       if(t.children!=NULL) // node has children
-- 
2.43.0


From 7b69b8408c67d5c24d9f60e6df532fd48e8693b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 38/98] fix: forget the data of the first node of a trie when
 clearing it

---
 src/nlp_common/Trie.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nlp_common/Trie.h b/src/nlp_common/Trie.h
index 358c44e..0b4d38a 100644
--- a/src/nlp_common/Trie.h
+++ b/src/nlp_common/Trie.h
@@ -651,6 +651,7 @@ void Trie<KEY,DATA_TYPE>::clear(void)
       delete this->children;
     }
     this->children=this;
+    this->data=DATA_TYPE();
     
     if(this->next!=NULL) // next is not NULL
     {
-- 
2.43.0


From a4f925fc098f659a1ac2be647038cddd8fa5a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 39/98] fix: an emptied hat-trie has no entries below any
 prefix

---
 src/hat_trie/htrie_hash.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hat_trie/htrie_hash.h b/src/hat_trie/htrie_hash.h
index 9e7d91b..b05fe7e 100644
--- a/src/hat_trie/htrie_hash.h
+++ b/src/hat_trie/htrie_hash.h
@@ -1088,7 +1088,7 @@ public:
     }
     
     std::pair<prefix_iterator, prefix_iterator> equal_prefix_range(const CharT* prefix, size_type prefix_size) {
-        if(m_root == nullptr) {
+        if(empty()) {
             return std::make_pair(prefix_end(), prefix_end());
         }
         
@@ -1098,7 +1098,7 @@ public:
     std::pair<const_prefix_iterator, const_prefix_iterator> equal_prefix_range(const CharT* prefix, 
                                                                                size_type prefix_size) const 
     {
-        if(m_root == nullptr) {
+        if(empty()) {
             return std::make_pair(prefix_cend(), prefix_cend());
         }
         
-- 
2.43.0


From 7a1b32c29ff6593bdeedeae5befba388b5d07195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:49 +0000
Subject: [PATCH 40/98] fix: remove the hash node emptied by erasing a prefix
 from a hat-trie

---
 src/hat_trie/htrie_hash.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hat_trie/htrie_hash.h b/src/hat_trie/htrie_hash.h
index b05fe7e..0944a53 100644
--- a/src/hat_trie/htrie_hash.h
+++ b/src/hat_trie/htrie_hash.h
@@ -1487,6 +1487,10 @@ private:
             }
         }
         
+        if(nb_erased > 0 && hnode.array_hash().empty()) {
+            clear_empty_nodes(hnode);
+        }
+        
         return nb_erased;
     }
     
-- 
2.43.0


From 4838c46cb76a8f4a1ccd2f0090e677a4fe0ac6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 41/98] fix: carry between words, unused bits and small sizes
 of a bit set

---
 src/nlp_common/Bitset.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/nlp_common/Bitset.h b/src/nlp_common/Bitset.h
index 4ec7133..c62516a 100644
--- a/src/nlp_common/Bitset.h
+++ b/src/nlp_common/Bitset.h
@@ -161,7 +161,7 @@ Bitset<N>::Bitset(unsigned long ul)
   {
     unsigned int n=NUM_BITS_INT;
     reset();
-    for(unsigned int i=0;i<NUM_INTS_PER_LONG;++i)
+    for(unsigned int i=0;i<NUM_INTS_PER_LONG && i<NUM_WORDS(N);++i)
     {
       words[i]=(unsigned int) ul;
       ul=ul>>n;
@@ -226,6 +226,8 @@ Bitset<N>& Bitset<N>::set(void)
   {
     words[i]=UINT_MAX;
   }
+      // Bits beyond the N-th one do not belong to the set
+  for(size_t n=N;n<NUM_WORDS(N)*NUM_BITS_INT;++n) reset(n);
  
   return *this;
 }
@@ -292,15 +294,15 @@ Bitset<N>& Bitset<N>::operator=(const Bitset<N> &right)
 template<size_t N> 
 Bitset<N>& Bitset<N>::operator+(const Bitset<N> &right)
 { 
- unsigned int i,lastbit,n=1;   
+ unsigned int i,carry=0;   
     
- n=n<<((NUM_BITS_INT)-1);   
  for(i=0;i<NUM_WORDS(N);++i)
  {
-  lastbit=words[i]&n;
-  words[i]=words[i]+right.words[i];   
-  if(lastbit==n && (words[i]&n)==0 && i<NUM_WORDS(N)-1)
-    ++words[i+1];     
+  unsigned int w=right.words[i];
+  unsigned int sum=words[i]+w;
+  unsigned int sumc=sum+carry;
+  carry=(sum<w || sumc<sum) ? 1 : 0;
+  words[i]=sumc;
  }     
 
  return *this;   
@@ -453,7 +455,7 @@ unsigned long Bitset<N>::to_ulong(void)const
     for(unsigned int i=NUM_INTS_PER_LONG;i>0;--i)
     {
       result=result<<n;
-      result+=words[i-1];
+      if(i<=NUM_WORDS(N)) result+=words[i-1];
     }  
     return result;
   }
-- 
2.43.0


From fed7d6eb066ac4cbf90e08c8e0d5911c3ae1f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 42/98] fix: complete the empty prefix with whole words

---
 src/incr_models/WordPredictor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/incr_models/WordPredictor.cc b/src/incr_models/WordPredictor.cc
index 34d1311..c3d6f39 100644
--- a/src/incr_models/WordPredictor.cc
+++ b/src/incr_models/WordPredictor.cc
@@ -188,7 +188,8 @@ void WordPredictor::getSuffixList(std::string input,
             // finish the iteration over the words that starts with the
             // prefix input
 
-        for(i=1;i<trieIter->first.size();++i)
+            // The first symbol is the last one of the prefix, if any
+        for(i=(input.size()>0 ? 1 : 0);i<trieIter->first.size();++i)
         {
           suff.push_back(trieIter->first[i]);
         }
-- 
2.43.0


From f18e148444db72f6e2fe627d9d20d15c1a9d16cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 43/98] fix: add the retained sentences to the word predictor
 when fewer are to be retained

---
 src/incr_models/WordPredictor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/incr_models/WordPredictor.cc b/src/incr_models/WordPredictor.cc
index c3d6f39..8545772 100644
--- a/src/incr_models/WordPredictor.cc
+++ b/src/incr_models/WordPredictor.cc
@@ -125,7 +125,7 @@ void WordPredictor::addSentence(std::vector<std::string> strVec)
   if(numSentsToRetain>0)
   {
     strVecVec.push_back(strVec);
-    if(strVecVec.size()==numSentsToRetain)
+    if(strVecVec.size()>=numSentsToRetain)
     {
       for(unsigned int i=0;i<strVecVec.size();++i)
         addSentenceAux(strVecVec[i]);
-- 
2.43.0


From 2ad9377728d1a63f7b7540c38aff1e35bdadf8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 44/98] fix: do not read beyond the end of the segmentation
 length table

---
 src/phrase_models/SegLenTable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phrase_models/SegLenTable.cc b/src/phrase_models/SegLenTable.cc
index 9fb6ba7..edc716e 100644
--- a/src/phrase_models/SegLenTable.cc
+++ b/src/phrase_models/SegLenTable.cc
@@ -40,7 +40,7 @@ SegLenTable::SegLenTable(void)
 //-------------------------
 Prob SegLenTable::pk_tlen(unsigned int tlen,unsigned int k)
 {
-  if(tlen>MAX_SENTENCE_LENGTH || k>MAX_SENTENCE_LENGTH)
+  if(tlen>=MAX_SENTENCE_LENGTH || k>=MAX_SENTENCE_LENGTH)
   {
     return 0;
   }
-- 
2.43.0


From 4ddf8cd3aadbe2285dddaed1ff4691bdfc79ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 45/98] fix: give new words indices that are not in use

---
 src/nlp_common/SingleWordVocab.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nlp_common/SingleWordVocab.cc b/src/nlp_common/SingleWordVocab.cc
index f808f81..a866134 100644
--- a/src/nlp_common/SingleWordVocab.cc
+++ b/src/nlp_common/SingleWordVocab.cc
@@ -130,6 +130,8 @@ WordIndex SingleWordVocab::addSrcSymbol(std::string s)
  else
  {
    wordIndex=stringToSrcWordIndexMap.size();	
+       // Skip indices in use, loaded vocabularies may have gaps
+   while(srcWordIndexMapToString.find(wordIndex)!=srcWordIndexMapToString.end()) ++wordIndex;
    stringToSrcWordIndexMap[s]=wordIndex;
    srcWordIndexMapToString[wordIndex]=s; 
  }
@@ -280,6 +282,8 @@ WordIndex SingleWordVocab::addTrgSymbol(std::string t)
  else
  {
   wordIndex=stringToTrgWordIndexMap.size();	
+      // Skip indices in use, loaded vocabularies may have gaps
+  while(trgWordIndexMapToString.find(wordIndex)!=trgWordIndexMapToString.end()) ++wordIndex;
   stringToTrgWordIndexMap[t]=wordIndex;
   trgWordIndexMapToString[wordIndex]=t; 
  }
-- 
2.43.0


From a1335d9ad083001fd25bf2d106d64b5ec946da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 46/98] fix: the logarithm of the number of ways to choose
 nothing is zero

---
 src/nlp_common/MathFuncs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlp_common/MathFuncs.cc b/src/nlp_common/MathFuncs.cc
index ddfe90e..5f5d62e 100644
--- a/src/nlp_common/MathFuncs.cc
+++ b/src/nlp_common/MathFuncs.cc
@@ -53,7 +53,7 @@ namespace MathFuncs
  
     if(l<=J)
     {
-      if(l==0) return 1;
+      if(l==0) return 0;
       else
       {
         if(J-l>l)
-- 
2.43.0


From 7dfbebb3ceebb86c4648620bd5ad52703ed8afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 47/98] fix: probability of empty target sentences and of
 lengths below a negative mean

---
 src/sw_models/WeightedIncrNormSlm.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sw_models/WeightedIncrNormSlm.cc b/src/sw_models/WeightedIncrNormSlm.cc
index 79669ad..5774ef9 100644
--- a/src/sw_models/WeightedIncrNormSlm.cc
+++ b/src/sw_models/WeightedIncrNormSlm.cc
@@ -140,7 +140,8 @@ LgProb WeightedIncrNormSlm::sumSentLenLgProb(unsigned int slen,
 LgProb WeightedIncrNormSlm::sentLenLgProbNorm(unsigned int slen,
                                               unsigned int tlen)
 {
-  Prob normprob=sumSentLenProbNorm(slen,tlen)-sumSentLenProbNorm(slen,tlen-1);
+  Prob normprob=sumSentLenProbNorm(slen,tlen);
+  if(tlen>0) normprob-=sumSentLenProbNorm(slen,tlen-1);
   if((double)normprob<SW_PROB_SMOOTH)
     return log(SW_PROB_SMOOTH);
   else return (double)log((double)normprob);
@@ -172,7 +173,7 @@ Prob WeightedIncrNormSlm::sumSentLenProbNorm(unsigned int slen,
     else diff=0;
 
     mean=slen+diff;
-    stddev=(mean)*(0.25);
+    stddev=fabs(mean)*(0.25);
     return MathFuncs::norm_cdf(mean,stddev,tlen+0.5);
   }
 }
-- 
2.43.0


From 3d6c31c8b63fe050f0e21248dd1dac6358a7635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 48/98] fix: triangular distribution function beyond its upper
 end

---
 src/nlp_common/MathFuncs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlp_common/MathFuncs.cc b/src/nlp_common/MathFuncs.cc
index 5f5d62e..cb2297c 100644
--- a/src/nlp_common/MathFuncs.cc
+++ b/src/nlp_common/MathFuncs.cc
@@ -266,7 +266,7 @@ namespace MathFuncs
         return 1.0-(((b-x)*(b-x))/((b-a)*(b-c)));
       }
       else
-        return 0;
+        return (x>b) ? 1 : 0;
     }
   }
 
-- 
2.43.0


From 825554c92d60eb67fd5fc982e24863bae2b4bafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 49/98] fix: include the first character of a string in its
 last word

---
 src/nlp_common/StrProcUtils.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nlp_common/StrProcUtils.cc b/src/nlp_common/StrProcUtils.cc
index 58adfcb..3897751 100644
--- a/src/nlp_common/StrProcUtils.cc
+++ b/src/nlp_common/StrProcUtils.cc
@@ -151,11 +151,11 @@ namespace StrProcUtils
       std::string result;
       unsigned int i;
       
-      i=str.size()-1;
-      while(i>0 && str[i]==' ') --i;
-      while(i>0 && str[i]!=' ') 
+      i=str.size();
+      while(i>0 && str[i-1]==' ') --i;
+      while(i>0 && str[i-1]!=' ') 
       {
-        result=str[i]+result;
+        result=str[i-1]+result;
         --i;
       }
       return result;
-- 
2.43.0


From eb5df840ac018ebcc2310036f89c501b76e2927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 50/98] fix: allocate the strings read by readStringSafe and
 readTwoStringsSafe

---
 src/nlp_common/options.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nlp_common/options.cc b/src/nlp_common/options.cc
index 245cf32..beecd2a 100644
--- a/src/nlp_common/options.cc
+++ b/src/nlp_common/options.cc
@@ -342,9 +342,9 @@ int readStringSafe(int argc, char **argv, const char *pszLabel, char **strPtr)
   i = 1;
   while (i < argc-1)
   {
-    *strPtr=(char*) mem_alloc_utils::my_realloc(strPtr,strlen(argv[i+1])*sizeof(char));
     if (!strcmp(argv[i], pszLabel))
     {
+      *strPtr=(char*) mem_alloc_utils::my_realloc(*strPtr,(strlen(argv[i+1])+1)*sizeof(char));
       strcpy(*strPtr,argv[i+1]);
       return 0;
     }
@@ -421,9 +421,9 @@ int readTwoStringsSafe(int argc,
       }
       else
       {
-        *strPtr1=(char*) mem_alloc_utils::my_realloc(strPtr1,strlen(argv[i+1])*sizeof(char));
+        *strPtr1=(char*) mem_alloc_utils::my_realloc(*strPtr1,(strlen(argv[i+1])+1)*sizeof(char));
         strcpy(*strPtr1,argv[i+1]);
-        *strPtr2=(char*) mem_alloc_utils::my_realloc(strPtr2,strlen(argv[i+2])*sizeof(char));
+        *strPtr2=(char*) mem_alloc_utils::my_realloc(*strPtr2,(strlen(argv[i+2])+1)*sizeof(char));
         strcpy(*strPtr2,argv[i+2]);
         return 0;
       }
-- 
2.43.0


From 7c362f183876065b8cceb76bf5ba29c9fc1f444a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 51/98] fix: negative numbers without integer part are not
 options

---
 src/nlp_common/options.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nlp_common/options.cc b/src/nlp_common/options.cc
index beecd2a..93bef1d 100644
--- a/src/nlp_common/options.cc
+++ b/src/nlp_common/options.cc
@@ -108,6 +108,8 @@ int isOption(const char* str)
   if(strncmp("-",str,1)==0 && strlen(str)>1)
   {
     char c=str[1];
+        // Negative numbers may start with the decimal point
+    if(c=='.' && strlen(str)>2) c=str[2];
     if(c!='0' && c!='1' && c!='2' && c!='3' && c!='4' && c!='5' && c!='6' && c!='7' && c!='8' && c!='9')
       return true;
     else
-- 
2.43.0


From 660111495480be3c79b52e653dc85fd563eaf258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 52/98] fix: fields of streams that are closed or not read yet
 are empty

---
 src/nlp_common/AwkInputStream.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nlp_common/AwkInputStream.cc b/src/nlp_common/AwkInputStream.cc
index 5231a5f..750033a 100644
--- a/src/nlp_common/AwkInputStream.cc
+++ b/src/nlp_common/AwkInputStream.cc
@@ -28,6 +28,8 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 AwkInputStream::AwkInputStream(void)
 {
  FS=0;
+ NF=0;
+ FNR=0;
  buff=NULL;
  buftlen=0;
  fopen_called=false;
@@ -73,7 +75,7 @@ std::string AwkInputStream::dollar(unsigned int n)
  {
   if(n==0)
   {
-    return buff;
+    return (buff!=NULL) ? buff : "";
   }
   else 
   {
@@ -85,7 +87,7 @@ std::string AwkInputStream::dollar(unsigned int n)
     }
   }
  }
- else return NULL;
+ else return "";
 }
 
 //----------
-- 
2.43.0


From 889a369a3475d3d8a59041f08b3a9ccb6b5bc381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 53/98] fix: commented out entries of a descriptor do not give
 the main model

---
 src/nlp_common/ModelDescriptorUtils.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nlp_common/ModelDescriptorUtils.cc b/src/nlp_common/ModelDescriptorUtils.cc
index 40f6718..aae6862 100644
--- a/src/nlp_common/ModelDescriptorUtils.cc
+++ b/src/nlp_common/ModelDescriptorUtils.cc
@@ -152,6 +152,7 @@ bool fileIsDescriptor(std::string fileName,
             // Process descriptor (main file will be searched)
         while(awk.getln())
         {
+          if(awk.dollar(1)=="#") continue;
           if(awk.NF>=3 && awk.dollar(3)=="main")
           {
                 // File is a descriptor and main file was found
-- 
2.43.0


From 635de0db6a2a26a0e3ce336b21583e3d29c05424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 54/98] fix: ignore descriptor entries that are incomplete
 without their comment

---
 src/nlp_common/ModelDescriptorUtils.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nlp_common/ModelDescriptorUtils.cc b/src/nlp_common/ModelDescriptorUtils.cc
index aae6862..a943bca 100644
--- a/src/nlp_common/ModelDescriptorUtils.cc
+++ b/src/nlp_common/ModelDescriptorUtils.cc
@@ -231,6 +231,7 @@ bool extractModelEntryInfo(std::string fileName,
                 entryLen=i-1;
                 break;
               }
+            if(entryLen<3) continue;
             
                 // Extract model initialization info
             for(unsigned int i=1;i<entryLen-1;++i)
-- 
2.43.0


From a178c5330ac57d772f116dd6b000558d87fb548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 55/98] fix: receive and send complete messages whatever their
 fragmentation

---
 src/nlp_common/BasicSocketUtils.cc | 132 ++++++++++++++++-------------
 1 file changed, 71 insertions(+), 61 deletions(-)

diff --git a/src/nlp_common/BasicSocketUtils.cc b/src/nlp_common/BasicSocketUtils.cc
index e5cb7cc..a434a4c 100644
--- a/src/nlp_common/BasicSocketUtils.cc
+++ b/src/nlp_common/BasicSocketUtils.cc
@@ -43,20 +43,59 @@ namespace BasicSocketUtils
   }
 
   //---------------
-  int recvStr(int s,char *str)
+  void recvAll(int s,char *buf,size_t size)
   {
-    int  numbytes;
-
-    numbytes=recvInt(s);
-    if(numbytes>0)
+        // NOTE: recv() may return less data than requested
+    size_t received=0;
+    while(received<size)
     {
-      if ((numbytes=recv(s,str,numbytes,0)) == -1)
+      int ret=recv(s,buf+received,size-received,0);
+      if(ret==-1 && errno==EINTR)
+        continue;
+      if(ret==-1)
       {
-            // recv() call
         std::cerr<<"recv() error!"<<std::endl;
-        throw std::runtime_error("Socket error: Cannot read string");
+        throw std::runtime_error("Socket error: Cannot read data");
+      }
+      if(ret==0)
+        throw std::runtime_error("Socket error: Connection closed by the other end");
+      received+=ret;
+    }
+  }
+
+  //---------------
+  void writeAll(int fd,const char *buf,size_t size)
+  {
+        // NOTE: write() may write less data than requested
+    size_t written=0;
+    while(written<size)
+    {
+      int ret=write(fd,buf+written,size-written);
+      if(ret==-1 && errno==EINTR)
+        continue;
+      if(ret==-1)
+      {
+        std::cerr<<"write() error"<<std::endl;
+        throw std::runtime_error("Socket error: Cannot write data");
       }
+      written+=ret;
     }
+  }
+
+  //---------------
+  int recvLength(int s)
+  {
+    int numbytes=recvInt(s);
+    if(numbytes<0)
+      throw std::runtime_error("Socket error: Wrong string length");
+    return numbytes;
+  }
+
+  //---------------
+  int recvStr(int s,char *str)
+  {
+    int numbytes=recvLength(s);
+    recvAll(s,str,numbytes);
     str[numbytes] = '\0';
     return numbytes;
   }
@@ -64,44 +103,31 @@ namespace BasicSocketUtils
   //---------------
   int recvStlStr(int s,std::string& stlstr)
   {
-    int  numbytes;
-    char* str=NULL;
+    int numbytes=recvLength(s);
 
-    numbytes=recvInt(s);
-    str=(char*) mem_alloc_utils::my_realloc(str,(numbytes+1)*sizeof(char));
-    if(numbytes>0)
+        // NOTE: memory is reserved as data arrives, the length given by
+        // the other end is not trusted
+    std::string result;
+    char buf[NETWORK_BUFF_SIZE];
+    while(result.size()<(size_t)numbytes)
     {
-      if ((numbytes=recv(s,str,numbytes,0)) == -1)
-      {
-            // recv() call
-        std::cerr<<"recv() error!"<<std::endl;
-        free(str);
-        throw std::runtime_error("Socket error: Cannot read STL string");
-      }
+      size_t size=numbytes-result.size();
+      if(size>sizeof(buf))
+        size=sizeof(buf);
+      recvAll(s,buf,size);
+      result.append(buf,size);
     }
-    str[numbytes] = '\0';
-    stlstr=str;
-    free(str);
+    stlstr.swap(result);
     return numbytes;
   }
 
   //---------------
   int recvInt(int s)
   {
-    int numbytes;
     int receivedInt;
 
-    if ((numbytes=recv(s,(char*)&receivedInt,sizeof(int),0)) == -1)
-    {
-          // recv() call
-      std::cerr<<"recv() error!"<<std::endl;
-      throw std::runtime_error("Socket error: Cannot read integer");
-    }
-    else
-    {
-      receivedInt=ntohl(receivedInt);
-    }
-    return receivedInt;
+    recvAll(s,(char*)&receivedInt,sizeof(int));
+    return ntohl(receivedInt);
   }
 
   //---------------
@@ -109,16 +135,16 @@ namespace BasicSocketUtils
   {
     int dp;
     int sign;
-    char auxstr[NETWORK_BUFF_SIZE];
+    std::string auxstr;
     int numbytes;
 
     dp=recvInt(s);
     numbytes=sizeof(int);
     sign=recvInt(s);
     numbytes+=sizeof(int);
-    numbytes+=recvStr(s,auxstr);
-    if(dp>=0) f=(atof(auxstr)/(double)((double)pow((double)10,(double)5-dp)));
-    else f=(atof(auxstr)*(double)((double)pow((double)10,(double)dp-5)));
+    numbytes+=recvStlStr(s,auxstr);
+    if(dp>=0) f=(atof(auxstr.c_str())/(double)((double)pow((double)10,(double)5-dp)));
+    else f=(atof(auxstr.c_str())*(double)((double)pow((double)10,(double)dp-5)));
     if(sign!=0) f=-f;
     return numbytes;
   }
@@ -126,33 +152,17 @@ namespace BasicSocketUtils
   //--------------------------
   int writeInt(int fd,int i)
   {
-    int ret;
-
     i=htonl(i);
-    if((ret=write(fd,(char*) &i,sizeof(i)))==-1)
-    {
-      std::cerr<<"write() error"<<std::endl;
-      throw std::runtime_error("Socket error: Cannot write integer");
-    }
-    return ret;
+    writeAll(fd,(char*) &i,sizeof(i));
+    return sizeof(i);
   }
   //--------------------------
   int writeStr(int fd,const char* s)
   {
-    int numbytes;
-    int ret=0;
-
-    numbytes=strlen(s);
-    ret+=writeInt(fd,numbytes);
-    if(numbytes>0)
-    {
-     if((ret+=write(fd,(char*) s,numbytes))==-1)
-     {
-       std::cerr<<"write() error"<<std::endl;
-       throw std::runtime_error("Socket error: Cannot write string");
-     }
-    }
-    return ret;
+    int numbytes=strlen(s);
+    int ret=writeInt(fd,numbytes);
+    writeAll(fd,s,numbytes);
+    return ret+numbytes;
   }
 
   //---------------
-- 
2.43.0


From f53ae4c75df7156664eee872ede5c196b2f5de62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 56/98] fix: a user whose initialisation failed is not an
 initialised user

---
 src/stack_dec/thot_server.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/stack_dec/thot_server.cc b/src/stack_dec/thot_server.cc
index 6231ac6..be09df1 100644
--- a/src/stack_dec/thot_server.cc
+++ b/src/stack_dec/thot_server.cc
@@ -544,11 +544,12 @@ int init_user_pars_if_required(int user_id)
   {
         // User is new
 
-        // Store user
-    user_set.insert(user_id);
-
         // Initialize parameters
     ret=thotDecoderPtr->initUserPars(user_id,tdu_pars,ts_pars.v_given);
+
+        // Store user
+    if(ret!=THOT_ERROR)
+      user_set.insert(user_id);
   }
   return ret;
 }
-- 
2.43.0


From de601d2bae58fbe941c651631555d3fa6b6a0b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 57/98] fix: close the connection of a request that gets no
 thread

---
 src/stack_dec/thot_server.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stack_dec/thot_server.cc b/src/stack_dec/thot_server.cc
index be09df1..ac94397 100644
--- a/src/stack_dec/thot_server.cc
+++ b/src/stack_dec/thot_server.cc
@@ -316,6 +316,7 @@ int start_server(void)
     {
           // Release memory since thread was not created
       delete rdata_ptr;
+      close(new_fd);
       
       StdCerrThreadSafe<<"Warning: call to pthread_create failed"<<std::endl;
     }
-- 
2.43.0


From 3a5ead8422d35603b5a2c344793d4df46069d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 58/98] fix: an incomplete request does not end the server

---
 src/stack_dec/thot_server.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/stack_dec/thot_server.cc b/src/stack_dec/thot_server.cc
index ac94397..cc79c6a 100644
--- a/src/stack_dec/thot_server.cc
+++ b/src/stack_dec/thot_server.cc
@@ -274,10 +274,6 @@ int start_server(void)
       continue;
     }
 
-        // Check if server should be finished
-    if(request_type==END_SERVER)
-      end_server=true;
-      
         // Obtain user identifier
     int user_id;
     ret=get_user_id(new_fd,user_id);
@@ -288,6 +284,10 @@ int start_server(void)
       continue;
     }
 
+        // Check if server should be finished
+    if(request_type==END_SERVER)
+      end_server=true;
+
         // Init user parameters if required
     ret=init_user_pars_if_required(user_id);
     if(ret==THOT_ERROR)
-- 
2.43.0


From 8bfd8a9c0d19df2d038a6e1360b1433fa94fb4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:59 +0000
Subject: [PATCH 59/98] fix: do not look before the start of an empty prefix

---
 src/error_correction/WgProcessorForAnlp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error_correction/WgProcessorForAnlp.h b/src/error_correction/WgProcessorForAnlp.h
index 2ab663c..225b2c2 100644
--- a/src/error_correction/WgProcessorForAnlp.h
+++ b/src/error_correction/WgProcessorForAnlp.h
@@ -318,7 +318,7 @@ WgProcessorForAnlp<ECM_FOR_WG>::correct(std::string prefix,
 
         // Obtain prefix vector
     std::vector<std::string> prefixVec=StrProcUtils::stringToStringVector(prefix);
-    if(prefix[prefix.size()-1]==' ' && prefixVec.size()>0)
+    if(prefixVec.size()>0 && prefix[prefix.size()-1]==' ')
     {
       prefixVec[prefixVec.size()-1]+=' ';
     }
-- 
2.43.0


From 19349bd102c756b00814f0d3dda4be52c5ca2128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 60/98] fix: another translation of the user does not replace
 the word-graph of an assisted translation

---
 src/stack_dec/WgUncoupledAssistedTrans.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stack_dec/WgUncoupledAssistedTrans.h b/src/stack_dec/WgUncoupledAssistedTrans.h
index 6ff1c84..88d7965 100644
--- a/src/stack_dec/WgUncoupledAssistedTrans.h
+++ b/src/stack_dec/WgUncoupledAssistedTrans.h
@@ -335,7 +335,11 @@ WgUncoupledAssistedTrans<SMT_MODEL>::obtainWgUsingTranslator(std::string s,
       // Set flag
   completeHypReachable=smtm_ptr->isComplete(hyp);
   
-  return sdr_ptr->getWordGraphPtr();
+      // Keep a copy, since the next translation of the decoder replaces
+      // its word-graph
+  *wg_ptr=*(sdr_ptr->getWordGraphPtr());
+
+  return wg_ptr;
 }
 
 //---------------------------------
-- 
2.43.0


From d0d2c3666ff81e4e31819a54b993b064245bd297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 61/98] fix: preprocessing that does not exist is disabled, as
 announced

---
 src/stack_dec/ThotDecoder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index 6f4b76d..02e0491 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -1408,6 +1408,7 @@ void ThotDecoder::set_preproc(int user_id,
       break;
 #endif
     default: tdPerUserVarsVec[idx].prePosProcessorPtr=0;
+      tdState.preprocId=DISABLE_PREPROC;
       if(verbose)
         StdCerrThreadSafe<<"user_id: "<<user_id<<", warning! invalid preprocId, the pre/pos-processing steps are disabled"<<std::endl;
       break;
-- 
2.43.0


From 0f047fa1a841ce4e2c83fd5c9f405dd34ca2e2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:22 +0000
Subject: [PATCH 62/98] fix: the data of a new user is not created while other
 operations use the vectors

---
 src/stack_dec/ThotDecoder.cc | 59 +++++++++++++++++++++---------------
 src/stack_dec/ThotDecoder.h  |  1 +
 2 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index 02e0491..2353c12 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -2170,10 +2170,7 @@ void ThotDecoder::translateSentence(int user_id,
   bool printTid=threadIdShouldBePrinted(verbose);
 
       // Increase non_atomic_ops_running variable
-  increase_non_atomic_ops_running();
-  
-      // Obtain index vector given user_id
-  size_t idx=get_vecidx_for_user_id(user_id);
+  size_t idx=begin_non_atomic_op(user_id);
   if(verbose) StdCerrThreadSafeCond(printTid)<<"user_id: "<<user_id<<", idx: "<<idx<<std::endl;
 
   pthread_mutex_lock(&per_user_mut[idx]);
@@ -2316,10 +2313,7 @@ void ThotDecoder::sentPairVerCov(int user_id,
   bool printTid=threadIdShouldBePrinted(verbose);
 
       // Increase non_atomic_ops_running variable
-  increase_non_atomic_ops_running();
-
-      // Obtain index vector given user_id
-  size_t idx=get_vecidx_for_user_id(user_id);
+  size_t idx=begin_non_atomic_op(user_id);
 
   if(verbose)
     StdCerrThreadSafeCond(printTid)<<"user_id: "<<user_id<<", idx: "<<idx<<std::endl;
@@ -2373,10 +2367,7 @@ void ThotDecoder::startCat(int user_id,
   bool printTid=threadIdShouldBePrinted(verbose);
 
       // Increase non_atomic_ops_running variable
-  increase_non_atomic_ops_running();
-
-      // Obtain index vector given user_id
-  size_t idx=get_vecidx_for_user_id(user_id);
+  size_t idx=begin_non_atomic_op(user_id);
 
   if(verbose) StdCerrThreadSafeCond(printTid)<<"user_id: "<<user_id<<", idx: "<<idx<<std::endl;
 
@@ -2451,10 +2442,7 @@ void ThotDecoder::addStrToPref(int user_id,
   bool printTid=threadIdShouldBePrinted(verbose);
 
       // Increase non_atomic_ops_running variable
-  increase_non_atomic_ops_running();
-
-      // Obtain index vector given user_id
-  size_t idx=get_vecidx_for_user_id(user_id);
+  size_t idx=begin_non_atomic_op(user_id);
 
   if(verbose)
     StdCerrThreadSafeCond(printTid)<<"user_id: "<<user_id<<", idx: "<<idx<<std::endl;
@@ -2561,10 +2549,7 @@ void ThotDecoder::setPref(int user_id,
                           int verbose/*=0*/)
 {
       // Increase non_atomic_ops_running variable
-  increase_non_atomic_ops_running();
-
-      // Obtain index vector given user_id
-  size_t idx=get_vecidx_for_user_id(user_id);
+  size_t idx=begin_non_atomic_op(user_id);
 
   pthread_mutex_lock(&per_user_mut[idx]);
   /////////// begin of user mutex
@@ -2601,10 +2586,7 @@ void ThotDecoder::resetPrefix(int user_id,
   bool printTid=threadIdShouldBePrinted(verbose);
 
       // Increase non_atomic_ops_running variable
-  increase_non_atomic_ops_running();
-
-      // Obtain index vector given user_id
-  size_t idx=get_vecidx_for_user_id(user_id);
+  size_t idx=begin_non_atomic_op(user_id);
 
   if(verbose)
     StdCerrThreadSafeCond(printTid)<<"user_id: "<<user_id<<", idx: "<<idx<<std::endl;
@@ -2880,6 +2862,35 @@ void ThotDecoder::increase_non_atomic_ops_running(void)
   pthread_mutex_unlock(&non_atomic_op_mut);
 }
 
+//--------------------------
+size_t ThotDecoder::begin_non_atomic_op(int user_id)
+{
+  while(true)
+  {
+    increase_non_atomic_ops_running();
+
+        // Look for the data of the user
+    pthread_mutex_lock(&user_id_to_idx_mut);
+    std::map<int,size_t>::iterator mapIter=userIdToIdx.find(user_id);
+    bool found=(mapIter!=userIdToIdx.end());
+    size_t idx=0;
+    if(found) idx=mapIter->second;
+    pthread_mutex_unlock(&user_id_to_idx_mut);
+
+    if(found) return idx;
+
+        // The data has to be created, which changes vectors that are
+        // used by the non-atomic operations
+    decrease_non_atomic_ops_running();
+
+    pthread_mutex_lock(&atomic_op_mut);
+    wait_on_non_atomic_op_cond();
+    get_vecidx_for_user_id(user_id);
+    pthread_mutex_unlock(&non_atomic_op_mut);
+    pthread_mutex_unlock(&atomic_op_mut);
+  }
+}
+
 //--------------------------
 void ThotDecoder::decrease_non_atomic_ops_running(void)
 {
diff --git a/src/stack_dec/ThotDecoder.h b/src/stack_dec/ThotDecoder.h
index 91da400..ad73ed6 100644
--- a/src/stack_dec/ThotDecoder.h
+++ b/src/stack_dec/ThotDecoder.h
@@ -188,6 +188,7 @@ class ThotDecoder
       // Mutex- and condition-related functions
   void wait_on_non_atomic_op_cond(void);
   void increase_non_atomic_ops_running(void);
+  size_t begin_non_atomic_op(int user_id);
   void decrease_non_atomic_ops_running(void);
 
       // Functions to initialize translator
-- 
2.43.0


From 52edd8fbb5329022188db1a82a19402c3a21fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:05 +0000
Subject: [PATCH 63/98] fix: the data of a user is not released while in use,
 and created again when needed

---
 src/stack_dec/ThotDecoder.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index 2353c12..d0ae53e 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -333,6 +333,10 @@ bool ThotDecoder::user_id_new(int user_id)
 //--------------------------
 void ThotDecoder::release_user_data(int user_id)
 {
+      // The data may be in use by non-atomic operations
+  pthread_mutex_lock(&atomic_op_mut);
+  wait_on_non_atomic_op_cond();
+
   pthread_mutex_lock(&user_id_to_idx_mut);
   /////////// begin of mutex 
   std::map<int,size_t>::iterator mapIter;
@@ -346,6 +350,9 @@ void ThotDecoder::release_user_data(int user_id)
   }
   /////////// end of mutex 
   pthread_mutex_unlock(&user_id_to_idx_mut);  
+
+  pthread_mutex_unlock(&non_atomic_op_mut);
+  pthread_mutex_unlock(&atomic_op_mut);
 }
 
 //--------------------------
@@ -506,6 +513,15 @@ size_t ThotDecoder::get_vecidx_for_user_id(int user_id)
   if(mapIter!=userIdToIdx.end())
   {
     idx=mapIter->second;
+
+        // Create the data again if it was released
+    if(idxDataReleased[idx])
+    {
+      if(init_idx_data(idx)==THOT_ERROR)
+        exit(1);
+      totalPrefixVec[idx].clear();
+      idxDataReleased[idx]=false;
+    }
   }
   else
   {
@@ -2782,7 +2798,7 @@ int ThotDecoder::printModelWeights(void)
 int ThotDecoder::printCatWeights(void)
 {
       // Check if an assisted translator has been previously instantiated
-  if(!tdPerUserVarsVec.empty())
+  if(!tdPerUserVarsVec.empty() && !idxDataReleased[0])
   {
     std::cout<<"- Assisted translator weights= ";
     tdPerUserVarsVec[0].assistedTransPtr->printWeights(std::cout);
@@ -2872,7 +2888,7 @@ size_t ThotDecoder::begin_non_atomic_op(int user_id)
         // Look for the data of the user
     pthread_mutex_lock(&user_id_to_idx_mut);
     std::map<int,size_t>::iterator mapIter=userIdToIdx.find(user_id);
-    bool found=(mapIter!=userIdToIdx.end());
+    bool found=(mapIter!=userIdToIdx.end() && !idxDataReleased[mapIter->second]);
     size_t idx=0;
     if(found) idx=mapIter->second;
     pthread_mutex_unlock(&user_id_to_idx_mut);
-- 
2.43.0


From 5ef7780de7f4e69b1932a8de7a265608225be063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:39 +0000
Subject: [PATCH 64/98] fix: a user that is refused does not block the decoder

---
 src/stack_dec/ThotDecoder.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stack_dec/ThotDecoder.cc b/src/stack_dec/ThotDecoder.cc
index d0ae53e..adb5cae 100644
--- a/src/stack_dec/ThotDecoder.cc
+++ b/src/stack_dec/ThotDecoder.cc
@@ -1079,10 +1079,10 @@ int ThotDecoder::initUserPars(int user_id,
       // Load preproc. info if requested
   if(tdup.sp && tdup.uc_str!="")
     ret=use_caseconv(user_id,tdup.uc_str.c_str(),verbose);
-  if(ret==THOT_ERROR) return THOT_ERROR;
 
       // Set cat weights
-  set_catw(user_id,tdup.catWeightsVec,verbose);
+  if(ret!=THOT_ERROR)
+    set_catw(user_id,tdup.catWeightsVec,verbose);
 
       // Unlock non_atomic_op_cond mutex
   pthread_mutex_unlock(&non_atomic_op_mut);
@@ -1090,7 +1090,7 @@ int ThotDecoder::initUserPars(int user_id,
   /////////// end of mutex 
   pthread_mutex_unlock(&atomic_op_mut);
 
-  return THOT_OK;
+  return (ret==THOT_ERROR)?THOT_ERROR:THOT_OK;
 }
 
 //--------------------------
-- 
2.43.0


From d44c378560a018dfc68550bd081693d2fda159c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 65/98] fix: close the printed phrase table

---
 src/phrase_models/_incrPhraseModel.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/phrase_models/_incrPhraseModel.cc b/src/phrase_models/_incrPhraseModel.cc
index 8eddacd..d3ef780 100644
--- a/src/phrase_models/_incrPhraseModel.cc
+++ b/src/phrase_models/_incrPhraseModel.cc
@@ -448,6 +448,7 @@ bool _incrPhraseModel::printTTable(const char *outputFileName)
   else
   {
     printTTable(outf);
+    fclose(outf);
     return THOT_OK;
   }
 }
-- 
2.43.0


From 188623558e9ba93cf5c9c6edab5ed27c269d1207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:26 +0000
Subject: [PATCH 66/98] fix: interlaced online training counts every sample
 once, for all values of its parameters

---
 src/stack_dec/PhrLocalSwLiTm.cc    | 4 +++-
 src/stack_dec/StdFeatureHandler.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/PhrLocalSwLiTm.cc b/src/stack_dec/PhrLocalSwLiTm.cc
index 418c3d4..dd55e56 100644
--- a/src/stack_dec/PhrLocalSwLiTm.cc
+++ b/src/stack_dec/PhrLocalSwLiTm.cc
@@ -690,7 +690,9 @@ int PhrLocalSwLiTm::incrTrainFeatsSentPair(const char *srcSent,
   }
 
       // Discard unnecessary phrase-based model sufficient statistics
-  int last_n=curr_sample-((onlineTrainingPars.E_par-1)*(onlineTrainingPars.R_par/onlineTrainingPars.E_par));
+  int last_n=-1;
+  if(onlineTrainingPars.E_par>0)
+    last_n=oldest_sample+(onlineTrainingPars.R_par/onlineTrainingPars.E_par);
   if(last_n>=0)
   {
     int mapped_last_n=map_n_am_suff_stats(last_n);
diff --git a/src/stack_dec/StdFeatureHandler.cc b/src/stack_dec/StdFeatureHandler.cc
index 0a381bf..188446a 100644
--- a/src/stack_dec/StdFeatureHandler.cc
+++ b/src/stack_dec/StdFeatureHandler.cc
@@ -348,7 +348,9 @@ int StdFeatureHandler::trainAligModel(BasePhraseModel* invPbModelPtr,
   }
 
       // Discard unnecessary phrase-based model sufficient statistics
-  int last_n=curr_sample-((onlineTrainingPars.E_par-1)*(onlineTrainingPars.R_par/onlineTrainingPars.E_par));
+  int last_n=-1;
+  if(onlineTrainingPars.E_par>0)
+    last_n=oldest_sample+(onlineTrainingPars.R_par/onlineTrainingPars.E_par);
   if(last_n>=0)
   {
     int mapped_last_n=map_n_am_suff_stats(last_n);
-- 
2.43.0


From be85dbf91a6f8dd7e77a1360426a61c6ff859a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 67/98] fix: thot_filter_bin_ilextable goes on after a filter
 entry that is not in the table

---
 src/sw_models/thot_filter_bin_ilextable.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sw_models/thot_filter_bin_ilextable.cc b/src/sw_models/thot_filter_bin_ilextable.cc
index 3345f09..222fb9d 100644
--- a/src/sw_models/thot_filter_bin_ilextable.cc
+++ b/src/sw_models/thot_filter_bin_ilextable.cc
@@ -100,7 +100,13 @@ int main(int argc,char *argv[])
         end=true;
       else
       {
-        if(s==sFilt && t==tFilt)
+            // Skip filter records of parameters that are not in the table
+        while(!end && (sFilt<s || (sFilt==s && tFilt<t)))
+        {
+          if(readFiltInfoRecord(filtInfoInf,sFilt,tFilt)==NO_RECORDS_LEFT)
+            end=true;
+        }
+        if(!end && s==sFilt && t==tFilt)
         {
 //          printf("%d %d %g %g\n",s,t,numer,denom);
           std::cout.write((char*)&s,sizeof(WordIndex));
-- 
2.43.0


From ed4e9e8ac0476754e4a0d153da467ed9d1a02e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 68/98] fix: merging word alignment tables without entries
 gives an empty table

---
 src/sw_models/thot_merge_bin_ihmmatable.cc     | 3 ++-
 src/sw_models/thot_merge_bin_iibm2atable.cc    | 3 ++-
 src/sw_models/thot_merge_bin_ilextable.cc      | 3 ++-
 utils/sw_models/thot_merge_text_ihmmatable.sh  | 2 +-
 utils/sw_models/thot_merge_text_iibm2atable.sh | 2 +-
 utils/sw_models/thot_merge_text_ilextable.sh   | 2 +-
 6 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/sw_models/thot_merge_bin_ihmmatable.cc b/src/sw_models/thot_merge_bin_ihmmatable.cc
index 1775d75..e2545e7 100644
--- a/src/sw_models/thot_merge_bin_ihmmatable.cc
+++ b/src/sw_models/thot_merge_bin_ihmmatable.cc
@@ -176,7 +176,8 @@ int main(int argc,char *argv[])
       else end=true;
     }
         // Print last group of counts
-    printCounts(firstSrc,trgPosVec,lcSrc,lcSrcTrgVec);
+    if(!first_entry)
+      printCounts(firstSrc,trgPosVec,lcSrc,lcSrcTrgVec);
 
         // Close files and release pointers
     clear();
diff --git a/src/sw_models/thot_merge_bin_iibm2atable.cc b/src/sw_models/thot_merge_bin_iibm2atable.cc
index b832647..2ee08db 100644
--- a/src/sw_models/thot_merge_bin_iibm2atable.cc
+++ b/src/sw_models/thot_merge_bin_iibm2atable.cc
@@ -179,7 +179,8 @@ int main(int argc,char *argv[])
       else end=true;
     }
         // Print last group of counts
-    printCounts(firstSrc,trgPosVec,lcSrc,lcSrcTrgVec);
+    if(!first_entry)
+      printCounts(firstSrc,trgPosVec,lcSrc,lcSrcTrgVec);
 
         // Close files and release pointers
     clear();
diff --git a/src/sw_models/thot_merge_bin_ilextable.cc b/src/sw_models/thot_merge_bin_ilextable.cc
index f455cb5..6b63b91 100644
--- a/src/sw_models/thot_merge_bin_ilextable.cc
+++ b/src/sw_models/thot_merge_bin_ilextable.cc
@@ -172,7 +172,8 @@ int main(int argc,char *argv[])
       else end=true;
     }
         // Print last group of counts
-    printCounts(firstSrc,trgWordVec,lcSrc,lcSrcTrgVec);
+    if(!first_entry)
+      printCounts(firstSrc,trgWordVec,lcSrc,lcSrcTrgVec);
 
         // Close files and release pointers
     clear();
diff --git a/utils/sw_models/thot_merge_text_ihmmatable.sh b/utils/sw_models/thot_merge_text_ihmmatable.sh
index 1b121a8..ed8b409 100644
--- a/utils/sw_models/thot_merge_text_ihmmatable.sh
+++ b/utils/sw_models/thot_merge_text_ihmmatable.sh
@@ -102,7 +102,7 @@ merge_sorted_counts()
           }
        END{
              # print last group of counts
-             print_counts()
+             if(first_entry==0) print_counts()
           }'
 }
 
diff --git a/utils/sw_models/thot_merge_text_iibm2atable.sh b/utils/sw_models/thot_merge_text_iibm2atable.sh
index 98ef9c0..8bc6d95 100644
--- a/utils/sw_models/thot_merge_text_iibm2atable.sh
+++ b/utils/sw_models/thot_merge_text_iibm2atable.sh
@@ -102,7 +102,7 @@ merge_sorted_counts()
           }
        END{
              # print last group of counts
-             print_counts()
+             if(first_entry==0) print_counts()
           }'
 }
 
diff --git a/utils/sw_models/thot_merge_text_ilextable.sh b/utils/sw_models/thot_merge_text_ilextable.sh
index 6a7e9d2..db9ae0b 100644
--- a/utils/sw_models/thot_merge_text_ilextable.sh
+++ b/utils/sw_models/thot_merge_text_ilextable.sh
@@ -102,7 +102,7 @@ merge_sorted_counts()
           }
        END{
              # print last group of counts
-             print_counts()
+             if(first_entry==0) print_counts()
           }'
 }
 
-- 
2.43.0


From 49ae7dc6609bb87ee289b97f3f584f62c3ee79a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 69/98] fix: log additions of the table scripts overflowed

---
 utils/sw_models/thot_merge_text_ihmmatable.sh  | 2 +-
 utils/sw_models/thot_merge_text_iibm2atable.sh | 2 +-
 utils/sw_models/thot_merge_text_ilextable.sh   | 2 +-
 utils/sw_models/thot_prune_text_ilextable.sh   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/sw_models/thot_merge_text_ihmmatable.sh b/utils/sw_models/thot_merge_text_ihmmatable.sh
index ed8b409..5b80689 100644
--- a/utils/sw_models/thot_merge_text_ihmmatable.sh
+++ b/utils/sw_models/thot_merge_text_ihmmatable.sh
@@ -13,7 +13,7 @@ merge_sorted_counts()
      }
      function lns_sumlog(logx,logy)
      {
-      if(lx>ly)
+      if(logx>logy)
       {
        return logx+log(1+exp(logy-logx));
       }
diff --git a/utils/sw_models/thot_merge_text_iibm2atable.sh b/utils/sw_models/thot_merge_text_iibm2atable.sh
index 8bc6d95..9de83a9 100644
--- a/utils/sw_models/thot_merge_text_iibm2atable.sh
+++ b/utils/sw_models/thot_merge_text_iibm2atable.sh
@@ -13,7 +13,7 @@ merge_sorted_counts()
      }
      function lns_sumlog(logx,logy)
      {
-      if(lx>ly)
+      if(logx>logy)
       {
        return logx+log(1+exp(logy-logx));
       }
diff --git a/utils/sw_models/thot_merge_text_ilextable.sh b/utils/sw_models/thot_merge_text_ilextable.sh
index db9ae0b..a432c83 100644
--- a/utils/sw_models/thot_merge_text_ilextable.sh
+++ b/utils/sw_models/thot_merge_text_ilextable.sh
@@ -13,7 +13,7 @@ merge_sorted_counts()
      }
      function lns_sumlog(logx,logy)
      {
-      if(lx>ly)
+      if(logx>logy)
       {
        return logx+log(1+exp(logy-logx));
       }
diff --git a/utils/sw_models/thot_prune_text_ilextable.sh b/utils/sw_models/thot_prune_text_ilextable.sh
index 4a8736e..a80c8ad 100644
--- a/utils/sw_models/thot_prune_text_ilextable.sh
+++ b/utils/sw_models/thot_prune_text_ilextable.sh
@@ -13,7 +13,7 @@ function prune_sorted_table()
      }
      function lns_sumlog(logx,logy)
      {
-      if(lx>ly)
+      if(logx>logy)
       {
        return logx+log(1+exp(logy-logx));
       }
-- 
2.43.0


From 1f1593f6b05d84e22fe6c1d9cf3dd29c6dc20d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 70/98] fix: table scripts read the standard input if no table
 is given

---
 utils/sw_models/thot_merge_text_ihmmatable.sh  | 14 ++++++++++++--
 utils/sw_models/thot_merge_text_iibm2atable.sh | 14 ++++++++++++--
 utils/sw_models/thot_merge_text_ilextable.sh   | 14 ++++++++++++--
 utils/sw_models/thot_prune_text_ilextable.sh   | 12 +++++++++++-
 4 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/utils/sw_models/thot_merge_text_ihmmatable.sh b/utils/sw_models/thot_merge_text_ihmmatable.sh
index 5b80689..a49e9a7 100644
--- a/utils/sw_models/thot_merge_text_ihmmatable.sh
+++ b/utils/sw_models/thot_merge_text_ihmmatable.sh
@@ -106,6 +106,16 @@ merge_sorted_counts()
           }'
 }
 
+read_table()
+{
+    # Read the table from the standard input if no file was given
+    if [ ${t_given} -eq 1 ]; then
+        cat "$table"
+    else
+        cat
+    fi
+}
+
 if [ $# -ne 2 -a $# -ne 3 -a $# -ne 4 -a $# -ne 5 ]; then
     echo "Usage: thot_merge_text_ihmmatable [-t <text_ilextable>] [-ns] [-T <tmpdir>]"
 else
@@ -143,8 +153,8 @@ else
 
     # Merge table counts
     if [ ${ns_given} -eq 1 ]; then
-        cat "$table" | merge_sorted_counts
+        read_table | merge_sorted_counts
     else
-        cat "$table" | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k2n -k3n | merge_sorted_counts
+        read_table | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k2n -k3n | merge_sorted_counts
     fi
 fi
diff --git a/utils/sw_models/thot_merge_text_iibm2atable.sh b/utils/sw_models/thot_merge_text_iibm2atable.sh
index 9de83a9..2e310f0 100644
--- a/utils/sw_models/thot_merge_text_iibm2atable.sh
+++ b/utils/sw_models/thot_merge_text_iibm2atable.sh
@@ -106,6 +106,16 @@ merge_sorted_counts()
           }'
 }
 
+read_table()
+{
+    # Read the table from the standard input if no file was given
+    if [ ${t_given} -eq 1 ]; then
+        cat "$table"
+    else
+        cat
+    fi
+}
+
 if [ $# -ne 2 -a $# -ne 3 -a $# -ne 4 -a $# -ne 5 ]; then
     echo "Usage: thot_merge_text_iibm2atable [-t <text_ilextable>] [-ns] [-T <tmpdir>]"
 else
@@ -143,8 +153,8 @@ else
 
     # Merge table counts
     if [ ${ns_given} -eq 1 ]; then
-        cat "$table" | merge_sorted_counts
+        read_table | merge_sorted_counts
     else
-        cat "$table" | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k2n -k3n -k4n | merge_sorted_counts
+        read_table | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k2n -k3n -k4n | merge_sorted_counts
     fi
 fi
diff --git a/utils/sw_models/thot_merge_text_ilextable.sh b/utils/sw_models/thot_merge_text_ilextable.sh
index a432c83..3fc3535 100644
--- a/utils/sw_models/thot_merge_text_ilextable.sh
+++ b/utils/sw_models/thot_merge_text_ilextable.sh
@@ -106,6 +106,16 @@ merge_sorted_counts()
           }'
 }
 
+read_table()
+{
+    # Read the table from the standard input if no file was given
+    if [ ${t_given} -eq 1 ]; then
+        cat "$table"
+    else
+        cat
+    fi
+}
+
 if [ $# -ne 2 -a $# -ne 3 -a $# -ne 4 -a $# -ne 5 ]; then
     echo "Usage: thot_merge_text_ilextable [-t <text_ilextable>] [-ns] [-T <tmpdir>]"
 else
@@ -143,8 +153,8 @@ else
 
     # Merge table counts
     if [ ${ns_given} -eq 1 ]; then
-        cat "$table" | merge_sorted_counts
+        read_table | merge_sorted_counts
     else
-        cat "$table" | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k2n | merge_sorted_counts
+        read_table | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k2n | merge_sorted_counts
     fi
 fi
diff --git a/utils/sw_models/thot_prune_text_ilextable.sh b/utils/sw_models/thot_prune_text_ilextable.sh
index a80c8ad..a822f21 100644
--- a/utils/sw_models/thot_prune_text_ilextable.sh
+++ b/utils/sw_models/thot_prune_text_ilextable.sh
@@ -98,6 +98,16 @@ function prune_sorted_table()
           }'
 }
 
+read_table()
+{
+    # Read the table from the standard input if no file was given
+    if [ ${t_given} -eq 1 ]; then
+        cat "$table"
+    else
+        cat
+    fi
+}
+
 if [ $# -ne 2 -a $# -ne 4 -a $# -ne 6 -a $# -ne 8 ]; then
     echo "Usage: thot_prune_text_ilextable -n <n_val> [-c <cut-off-val>] [-t <text_ilextable>]"
     echo "                                 [-T <tmpdir>]"
@@ -155,5 +165,5 @@ else
     fi
 
     # Prune table
-    cat "$table" | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k3gr | prune_sorted_table
+    read_table | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k3gr | prune_sorted_table
 fi
-- 
2.43.0


From 18f4881fc5f1631938613f92a32d1bb6101a8d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:58 +0000
Subject: [PATCH 71/98] fix: sort received its options as one argument

---
 utils/incr_models/thot_get_ngram_counts_mr.sh  | 2 +-
 utils/smt_preproc/thot_train_rec_lm_mr.sh      | 4 ++--
 utils/sw_models/thot_merge_text_ihmmatable.sh  | 4 ++--
 utils/sw_models/thot_merge_text_iibm2atable.sh | 4 ++--
 utils/sw_models/thot_merge_text_ilextable.sh   | 4 ++--
 utils/sw_models/thot_prune_text_ilextable.sh   | 4 ++--
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/utils/incr_models/thot_get_ngram_counts_mr.sh b/utils/incr_models/thot_get_ngram_counts_mr.sh
index 12d421b..092b139 100644
--- a/utils/incr_models/thot_get_ngram_counts_mr.sh
+++ b/utils/incr_models/thot_get_ngram_counts_mr.sh
@@ -39,7 +39,7 @@ sort_counts()
     fi
 
     "${AWK}" '{printf"%d %s\n",NF,$0}' | \
-        LC_ALL=C "${SORT}" -T "${SORT_TMP}" -t " " "${sortpars}" | \
+        LC_ALL=C "${SORT}" -T "${SORT_TMP}" -t " " ${sortpars} | \
         "${AWK}" '{for(i=2;i<=NF-1;++i)printf"%s ",$i; printf"%d\n",$NF}' ; ${PIPE_FAIL} || return 1
 }
 
diff --git a/utils/smt_preproc/thot_train_rec_lm_mr.sh b/utils/smt_preproc/thot_train_rec_lm_mr.sh
index 837761f..8f640e2 100644
--- a/utils/smt_preproc/thot_train_rec_lm_mr.sh
+++ b/utils/smt_preproc/thot_train_rec_lm_mr.sh
@@ -9,13 +9,13 @@ sort_counts()
 {
     # Set sort command options
     if test ${sortT} = "yes"; then
-        SORT_TMP="-T $TMP"
+        SORT_TMP="$TMP"
     else
         SORT_TMP=""
     fi
 
     "${AWK}" '{printf"%d %s\n",NF,$0}' | \
-        LC_ALL=C "${SORT}" "${SORT_TMP}" -t " " ${sortpars} | "${AWK}" '{for(i=2;i<=NF-1;++i)printf"%s ",$i; printf"%s\n",$NF}'
+        LC_ALL=C "${SORT}" ${SORT_TMP:+-T "${SORT_TMP}"} -t " " ${sortpars} | "${AWK}" '{for(i=2;i<=NF-1;++i)printf"%s ",$i; printf"%s\n",$NF}'
 }
 
 merge_ngram_counts()
diff --git a/utils/sw_models/thot_merge_text_ihmmatable.sh b/utils/sw_models/thot_merge_text_ihmmatable.sh
index a49e9a7..c764ab0 100644
--- a/utils/sw_models/thot_merge_text_ihmmatable.sh
+++ b/utils/sw_models/thot_merge_text_ihmmatable.sh
@@ -146,7 +146,7 @@ else
     done
 
     if test ${sortT} = "yes"; then
-        SORT_TMP="-T $tmpdir"
+        SORT_TMP="$tmpdir"
     else
         SORT_TMP=""
     fi
@@ -155,6 +155,6 @@ else
     if [ ${ns_given} -eq 1 ]; then
         read_table | merge_sorted_counts
     else
-        read_table | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k2n -k3n | merge_sorted_counts
+        read_table | LC_ALL=C "${SORT}" ${SORT_TMP:+-T "${SORT_TMP}"} ${sortpars} -k1n -k2n -k3n | merge_sorted_counts
     fi
 fi
diff --git a/utils/sw_models/thot_merge_text_iibm2atable.sh b/utils/sw_models/thot_merge_text_iibm2atable.sh
index 2e310f0..7d92324 100644
--- a/utils/sw_models/thot_merge_text_iibm2atable.sh
+++ b/utils/sw_models/thot_merge_text_iibm2atable.sh
@@ -146,7 +146,7 @@ else
     done
 
     if test ${sortT} = "yes"; then
-        SORT_TMP="-T $tmpdir"
+        SORT_TMP="$tmpdir"
     else
         SORT_TMP=""
     fi
@@ -155,6 +155,6 @@ else
     if [ ${ns_given} -eq 1 ]; then
         read_table | merge_sorted_counts
     else
-        read_table | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k2n -k3n -k4n | merge_sorted_counts
+        read_table | LC_ALL=C "${SORT}" ${SORT_TMP:+-T "${SORT_TMP}"} ${sortpars} -k1n -k2n -k3n -k4n | merge_sorted_counts
     fi
 fi
diff --git a/utils/sw_models/thot_merge_text_ilextable.sh b/utils/sw_models/thot_merge_text_ilextable.sh
index 3fc3535..2bc289b 100644
--- a/utils/sw_models/thot_merge_text_ilextable.sh
+++ b/utils/sw_models/thot_merge_text_ilextable.sh
@@ -146,7 +146,7 @@ else
     done
 
     if test ${sortT} = "yes"; then
-        SORT_TMP="-T $tmpdir"
+        SORT_TMP="$tmpdir"
     else
         SORT_TMP=""
     fi
@@ -155,6 +155,6 @@ else
     if [ ${ns_given} -eq 1 ]; then
         read_table | merge_sorted_counts
     else
-        read_table | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k2n | merge_sorted_counts
+        read_table | LC_ALL=C "${SORT}" ${SORT_TMP:+-T "${SORT_TMP}"} ${sortpars} -k1n -k2n | merge_sorted_counts
     fi
 fi
diff --git a/utils/sw_models/thot_prune_text_ilextable.sh b/utils/sw_models/thot_prune_text_ilextable.sh
index a822f21..ca5d025 100644
--- a/utils/sw_models/thot_prune_text_ilextable.sh
+++ b/utils/sw_models/thot_prune_text_ilextable.sh
@@ -153,7 +153,7 @@ else
     done
 
     if test ${sortT} = "yes"; then
-        SORT_TMP="-T $tmpdir"
+        SORT_TMP="$tmpdir"
     else
         SORT_TMP=""
     fi
@@ -165,5 +165,5 @@ else
     fi
 
     # Prune table
-    read_table | LC_ALL=C "${SORT}" "${SORT_TMP}" ${sortpars} -k1n -k3gr | prune_sorted_table
+    read_table | LC_ALL=C "${SORT}" ${SORT_TMP:+-T "${SORT_TMP}"} ${sortpars} -k1n -k3gr | prune_sorted_table
 fi
-- 
2.43.0


From 6ada7e09554bd067cc06a7ec13685a7e67a90d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 72/98] fix: phrase tables with counts below one are sorted by
 count

---
 utils/phrase_models/thot_sort_ttable.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/phrase_models/thot_sort_ttable.sh b/utils/phrase_models/thot_sort_ttable.sh
index e84181d..1232a53 100644
--- a/utils/phrase_models/thot_sort_ttable.sh
+++ b/utils/phrase_models/thot_sort_ttable.sh
@@ -45,7 +45,7 @@ put_st_lengths()
                               }
                             }
                             printf"%03d %s |||",num_src_words,src
-                            printf" %.20f %03d %s",(1/$NF),num_trg_words,trg
+                            printf" %040.20f %03d %s",(1/$NF),num_trg_words,trg
                             printf" ||| %s %s",$(NF-1),$(NF)
                             printf("\n")
 		           }' "$1"
-- 
2.43.0


From b110990f77a5200b3fabf43f85f788263f3f060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 73/98] fix: target phrases that are equal as numbers are
 different phrases

---
 utils/phrase_models/thot_get_nbest_for_trg.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/phrase_models/thot_get_nbest_for_trg.sh b/utils/phrase_models/thot_get_nbest_for_trg.sh
index b492d5d..07bbed3 100644
--- a/utils/phrase_models/thot_get_nbest_for_trg.sh
+++ b/utils/phrase_models/thot_get_nbest_for_trg.sh
@@ -20,7 +20,7 @@ filter_nbest()
                               i=1
                               while($i!="|||")
                               {
-                               if(i==1) strn=$i
+                               if(i==1) strn=$i ""
                                else strn=strn" "$i
                                ++i
                               }
-- 
2.43.0


From 8673cff31c0d9abf7a6116bc999007660d687be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 74/98] fix: print the remainder of the last target phrase

---
 utils/phrase_models/thot_get_nbest_for_trg.sh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/phrase_models/thot_get_nbest_for_trg.sh b/utils/phrase_models/thot_get_nbest_for_trg.sh
index 07bbed3..0e0530e 100644
--- a/utils/phrase_models/thot_get_nbest_for_trg.sh
+++ b/utils/phrase_models/thot_get_nbest_for_trg.sh
@@ -57,6 +57,10 @@ filter_nbest()
                                 else remainder+=$NF
                                }
                               }
+                             }
+                         END {
+                              if(p && remainder>0)
+                                printf "%s ||| <UNUSED_WORD> ||| 0 %.8f\n",trgToProcess,remainder
                              }'
 }
 
-- 
2.43.0


From 727c9f87c8160f69751cd235cf925ee9670330b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 75/98] fix: filtering a phrase table without entries divided
 by zero

---
 utils/phrase_models/thot_filter_ttable_given_corpus.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/phrase_models/thot_filter_ttable_given_corpus.sh b/utils/phrase_models/thot_filter_ttable_given_corpus.sh
index c65db94..5c4cfa6 100644
--- a/utils/phrase_models/thot_filter_ttable_given_corpus.sh
+++ b/utils/phrase_models/thot_filter_ttable_given_corpus.sh
@@ -89,6 +89,6 @@ else
                  ++total;
                }
             END{
-                 printf "%d of %d phrase pairs used (%.2f%%)\n",used,total,(100*used/total) > "/dev/stderr" 
+                 printf "%d of %d phrase pairs used (%.2f%%)\n",used,total,(total>0 ? 100*used/total : 0) > "/dev/stderr" 
                }' "$input"
 fi
-- 
2.43.0


From c5c8c79e92b2ec011b5d15e297c0c6a1602f5854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 76/98] fix: thot_filter_ttable reads the standard input if no
 table is given

---
 utils/phrase_models/thot_filter_ttable.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/phrase_models/thot_filter_ttable.sh b/utils/phrase_models/thot_filter_ttable.sh
index 2a2bff0..5b7d51c 100644
--- a/utils/phrase_models/thot_filter_ttable.sh
+++ b/utils/phrase_models/thot_filter_ttable.sh
@@ -75,6 +75,6 @@ else
     fi
 
     # Filter translation table
-    "$bindir"/thot_filter_ttable_given_corpus "${ttable_file}" "${test_corpus_file}" |\
+    "$bindir"/thot_filter_ttable_given_corpus ${ttable_file:+"${ttable_file}"} "${test_corpus_file}" |\
         "$bindir"/thot_get_nbest_for_trg -n ${n_val} -p -T "${tmpdir}"
 fi
-- 
2.43.0


From 38f33d64f1a7507b02cce137848ea188fdfe5a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:58 +0000
Subject: [PATCH 77/98] fix: merging no phrase counts gives an empty table

---
 utils/phrase_models/thot_merge_counts.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/phrase_models/thot_merge_counts.sh b/utils/phrase_models/thot_merge_counts.sh
index e7a29f5..ec760e2 100644
--- a/utils/phrase_models/thot_merge_counts.sh
+++ b/utils/phrase_models/thot_merge_counts.sh
@@ -106,6 +106,6 @@ else
           }
        END{
              # print last group of counts
-             print_counts()
+             if(first_entry==0) print_counts()
           }' "$1"
 fi
-- 
2.43.0


From 4a5fcf42bab4701dfbfdc0df95c3a7d084a1fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 78/98] fix: hypotheses could not be compared by the
 detokenizer and the recaser

---
 utils/smt_preproc/thot_smt_preproc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index 9faaf67..6b6fdc8 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -677,8 +677,9 @@ class Hypothesis:
         self.score=0
         self.data=BfsHypdata()
 
-    def __cmp__(self, other):
-        return cmp(other.score,self.score)
+    def __lt__(self, other):
+        # The hypothesis with the highest score goes first
+        return self.score>other.score
 
 ##################################################
 class PriorityQueue:
-- 
2.43.0


From 1795c05c6537a7813d9f959f9e907c68f02920e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 79/98] fix: counts of further options lost when loading a
 model of the preprocessing tools

---
 utils/smt_preproc/thot_smt_preproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index 6b6fdc8..1e88000 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -58,7 +58,7 @@ class TransModel:
                 self.st_counts[src_words][trg_words]=self.st_counts[src_words][trg_words]+c
                 self.s_counts[src_words]=self.s_counts[src_words]+c
             else:
-                self.st_counts[src_words][trg_words]=1
+                self.st_counts[src_words][trg_words]=c
                 self.s_counts[src_words]=self.s_counts[src_words]+c
         else:
             self.st_counts[src_words]={}
-- 
2.43.0


From ebd0e35b53371830b17bef0e23ad03a5eebd51df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 80/98] fix: n-grams at the end of a sentence counted several
 times

---
 utils/smt_preproc/thot_smt_preproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index 1e88000..57c30da 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -404,7 +404,7 @@ class LangModel:
 
         # obtain counts for higher order n-grams
         for i in range(1,self.n+1):
-            for j in range(len(word_array_aux)):
+            for j in range(len(word_array_aux)-i+1):
                 # Obtain n-gram
                 ngram_array=word_array_aux[j:j+i]
                 # Convert array to string
-- 
2.43.0


From ab42408171f95952a87132c5eb9c2fed03a94b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 81/98] fix: verbose training of the detokenizer with a
 tokenized corpus

---
 utils/smt_preproc/thot_smt_preproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index 57c30da..807c8e2 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -252,7 +252,7 @@ class TransModel:
 
             if(verbose==True):
                 print("* Training tm for sentence pair:", file=sys.stderr)
-                print(" raw:",line, file=sys.stderr)
+                print(" raw:",rline, file=sys.stderr)
                 print(" tok:", end=' ', file=sys.stderr)
                 for i in range(len(tok_array)):
                     print(tok_array[i], end=' ', file=sys.stderr)
@@ -599,7 +599,7 @@ class LangModel:
 
             if(verbose==True):
                 print("* Training lm for sentence pair:", file=sys.stderr)
-                print(" raw:",line, file=sys.stderr)
+                print(" raw:",rline, file=sys.stderr)
                 print(" tok:", end=' ', file=sys.stderr)
                 for i in range(len(tok_array)):
                     print(tok_array[i], end=' ', file=sys.stderr)
-- 
2.43.0


From 93d9d70904171622a2ab4ccbd00193117695035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 82/98] fix: n-grams of the recaser equal as numbers counted as
 one

---
 utils/smt_preproc/thot_train_rec_lm_mr.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/smt_preproc/thot_train_rec_lm_mr.sh b/utils/smt_preproc/thot_train_rec_lm_mr.sh
index 8f640e2..f61fc70 100644
--- a/utils/smt_preproc/thot_train_rec_lm_mr.sh
+++ b/utils/smt_preproc/thot_train_rec_lm_mr.sh
@@ -32,7 +32,7 @@ merge_ngram_counts()
             for(i=1;i<NF;++i)
               if(i==1) ngram=$i
               else ngram=ngram" "$i
-            if(ngram==prev_ngram)
+            if((ngram"")==(prev_ngram""))
               count+=$NF
             else
             {
-- 
2.43.0


From 7c55ce30f557af976670be15dd5c66a9bd8b526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 83/98] fix: thot_categorize and thot_remove_xml_annotations
 could not read the standard input

---
 utils/smt_preproc/thot_categorize.py             | 2 +-
 utils/smt_preproc/thot_remove_xml_annotations.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/smt_preproc/thot_categorize.py b/utils/smt_preproc/thot_categorize.py
index 9801230..b33639e 100644
--- a/utils/smt_preproc/thot_categorize.py
+++ b/utils/smt_preproc/thot_categorize.py
@@ -41,7 +41,7 @@ def main(argv):
         file = codecs.open(filename, 'r', "utf-8")
     else:
         # fallback to stdin
-        file=codecs.getreader("utf-8")(sys.stdin)
+        file=codecs.getreader("utf-8")(sys.stdin.buffer)
 
     # read file line by line
     for line in file:
diff --git a/utils/smt_preproc/thot_remove_xml_annotations.py b/utils/smt_preproc/thot_remove_xml_annotations.py
index ba94605..3c44cf6 100644
--- a/utils/smt_preproc/thot_remove_xml_annotations.py
+++ b/utils/smt_preproc/thot_remove_xml_annotations.py
@@ -42,7 +42,7 @@ def main(argv):
         file = codecs.open(filename, 'r', "utf-8")
     else:
         # fallback to stdin
-        file=codecs.getreader("utf-8")(sys.stdin)
+        file=codecs.getreader("utf-8")(sys.stdin.buffer)
 
     # read file line by line
     for line in file:
-- 
2.43.0


From c1a387bb137ccaacf0746d790a7dc751b7744977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:02 +0000
Subject: [PATCH 84/98] fix: thot_shuffle replaced blank lines by their number

---
 utils/nlp_common/thot_shuffle.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/nlp_common/thot_shuffle.sh b/utils/nlp_common/thot_shuffle.sh
index 3126943..0e2f3e5 100644
--- a/utils/nlp_common/thot_shuffle.sh
+++ b/utils/nlp_common/thot_shuffle.sh
@@ -12,7 +12,7 @@ shuffle()
 
     # Shuffle file
     "$AWK" -v seed=${_seed} 'BEGIN{srand(seed)}{printf"%f %d %s\n",rand(),NR,$0}' ${_file} \
-        | LC_ALL=C "$SORT" -k1n -k2n -T "${_tdir}" | "$AWK" '{for(i=3;i<NF;++i) printf"%s ",$i; printf"%s\n",$NF}'
+        | LC_ALL=C "$SORT" -k1n -k2n -T "${_tdir}" | "$AWK" '{for(i=3;i<NF;++i) printf"%s ",$i; if(NF>=3) printf"%s",$NF; printf"\n"}'
 }
 
 thot_shuffle_alt()
-- 
2.43.0


From d99caeb59af9e986da60818ce8de11f2a3ab7517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:43 +0000
Subject: [PATCH 85/98] fix: the empty hypothesis of the detokenizer was taken
 as one that covers the first word

---
 utils/smt_preproc/thot_smt_preproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/smt_preproc/thot_smt_preproc.py b/utils/smt_preproc/thot_smt_preproc.py
index 807c8e2..201ee4c 100644
--- a/utils/smt_preproc/thot_smt_preproc.py
+++ b/utils/smt_preproc/thot_smt_preproc.py
@@ -294,7 +294,7 @@ class TransModel:
     #####
     def get_mon_hyp_state(self,hyp):
         if(len(hyp.data.coverage)==0):
-            return 0
+            return -1
         else:
             return hyp.data.coverage[len(hyp.data.coverage)-1]
 
-- 
2.43.0


From bb8d405ad87a5c4072a96a8ed32b3748e23e8a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 86/98] fix: thot_get_ngram_counts_mr -unk left its temporary
 directory behind

---
 utils/incr_models/thot_get_ngram_counts_mr.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/incr_models/thot_get_ngram_counts_mr.sh b/utils/incr_models/thot_get_ngram_counts_mr.sh
index 092b139..77d8934 100644
--- a/utils/incr_models/thot_get_ngram_counts_mr.sh
+++ b/utils/incr_models/thot_get_ngram_counts_mr.sh
@@ -175,8 +175,8 @@ set_tmp_dir || exit 1
 
 # Process -unk option
 if [ ${unk_given} -eq 1 ]; then
-    TMPF_PCORPUS=`"${MKTEMP}" "$tdir/pcorpus.XXXXXX"`
-    trap 'rm "${TMPF_PCORPUS}" "${TMPF_HIST_INFO}" 2>/dev/null' EXIT
+    # (removed together with the TMP directory)
+    TMPF_PCORPUS="${TMP}_pcorpus"
 
     cat "$corpus" | replace_first_word_occurrence_by_unk > "${TMPF_PCORPUS}"
     proc_corpus=${TMPF_PCORPUS}
-- 
2.43.0


From a52c03206e70d2faff678f51c57d3048c463eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 87/98] fix: thot_repetition_rate printed the fraction of
 unseen 3-grams for 4-grams

---
 utils/incr_models/thot_repetition_rate.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/incr_models/thot_repetition_rate.sh b/utils/incr_models/thot_repetition_rate.sh
index 07df909..3a40640 100644
--- a/utils/incr_models/thot_repetition_rate.sh
+++ b/utils/incr_models/thot_repetition_rate.sh
@@ -245,7 +245,7 @@ if [ ${t_given} -eq 1 ]; then
     ifrac=`compute_unf`
 
     # Print unseen n-gram fraction
-    echo "* UNF($corpus,$tcorpus)= $ifrac ; $ifrac1/$ifrac2/$ifrac3/$ifrac3"
+    echo "* UNF($corpus,$tcorpus)= $ifrac ; $ifrac1/$ifrac2/$ifrac3/$ifrac4"
 
     # Print statistics
     print_statistics "$corpus , $tcorpus"
-- 
2.43.0


From 72c8a8161e8c8682b7c0d18a0fb7ff20f3686412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:52 +0000
Subject: [PATCH 88/98] fix: thot_corpus_represent did not print the length of
 the sample

---
 utils/incr_models/thot_corpus_represent.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/incr_models/thot_corpus_represent.sh b/utils/incr_models/thot_corpus_represent.sh
index 64cff54..6bcb79a 100644
--- a/utils/incr_models/thot_corpus_represent.sh
+++ b/utils/incr_models/thot_corpus_represent.sh
@@ -193,7 +193,7 @@ if [ ${a_given} -eq 1 ]; then
 fi
 
 # Print results
-sample_numw=`"$WC ${sample}" | "$AWK" '{printf"%s",$2}'`
+sample_numw=`"$WC" "${sample}" | "$AWK" '{printf"%s",$2}'`
 echo "* Input Sample"
 echo " - Length in words        : ${sample_numw}"
 echo " - Unseen n-gram fraction : ${unf_sample}"
-- 
2.43.0


From dfb9ebee73960356f09a1bafdd8ed1c16fa2a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:13 +0000
Subject: [PATCH 89/98] fix: word graph files of thot_ms_dec and thot_ms_alig
 can have paths of any length

---
 src/stack_dec/thot_ms_alig.cc | 7 ++++---
 src/stack_dec/thot_ms_dec.cc  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/stack_dec/thot_ms_alig.cc b/src/stack_dec/thot_ms_alig.cc
index b674cc6..c6ecbd8 100644
--- a/src/stack_dec/thot_ms_alig.cc
+++ b/src/stack_dec/thot_ms_alig.cc
@@ -709,10 +709,11 @@ int align_corpus(const thot_ms_alig_pars& tap)
             // Print wordgraph if the -wg option was given
         if(tap.wordGraphFileName!="")
         {
-          char wgFileNameForSent[256];
-          sprintf(wgFileNameForSent,"%s_%06d",tap.wordGraphFileName.c_str(),sentNo);
+          char wgFileNameSuffix[32];
+          sprintf(wgFileNameSuffix,"_%06d",sentNo);
+          std::string wgFileNameForSent=tap.wordGraphFileName+wgFileNameSuffix;
           stackDecoderRecPtr->pruneWordGraph(tap.wgPruningThreshold);
-          stackDecoderRecPtr->printWordGraph(wgFileNameForSent);
+          stackDecoderRecPtr->printWordGraph(wgFileNameForSent.c_str());
         }
       }
       
diff --git a/src/stack_dec/thot_ms_dec.cc b/src/stack_dec/thot_ms_dec.cc
index 5ab72b7..251f253 100644
--- a/src/stack_dec/thot_ms_dec.cc
+++ b/src/stack_dec/thot_ms_dec.cc
@@ -676,10 +676,11 @@ int translate_corpus(const thot_ms_dec_pars& tdp)
             // Print wordgraph if the -wg option was given
         if(tdp.wordGraphFileName!="")
         {
-          char wgFileNameForSent[256];
-          sprintf(wgFileNameForSent,"%s_%06d",tdp.wordGraphFileName.c_str(),sentNo);
+          char wgFileNameSuffix[32];
+          sprintf(wgFileNameSuffix,"_%06d",sentNo);
+          std::string wgFileNameForSent=tdp.wordGraphFileName+wgFileNameSuffix;
           stackDecoderRecPtr->pruneWordGraph(tdp.wgPruningThreshold);
-          stackDecoderRecPtr->printWordGraph(wgFileNameForSent);
+          stackDecoderRecPtr->printWordGraph(wgFileNameForSent.c_str());
         }
       }
 
-- 
2.43.0


From f406835c5793c5e6c6aa428a8d8cb069f5fccbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 90/98] fix: thot_lm_weight_upd works with language models
 given by a prefix

The default type of the model was looked up without loading master.ini,
so a file prefix was always refused, and a module that could not be
opened was ignored (the previous model was used or a null pointer).
---
 src/incr_models/thot_lm_weight_upd.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/incr_models/thot_lm_weight_upd.cc b/src/incr_models/thot_lm_weight_upd.cc
index 878ee2a..40de281 100644
--- a/src/incr_models/thot_lm_weight_upd.cc
+++ b/src/incr_models/thot_lm_weight_upd.cc
@@ -257,6 +257,13 @@ int obtain_default_lm_type(std::string& soFileName)
   std::string baseClassName;
   std::string initPars;
 
+      // Obtain information from master.ini file
+  if(dynClassFileHandler.load(THOT_MASTER_INI_PATH)==THOT_ERROR)
+  {
+    std::cerr<<"Error while loading ini file"<<std::endl;
+    return THOT_ERROR;
+  }
+
       ////////// Obtain info for BaseNgramLM class
   baseClassName="BaseNgramLM";
   if(dynClassFileHandler.getInfoForBaseClass(baseClassName,soFileName,initPars)==THOT_ERROR)
@@ -275,7 +282,8 @@ int process_lm_entry(std::string corpusFile,
                      int verbosity)
 {
       // Initialize language model
-  init_lm(modelDescEntry.modelInitInfo,verbosity);
+  if(init_lm(modelDescEntry.modelInitInfo,verbosity)==THOT_ERROR)
+    return THOT_ERROR;
 
       // Check if the model has weights to be updated
   incrJelMerLmPtr=dynamic_cast<_incrJelMerNgramLM<Count,Count>* >(lm);
-- 
2.43.0


From cfdc1e2f97dae2745470baf4cf9c18128cd625c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 91/98] fix: -va is optional in thot_ll_weight_upd_nblist

The option is documented as optional and thot_ll_weight_upd does not
give it unless it was given itself, but the tool stopped without it.
---
 src/stack_dec/thot_ll_weight_upd_nblist.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/stack_dec/thot_ll_weight_upd_nblist.cc b/src/stack_dec/thot_ll_weight_upd_nblist.cc
index 0836e66..5ae1e07 100644
--- a/src/stack_dec/thot_ll_weight_upd_nblist.cc
+++ b/src/stack_dec/thot_ll_weight_upd_nblist.cc
@@ -193,11 +193,9 @@ int takeParameters(int argc,
   if(err==THOT_ERROR)
     return THOT_ERROR;
 
-      // Obtain included variables
+      // Obtain included variables (optional parameter)
   err=readStringSeq(argc,argv, "-va", pars.includeVarStr);
-  if(err==THOT_ERROR)
-    return THOT_ERROR;
-  else
+  if(err!=THOT_ERROR)
   {
     for(unsigned int i=0;i<pars.includeVarStr.size();++i)
     {
@@ -228,7 +226,7 @@ int checkParameters(thot_llwu_nblist_pars& pars)
     return THOT_ERROR;   
   }
 
-  if(pars.includeVarStr.size()!=pars.llWeightVec.size())
+  if(!pars.includeVarStr.empty() && pars.includeVarStr.size()!=pars.llWeightVec.size())
   {
     std::cerr<<"Error: number of weights provided by -w and -va options are not equal!"<<std::endl;
     return THOT_ERROR;       
-- 
2.43.0


From 02d25b8c2c35271030a92deda41fba513c563714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 92/98] fix: refuse system sentences or n-best lists without
 reference

thot_scorer and thot_ll_weight_upd_nblist read past the end of the
references when there were more sentences than references, and ignored
the surplus references otherwise.
---
 src/stack_dec/thot_ll_weight_upd_nblist.cc | 7 +++++++
 src/stack_dec/thot_scorer.cc               | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/stack_dec/thot_ll_weight_upd_nblist.cc b/src/stack_dec/thot_ll_weight_upd_nblist.cc
index 5ae1e07..6509130 100644
--- a/src/stack_dec/thot_ll_weight_upd_nblist.cc
+++ b/src/stack_dec/thot_ll_weight_upd_nblist.cc
@@ -396,6 +396,13 @@ int update_ll_weights(const thot_llwu_nblist_pars& pars)
   if(retVal==THOT_ERROR)
     return THOT_ERROR;
 
+      // Check that there is one reference per n-best list
+  if(nblistVec.size()!=referenceVec.size())
+  {
+    std::cerr<<"Error: the number of n-best lists and the number of references are not equal!"<<std::endl;
+    return THOT_ERROR;
+  }
+
       // Generate vector with current weights
   std::vector<double> currWeightsVec;
   for(unsigned int i=0;i<pars.llWeightVec.size();++i)
diff --git a/src/stack_dec/thot_scorer.cc b/src/stack_dec/thot_scorer.cc
index 87ca35d..c1fc0d8 100644
--- a/src/stack_dec/thot_scorer.cc
+++ b/src/stack_dec/thot_scorer.cc
@@ -240,6 +240,13 @@ int calc_score(const thot_scorer_pars& pars)
   if(retVal==THOT_ERROR)
     return THOT_ERROR;
 
+      // Check that there is one reference per system sentence
+  if(sysSentVec.size()!=referenceVec.size())
+  {
+    std::cerr<<"Error: the number of system sentences and the number of references are not equal!"<<std::endl;
+    return THOT_ERROR;
+  }
+
       // Calculate score
   double score;
   baseScorerPtr->corpusScore(sysSentVec,
-- 
2.43.0


From f9a2e1f00dac056e87e6437908506dbf415735f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 93/98] fix: thot_dhs_nbl_rescore applies the non-negativity
 penalty

The weights were given to awk as the name of a file, so that the penalty
was always empty.
---
 utils/stack_dec/thot_dhs_nbl_rescore.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/stack_dec/thot_dhs_nbl_rescore.sh b/utils/stack_dec/thot_dhs_nbl_rescore.sh
index b64c743..65e4aa5 100644
--- a/utils/stack_dec/thot_dhs_nbl_rescore.sh
+++ b/utils/stack_dec/thot_dhs_nbl_rescore.sh
@@ -11,7 +11,7 @@ calc_nnc_pen()
     we="$1"
     nnc="$2"
     pen_fact=$3
-    "$AWK" -v nnc="${nnc}" -v pen_fact=${pen_fact}\
+    echo "${we}" | "$AWK" -v nnc="${nnc}" -v pen_fact=${pen_fact}\
                       'BEGIN{
                              result=0;
                              split(nnc,nnc_arr," ")
@@ -25,7 +25,7 @@ calc_nnc_pen()
                             }
                          END{
                              printf"%f",result
-                            }' "${we}"
+                            }'
 }
 
 ########
-- 
2.43.0


From d8b3f66083a6cbd0c6c966626984a49825206d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 94/98] fix: best translation of n-best lists with scores with
 exponents

awk writes small scores as 1e-05, which sort -n takes for 1.
---
 utils/error_correction/thot_obtain_best_trans_from_nbl.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/error_correction/thot_obtain_best_trans_from_nbl.sh b/utils/error_correction/thot_obtain_best_trans_from_nbl.sh
index adc873d..0d558ea 100644
--- a/utils/error_correction/thot_obtain_best_trans_from_nbl.sh
+++ b/utils/error_correction/thot_obtain_best_trans_from_nbl.sh
@@ -26,7 +26,7 @@ if [ $# -lt 2 ]; then
 else
     file=$1
     weights=$2
-    cat "$file" | "$bindir"/thot_rescore_nbest "$weights" | "${TAIL}" -n +2 | LC_ALL=C "${SORT}" -k1nr \
+    cat "$file" | "$bindir"/thot_rescore_nbest "$weights" | "${TAIL}" -n +2 | LC_ALL=C "${SORT}" -k1,1gr \
         | "${AWK}" '{if(FNR==1) printf"%s\n",$0}' | get_trans
     # NOTE: 'awk' is used above instead of 'head' to avoid Broken Pipe errors due to SIGPIPE signal
 fi
-- 
2.43.0


From 640ce1a4098c840bafc5218fea73b215485dbd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 95/98] fix: one line per n-best list, also for empty lists

An empty n-best list produced no line, so that the translations of the
following lists were compared with the wrong references.
---
 utils/error_correction/thot_obtain_best_trans_from_nbl.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/error_correction/thot_obtain_best_trans_from_nbl.sh b/utils/error_correction/thot_obtain_best_trans_from_nbl.sh
index 0d558ea..840d982 100644
--- a/utils/error_correction/thot_obtain_best_trans_from_nbl.sh
+++ b/utils/error_correction/thot_obtain_best_trans_from_nbl.sh
@@ -27,6 +27,6 @@ else
     file=$1
     weights=$2
     cat "$file" | "$bindir"/thot_rescore_nbest "$weights" | "${TAIL}" -n +2 | LC_ALL=C "${SORT}" -k1,1gr \
-        | "${AWK}" '{if(FNR==1) printf"%s\n",$0}' | get_trans
+        | "${AWK}" '{if(FNR==1) printf"%s\n",$0} END{if(NR==0) printf"\n"}' | get_trans
     # NOTE: 'awk' is used above instead of 'head' to avoid Broken Pipe errors due to SIGPIPE signal
 fi
-- 
2.43.0


From 65c03ea709f7a250f5b68213677cecbafdbcb828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:15 +0000
Subject: [PATCH 96/98] fix: thot_extract_sents_from_nbl prints the sentences

n-best lists with state transitions have four fields; the transitions
were printed as the beginning of the sentence.
---
 utils/error_correction/thot_extract_sents_from_nbl.awk | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/utils/error_correction/thot_extract_sents_from_nbl.awk b/utils/error_correction/thot_extract_sents_from_nbl.awk
index 77bfe53..2bb209a 100644
--- a/utils/error_correction/thot_extract_sents_from_nbl.awk
+++ b/utils/error_correction/thot_extract_sents_from_nbl.awk
@@ -4,11 +4,9 @@ BEGIN{}
 {
   if(FNR>1)
   {
-    spsymfound=0
-    for(i=1;i<=NF;++i)
+    for(i=NF;i>=1;--i)
     {
-      if($i=="|||") ++spsymfound
-      if(spsymfound==2) break;
+      if($i=="|||") break;
     }
     ++i
     for(;i<=NF;++i)
-- 
2.43.0


From b9825e7cdef76ddd962978cd617806293b812fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:23 +0000
Subject: [PATCH 97/98] fix: segmentation of n-best translations with arcs that
 differ in length

Two states can be connected by several arcs.  thot_get_nblist_segm_info
kept the last one only, so that the target segments of entries that use
another one were wrong, and thot_filter_nblist removed entries that
satisfy the constraints.  The arcs that give the translation are used.
---
 utils/stack_dec/thot_get_nblist_segm_info.py | 32 ++++++++++++++------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/utils/stack_dec/thot_get_nblist_segm_info.py b/utils/stack_dec/thot_get_nblist_segm_info.py
index ed9b3f1..782c1da 100644
--- a/utils/stack_dec/thot_get_nblist_segm_info.py
+++ b/utils/stack_dec/thot_get_nblist_segm_info.py
@@ -27,7 +27,8 @@ def load_wg_info(wgfile):
             orig_state=first_field_array[0]
             dest_state=first_field_array[1]
             key=make_key(orig_state,dest_state)
-            wginfo[key]=wg_info_entry_array[-1]
+            # There may be several arcs between two states
+            wginfo.setdefault(key,[]).append(wg_info_entry_array[-1].split())
         lineno+=1
     return wginfo
     
@@ -44,15 +45,21 @@ def load_idx_info(idxfile):
     return idxinfo
 
 ##################################################
-def obtain_trg_cuts(state_transitions_array,wginfo):
-    trgpos=0
-    for i in range(len(state_transitions_array)):
-        trgpos+=len(wginfo[state_transitions_array[i]].split())
-        if(i==0):
-            trgcuts=str(trgpos)
+def obtain_trg_cuts(state_transitions_array,wginfo,trgwords,idx=0,trgpos=0):
+    # Obtain the final positions of the target segments for those arcs
+    # that generate the translation
+    if(idx==len(state_transitions_array)):
+        if(trgpos==len(trgwords)):
+            return []
         else:
-            trgcuts+=" "+str(trgpos)
-    return trgcuts
+            return None
+    for arcwords in wginfo[state_transitions_array[idx]]:
+        newpos=trgpos+len(arcwords)
+        if(trgwords[trgpos:newpos]==arcwords):
+            trgcuts=obtain_trg_cuts(state_transitions_array,wginfo,trgwords,idx+1,newpos)
+            if(trgcuts is not None):
+                return [newpos]+trgcuts
+    return None
 
 ##################################################
 def obtain_src_segm_given_coverages(prev_coverage,succ_coverage):
@@ -99,7 +106,12 @@ def process_nbl_file(nblfile,wginfo,idxinfo):
             line=line.strip("\n")
             nbl_entry_array=line.split("|||")
             state_transitions_array=nbl_entry_array[2].split()
-            trgcuts=obtain_trg_cuts(state_transitions_array,wginfo)
+            trgwords=nbl_entry_array[-1].split()
+            trgcuts=obtain_trg_cuts(state_transitions_array,wginfo,trgwords)
+            if(trgcuts is None):
+                print("Error: n-best list entry at line",lineno,"is not contained in the word graph", file=sys.stderr)
+                sys.exit(1)
+            trgcuts=" ".join(str(cut) for cut in trgcuts)
             srcsegms=obtain_src_segms(state_transitions_array,idxinfo)
 
             # Print result
-- 
2.43.0


From f5eb5955a3fee92383cca0ba5c71bff667078c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:53 +0000
Subject: [PATCH 98/98] fix: thot_li_weight_upd stops when the translation
 model cannot be loaded

The error was ignored and the weights of models that had not been loaded
were updated, which reads past the end of a vector.
---
 src/stack_dec/thot_li_weight_upd.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stack_dec/thot_li_weight_upd.cc b/src/stack_dec/thot_li_weight_upd.cc
index 255b133..2708abc 100644
--- a/src/stack_dec/thot_li_weight_upd.cc
+++ b/src/stack_dec/thot_li_weight_upd.cc
@@ -299,8 +299,10 @@ int initPhrModelFeatImpl(std::string phrModelFilePrefix)
   set_default_models();
   
       // Load model features
-  load_model_features(phrModelFilePrefix);
-    
+  ret=load_model_features(phrModelFilePrefix);
+  if(ret==THOT_ERROR)
+    return THOT_ERROR;
+
   return THOT_OK;
 }
 
-- 
2.43.0

