From 349684f4f041bae0b8ca3bd35598edbcc78b59be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:29 +0000
Subject: [PATCH 01/17] fix: strided binary-vector tests walk ne elements, not
 ne memory cells

---
 nntl/interface/math/smatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 4d7ef4a..6cc6706 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -169,7 +169,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -198,7 +198,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -217,7 +217,7 @@ namespace math {
 			const auto _one = T(1);
 			const auto _zero = T(0);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne*ld;
 			T cond = T(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
-- 
2.43.0


From 50793f533df3b930c71bfda1d1b2dc0322656f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:06 +0000
Subject: [PATCH 02/17] fix: clone_to_no_bias() made a destination that
 emulated biases one column too big

---
 nntl/interface/math/smatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 6cc6706..2c2647b 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -496,7 +496,8 @@ namespace math {
 					NNTL_ASSERT(!"Wrong dest matrix!");
 					return false;
 				}
-			} else {				
+			} else {
+				dest.m_bEmulateBiases = false;//must be dropped before resize(), or else it'd add a bias row/column to dest
 				if (!dest.resize(m_rows, cnb)) {
 					NNTL_ASSERT(!"resize failed!");
 					return false;
-- 
2.43.0


From 984b7c569d98f813d83e414ba9b03f0221fd2791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:07 +0000
Subject: [PATCH 03/17] fix: matrix constructors wrote biases through a null
 pointer when the allocation failed

---
 nntl/interface/math/smatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 2c2647b..54e30d2 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -342,7 +342,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (_bEmulBias) set_biases();
+			if (_bEmulBias && !empty()) set_biases();
 		}
 
 		// #supportsBatchInRow
@@ -354,7 +354,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (_bEmulBias) set_biases();
+			if (_bEmulBias && !empty()) set_biases();
 		}
 
 		// #supportsBatchInRow
@@ -366,7 +366,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (m_bEmulateBiases) set_biases();
+			if (m_bEmulateBiases && !empty()) set_biases();
 		}
 		
 		//useExternalStorage(value_ptr_t ptr, const smatrix& sizeLikeThis) variation
-- 
2.43.0


From 92e28e3c9f858b81a40c424dc687c4f761932154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:07 +0000
Subject: [PATCH 04/17] fix: resize() to the size of a previously failed
 allocation reported success without storage

---
 nntl/interface/math/smatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 54e30d2..0f4b5ee 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -1058,7 +1058,7 @@ namespace math {
 				NNTL_ASSERT(!"Wrong row or col count!");
 				return false;
 			}
-			if (r == m_rows && c == m_cols) return true;
+			if (nullptr != m_pData && r == m_rows && c == m_cols) return true;
 			m_rows = r;
 			m_cols = c;
 			_realloc();
-- 
2.43.0


From 06158099e7e090a524e758805acbb3915f3d5f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 05/17] fix: mCloneCols skips source columns with zero copies

---
 nntl/interface/math/smath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/math/smath.h b/nntl/interface/math/smath.h
index b051392..102eb8c 100644
--- a/nntl/interface/math/smath.h
+++ b/nntl/interface/math/smath.h
@@ -2059,7 +2059,7 @@ namespace math {
 				while (pDest != pDE) {
 					//lets find a source column to copy into pDest
 					NNTL_ASSERT(pnCS <= &pColSpec[csIdxMax] || colsLeft);
-					if (!colsLeft) {//should switch source column
+					while (!colsLeft) {//should switch source column (and skip columns with zero copies)
 						colsLeft = *pnCS++;
 						pSrc += _rows;
 					}
-- 
2.43.0


From d66974a58b47d0a0b9b0b875a6b19bb281a16701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:54 +0000
Subject: [PATCH 06/17] fix: mTilingUnroll_seqread_st computes its end pointer
 in 64 bits

---
 nntl/interface/math/smath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/math/smath.h b/nntl/interface/math/smath.h
index 102eb8c..9997c72 100644
--- a/nntl/interface/math/smath.h
+++ b/nntl/interface/math/smath.h
@@ -2398,7 +2398,7 @@ namespace math {
 			const numel_cnt_t nm = m*n;
 
 			auto pS = src.colDataAsVec(firstCol);
-			const auto pSE = pS + src.rows()*(lastCol - firstCol);
+			const auto pSE = pS + static_cast<numel_cnt_t>(src.rows())*(lastCol - firstCol);
 
 			auto pDFirst = dest.colDataAsVec(firstCol);
 			auto pD = pDFirst;
-- 
2.43.0


From dea5063b21cd80d47a374296bbf7dfa446e3b905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:09 +0000
Subject: [PATCH 07/17] fix: ConfusionMtx::MCC() overflowed the 32 bit counters

The products of the counters don't fit into vec_len_t already for a few hundred samples.
---
 nntl/utils/confusion_mtx.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nntl/utils/confusion_mtx.h b/nntl/utils/confusion_mtx.h
index 54f7dcc..8434746 100644
--- a/nntl/utils/confusion_mtx.h
+++ b/nntl/utils/confusion_mtx.h
@@ -108,8 +108,10 @@ namespace nntl {
 			real_t Markedness()const noexcept { return PPV() + NPV() - real_t(1.); }
 			
 			real_t MCC()const noexcept {
-				const auto den = (TP() + FP())*(TP() + FN())*(TN() + FP())*(TN() + FN());
-				return den ? static_cast<real_t>(TP()*TN() - FP()*FN()) / ::std::sqrt(static_cast<real_t>(den))  : real_t(0.);
+				//the products of counters don't fit into the (32 bit) vec_len_t
+				const double tp = TP(), fp = FP(), tn = TN(), fn = FN();
+				const double den = (tp + fp)*(tp + fn)*(tn + fp)*(tn + fn);
+				return den ? static_cast<real_t>((tp*tn - fp*fn) / ::std::sqrt(den)) : real_t(0.);
 			}
 
 			real_t Jaccard()const noexcept {
-- 
2.43.0


From eb721f3e8d8777eac070682f1899ab3e76c1b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 08/17] fix: walk_over_set() skipped the last sample when it
 was alone in its batch

The total amount of samples returned must be equal to dataset_samples_count()
(see _i_train_data), nnet_evaluator relies on it.
---
 nntl/train_data/_train_data_simple.h | 2 +-
 nntl/train_data/transf_train_data.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 094bad4..ddc6c16 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -366,7 +366,7 @@ namespace nntl {
 				}
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 51d2262..0848e75 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -442,7 +442,7 @@ namespace nntl {
 				m_TFunct.walk(m_tdStor, dataSetId, cd, m_curBatchSize, excludeDataFlag, &m_pCurBatchX, &m_pCurBatchY);
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
-- 
2.43.0


From c29cd529eb748e605a9ccece9b6ff2a782e5b496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 09/17] fix: dataHolder::nextBatch() reshuffled while a full
 batch was still left

---
 nntl/utils/dataHolder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/utils/dataHolder.h b/nntl/utils/dataHolder.h
index 83ee29b..5c7750f 100644
--- a/nntl/utils/dataHolder.h
+++ b/nntl/utils/dataHolder.h
@@ -168,7 +168,7 @@ namespace utils {
 				//nothing to do here
 			} else {
 				NNTL_ASSERT(m_rowsIdxs.size());
-				if (m_next >= m_rowsIdxs.cend() - curBatchSize()) {
+				if (m_next > m_rowsIdxs.cend() - curBatchSize()) {
 					m_next = m_rowsIdxs.cbegin();
 					::std::random_shuffle(m_rowsIdxs.begin(), m_rowsIdxs.end(), iR);
 				}
-- 
2.43.0


From ef5c71df42fd6ae0aadca5490f14b511ec584617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 10/17] fix: is_initialized4train() accepted smaller batches in
 full-batch training mode

m_batch_x may exist only for minibatch inferencing; on_next_epoch() still returns the
whole training set then.
---
 nntl/train_data/_train_data_simple.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index ddc6c16..7f12184 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -166,9 +166,9 @@ namespace nntl {
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes				
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| (tbs < m_maxFPropSize && m_batch_x.empty()) || tbs > fpropBs) return false;
+					|| (tbs < m_maxTrainBatchSize && !m_bMiniBatchTraining) || tbs > fpropBs) return false;
 				trainBs = tbs;
-				bMiniBatch = !m_batch_x.empty();
+				bMiniBatch = m_bMiniBatchTraining;
 				return true;
 			}
 
-- 
2.43.0


From daf46a1a1401545a3e2fad377ab7f1d579c4bec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 11/17] fix: is_initialized4train() changed its fpropBs
 argument when it failed

---
 nntl/train_data/_train_data_simple.h | 6 ++++--
 nntl/train_data/transf_train_data.h  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 7f12184..0c2a1dc 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -162,11 +162,13 @@ namespace nntl {
 			}
 
 			bool is_initialized4train(vec_len_t& fpropBs, vec_len_t& trainBs, bool& bMiniBatch)const noexcept {
-				if (!get_self().is_initialized4inference(fpropBs)) return false;
+				vec_len_t fbs = fpropBs;//arguments must be left untouched if the function fails
+				if (!get_self().is_initialized4inference(fbs)) return false;
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes				
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| (tbs < m_maxTrainBatchSize && !m_bMiniBatchTraining) || tbs > fpropBs) return false;
+					|| (tbs < m_maxTrainBatchSize && !m_bMiniBatchTraining) || tbs > fbs) return false;
+				fpropBs = fbs;
 				trainBs = tbs;
 				bMiniBatch = m_bMiniBatchTraining;
 				return true;
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 0848e75..1c34cc4 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -280,12 +280,14 @@ namespace nntl {
 			}
 
 			bool is_initialized4train(vec_len_t& fpropBs, vec_len_t& trainBs, bool& bMiniBatch)const noexcept {
-				if (!get_self().is_initialized4inference(fpropBs)) return false;
+				vec_len_t fbs = fpropBs;//arguments must be left untouched if the function fails
+				if (!get_self().is_initialized4inference(fbs)) return false;
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes
 				const auto dr = ::std::div(tbs, m_TFunct.samplesInBaseSample());
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| 0 != dr.rem || tbs > fpropBs) return false;
+					|| 0 != dr.rem || tbs > fbs) return false;
+				fpropBs = fbs;
 				trainBs = tbs;
 				bMiniBatch = dr.quot < get_self().base_trainset_samples_count();
 				return true;
-- 
2.43.0


From c1ee11dc5696b7f966d586cf2b60fc67017bf96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:46 +0000
Subject: [PATCH 12/17] fix: gw_init() must set the common data before
 ILR_init() uses the math object

---
 nntl/grad_works/grad_works.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nntl/grad_works/grad_works.h b/nntl/grad_works/grad_works.h
index fd24878..7e06e14 100644
--- a/nntl/grad_works/grad_works.h
+++ b/nntl/grad_works/grad_works.h
@@ -300,10 +300,11 @@ namespace nntl {
 				if (!m_optMtxB.resize(weightsSize))return false;
 			}
 
-			if (!ILR_init(weightsSize))return false;
-
+			//ILR_init() uses the math object from the common data
 			set_common_data(cd);
 
+			if (!ILR_init(weightsSize))return false;
+
 			//we would need twice weightsNumel to make LRDropout for NesterovMomentum if necessary
 			//Currently also see implementation of max_norm2 enforcer mCheck_normalize_rows()
 			get_iMath().preinit(
-- 
2.43.0


From 8d280ebfd748315401439b2457d8687e86e5e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:06 +0000
Subject: [PATCH 13/17] fix: calcLossAndReport() summed the mean losses of
 batches instead of averaging over the whole set

---
 nntl/nnet.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 9383a1b..9dd47d7 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -276,6 +276,7 @@ namespace nntl {
 			const auto& cd = get_const_common_data();
 			const auto& activations = *m_Layers.output_layer().get_activations_storage();//we won't touch it until it's valid
 			real_t lossVal(0);
+			numel_cnt_t samplesCnt(0);
 
 			const numel_cnt_t batchesCnt = td.walk_over_set(dataSetId, cd);
 			NNTL_ASSERT(batchesCnt > 0);
@@ -284,13 +285,17 @@ namespace nntl {
 
 			for (numel_cnt_t bi = 0; bi < batchesCnt; ++bi) {
 				td.next_subset(bi, cd);
-				lossVal += _calcLoss4batch(td.batchX(), td.batchY());
+				//batches may have different sizes, so the loss must be normalized only once over the whole set
+				lossVal += _calcLoss4batch_nonnormalized(td.batchX(), td.batchY());
+				samplesCnt += td.batchY().batch_size();
 
 				NNTL_ASSERT(m_Layers.output_layer().is_activations_valid());
 				NNTL_ASSERT(&activations == m_Layers.output_layer().get_activations_storage());//sanity check
 				obs.report_results(bi, activations, td.batchY(), cd);
 			}
 
+			lossVal /= samplesCnt;
+
 			//after calculating loss based on batch data, we must add a loss based on layers properties/parameters
 			if (m_bCalcFullLossValue) lossVal += m_Layers.calcLossAddendum();
 
-- 
2.43.0


From 637ee70014ded357c25885a71aa0491a19b66b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:06 +0000
Subject: [PATCH 14/17] fix: a second train() with a smaller batch size must
 not keep the bigger batch size of the first one

---
 nntl/nnet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 9dd47d7..2e66327 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -362,7 +362,8 @@ namespace nntl {
 			}
 			NNTL_ASSERT(maxFPropSize > 0 && maxBatchSize > 0 && maxBatchSize <= maxFPropSize);
 
-			if (_is_initialized(maxFPropSize, maxBatchSize)) {
+			//the training batch size stored in the common data is the one that'll be used for training, so it must match exactly
+			if (_is_initialized(maxFPropSize, maxBatchSize) && maxBatchSize == get_common_data().input_training_batch_size()) {
 				//must call get_iMath().init() b/c td.init* could do iM.preinit()
 				if (!get_iMath().init()) return ErrorCode::CantInitializeIMath;
 				get_iInspect().init_nnet(m_Layers.total_layers(), maxEpoch);
-- 
2.43.0


From 434a4a786bc183cecededc3b70b568e0dd15c2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:06 +0000
Subject: [PATCH 15/17] fix: train() must drop the cached loss addendum after
 every weight update

---
 nntl/nnet.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 2e66327..25c93d7 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -623,6 +623,7 @@ namespace nntl {
 
 						iI.train_preBprop(batch_y);
 						m_Layers.bprop(batch_y);
+						m_Layers.resetCalcLossAddendum();//weights have just been changed, so the cached value became obsolete
 
 						iI.train_batchEnd();
 					}
-- 
2.43.0


From f82789fdc855ef1ff30226f3c8c911edaa71f904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:01 +0000
Subject: [PATCH 16/17] fix: rng_helper::normal_vector() used the number of
 elements as the standard deviation

---
 nntl/interface/_i_rng.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/_i_rng.h b/nntl/interface/_i_rng.h
index e453a25..ca87e6d 100644
--- a/nntl/interface/_i_rng.h
+++ b/nntl/interface/_i_rng.h
@@ -235,7 +235,7 @@ namespace rng {
 		//////////////////////////////////////////////////////////////////////////
 		//////////////////////////////////////////////////////////////////////////
 		void normal_vector(real_t*const ptr, const numel_cnt_t n, const real_t m = real_t(0.), const real_t st = real_t(1.))noexcept {
-			::std::normal_distribution<real_t> distr(m,n);
+			::std::normal_distribution<real_t> distr(m, st);
 			for (numel_cnt_t i = 0; i < n; ++i) {
 				ptr[i] = distr(*this);
 			}
-- 
2.43.0


From b4a1ddda7bd4cab8d3ba0e00477acfb26bcf1a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:01 +0000
Subject: [PATCH 17/17] fix: ~Workers() could hang: the stop flag was set and
 announced without holding the mutex

---
 nntl/interface/threads/workers.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/threads/workers.h b/nntl/interface/threads/workers.h
index 177f22c..9491f11 100644
--- a/nntl/interface/threads/workers.h
+++ b/nntl/interface/threads/workers.h
@@ -92,11 +92,12 @@ namespace threads {
 
 	public:
 		~Workers()noexcept {
+			//a worker that has just evaluated its waiting condition but isn't waiting yet would miss both the flag and the
+			//notification if the flag was changed without the mutex
+			m_mutex.lock();
 			m_bStop = true;
-
-			//m_mutex.lock();
 			m_waitingOrders.notify_all();
-			//m_mutex.unlock();
+			m_mutex.unlock();
 
 			for (auto& t : m_threads)  t.join();
 		}
-- 
2.43.0

