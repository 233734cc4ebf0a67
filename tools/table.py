prop('C01','Column-major addressing and shape queries agree for every matrix',
 'For every matrix (any number of rows and columns, with or without an emulated bias row or column, samples in rows or in columns) the cell in row r and column c is stored at offset r + c * rows, and every size, extent and range query reports exactly the cells it names: all cells, or the cells without the bias. Column sub-matrices and element, row and column ranges denote exactly the requested part. No query overflows or reaches outside the storage.',
 'all shapes up to the 32-bit row/column limits and all bias/orientation flags, all in-range coordinates',
 TESTS+' and read them back; the relation must hold for all shapes, including products beyond 32 bits.',
 [SM],[('element addressing',SM+': get/set/colDataAsVec/ldim'),('extents without bias',SM+': rows_no_bias, cols_no_bias, numel_no_bias*, end*'),('ranges',SM+': s_elems_range, s_vec_range, s_rowcol_range; nntl/interface/threads/parallel_range.h')])
prop('C02','Biases and fills: exactly the named cells change; bias tests are exact',
 'Filling a matrix, a row, a column or the biases, or loading it from an array, writes exactly the named cells with the given value and leaves every other cell untouched; emulated biases are never lost by a fill that must keep them. The tests that ask whether the biases are valid, or whether the contents are binary, answer true exactly when every inspected cell qualifies. The flag that marks biases with holes always tells whether a bias may be zero.',
 'all shapes, flags and cell contents',TESTS+'; neither the frame (nothing else changed) nor the all-cells quantifier of the tests is sampled.',
 [SM],[('fills',SM+': fill, ones, zeros, fill_row_with, fill_column_with, fill_last_row, fill_last_column, fill_from_array_no_bias'),('bias cells',SM+': set_biases, copy_biases_from, test_biases_*'),('binary tests',SM+': _isBinary*, _isAlmostBinary')])
prop('C03','Matrix storage is owned once, sized right, released once, even on failure',
 'A matrix that allocates its storage holds exactly rows*columns cells including the bias, initialises the bias to one, and releases the storage exactly once; a matrix over external storage never frees it. After any constructor, resize, switch of storage or clear, the reported shape and flags match the storage. If an allocation fails, the failure is observable (the matrix is empty or the call returns false) and no memory is touched.',
 'all shapes and flags, and success or failure of every allocation','Tests never make an allocation fail and only allocate small matrices; leaks, double frees and use after free are not observed at all.',
 [SM],[('allocation and release',SM+': _realloc, _free, constructors, destructor, resize*, _impl_resize, clear, useInternalStorage'),('external storage',SM+': useExternalStorage*')],over=('inputs','fault_sequences'))
prop('C04','Copy, clone, compare and move of matrices are exact',
 'Copying or cloning a matrix yields a destination whose every copied cell equals the source, with the same shape, bias and orientation (or without the bias where the operation says so), and changes nothing else; an incompatible destination is refused and left unchanged. Comparison of two matrices answers true exactly when shape, flags and all cells agree. Moving transfers the storage and leaves the source empty, with nothing leaked or freed twice, including self-assignment.',
 'all shapes, flags and contents of source and destination',TESTS+' of one shape; combinations of source and destination flags are not explored.',
 [SM],[('copies',SM+': copy_to, copy_data_skip_bias, clone, clone_to, clone_to_no_bias'),('comparison',SM+': operator==, isSame*'),('move',SM+': move constructor, move assignment')])
prop('C05','Reshaping views keep the data and restore exactly what they hid',
 'Deforming a matrix (changing its row or column count within the allocated storage, hiding and restoring the last columns or the biases, or transposing its orientation) changes only the reported shape and flags and never moves or reallocates the data; hiding followed by restoring is the identity. Batch-size changes that promise biases rewrite exactly the bias cells of the new shape. Every shape reached fits in the storage.',
 'all shapes, flags and deformation arguments that fit the storage','The tests contain no deformable matrix at all.',
 [SM],[('deformation',SM+': smatrix_deform::deform*, hide_*/restore_*, on_transposition, useExternalStorage, resize')],over=('inputs','histories'))
prop('C06','Triangular index mapping is a bijection onto the strict triangle',
 'For a square matrix of size n the number of off-diagonal elements of a triangle is n(n-1)/2, and each index below that number maps to exactly one cell strictly above (or strictly below) the diagonal, enumerating the triangle column by column without gaps or repetitions.',
 'all n up to 2^24 and all indices','No test reaches the mapping; its closed form goes through a square root, whose correctness at every perfect-square boundary cannot be sampled.',
 [SM],[('index mapping',SM+': sNumelTriangl, sTrianglCoordsFromIdx, triangl_coords_from_idx')],note='As C01, with the extra assumption that double-precision sqrt and ceil are exact at these arguments (8k+9 < 2^53, so the distance to the next half-integer exceeds one unit in the last place).')
MN_='nntl/interface/math/mathn.h'
TM='The four runnable tests do not execute this code at all (it is only syntax-checked), and a test would sample a few values'
MTN=NOTE+' Parallel variants run with a sequential stand-in for the thread pool that splits the range into up to three arbitrary consecutive parts.'
MQ='all shapes, with and without bias column, all cell values, all valid parameters, all explicit sub-ranges, and all splits of the range between workers'
prop('C07','Activation functions compute their formula on every non-bias element',
 'Each activation function (sigmoid, soft-sigmoid, softsign, relu, leaky relu, elu, selu, elogu, logu, loglogu, step and their unit-parameter variants) replaces every non-bias element of the matrix by the value of its documented formula and leaves the bias column alone. The explicit-range variant does so exactly for the given range, and the single-threaded, multi-threaded and dispatching variants give the same result.',
 MQ,TM+' of one function away from its branch points.',[MN_],[('forward activations',MN_+': sigm, softsigm, softsign*, relu, leakyrelu, elu*, selu, elogu*, logu*, loglogu*, step and their _st/_mt variants')],note=MTN)
prop('C08','Activation derivatives computed from the activation value are exact',
 'Each derivative function, given activation values in the range of its activation, replaces every element by the derivative of that activation expressed through the activation value, for every branch of the function including the branch points. Explicit ranges touch exactly the given range, and single-threaded, multi-threaded and dispatching variants agree.',
 MQ,TM+'; the existing numeric gradient check is not runnable here and samples only a few points.',[MN_],[('derivatives',MN_+': dsigm, dsoftsigm, dsoftsign*, drelu, dleakyrelu, delu*, dselu, delogu*, dlogu*, dloglogu* and their _st/_mt variants')],note=MTN)
prop('C09','Elementwise matrix arithmetic changes exactly the intended elements',
 'Every elementwise operation (scaling, shifting, multiplying, adding, subtracting, squaring, absolute value, sign, complement, scaled additions that skip zeros, sum of absolute values) computes its formula on every element of its destination, ignores or includes the bias row or column exactly as requested, and changes nothing else. All threaded variants and explicit ranges agree with it.',
 MQ,TM+'; bias rows and columns combined with sub-ranges are never exercised.',[MN_],[('in-place and two-operand operations',MN_+': evMulC_ip, evAddC_ip, evMulCAddC_ip, vAdd_ip, evMul_ip*, evAdd_ip*, evSubMtxMulC_ip_nb, ev*AddScaled*_ip, evOneCompl, evSub*, evSquare, evAbs, evSign, vSumAbs')],note=MTN)
prop('C10','Optimizer steps update weights deltas and accumulators by their formulas',
 'Each gradient-application step (RMSProp in Hinton and Graves form, ModProp, RProp, Adam, AdaMax, Radam/Nadam, momentum, individual learning rates) updates every accumulator element and every gradient element according to its published formula, advances the running powers of its decay constants exactly once per call, and touches nothing else. Parallel splits, however uneven, give the same result, and scratch memory obtained for the step is returned.',
 'all shapes, all gradient and accumulator contents, all valid hyperparameters, all splits of the range between workers',TM+'.',[MN_],[('optimizers',MN_+': RMSProp_Hinton, RMSProp_Graves, ModProp, RProp, Adam, AdaMax, RNadam, apply_momentum'),('individual learning rates',MN_+': apply_ILR*')],note=MTN,over=('inputs','histories'))
SMT='nntl/interface/math/smath.h'
prop('C11','Loss values and loss gradients compute their formulas on every element',
 'Each loss function (quadratic, cross-entropy for sigmoid and softmax outputs, and the numerically stable and weighted variants) returns the sum of its documented per-element loss over all non-bias elements, and its normalisation. Each output-layer gradient function replaces every non-bias element by the documented derivative of the loss, and touches nothing else. Single-threaded, multi-threaded and dispatching variants agree for every split of the work.',
 MQ,TM+'.',[MN_,'nntl/activations/_loss_parts.h'],[('losses',MN_+': loss_quadratic*, loss_xentropy*, loss_softmax_xentropy*, compute_loss*'),('gradients',MN_+': dSigmQuadLoss_dZ, d*_dZ, dLoss_dZ*')],note=MTN)
prop('C12','Selecting rows, columns or samples, transposing and cloning copy exactly',
 'Extracting columns, rows or samples by index, by mask or as a consecutive block, spreading rows by mask, transposing, and repeating columns write exactly the selected source values to exactly the documented destination cells, in order, for every shape, mask and index list, and leave bias cells and everything else untouched. All threaded variants and explicit ranges agree.',
 'all shapes, bias flags, index lists and masks, cell contents, sub-ranges and splits of the range between workers',TM+'.',[MN_,SMT],
 [('extraction',MN_+': mExtractCols*, mExtractRows*, mExtractBatches, mExtractRowsByMask*, mExtractRowsSeq*'),('spreading',MN_+': mFillRowsByMask*'),('transposition',MN_+': mTranspose*'),('cloning',SMT+': mCloneCol*, mCloneCols*')],note=MTN+' Repetition of columns with a different count each (mCloneCols*) is bounded: checked by execution against its contract for up to 10 rows, 10 source columns and 3 copies each, not proved.')
prop('C13','Tiling and untiling are exact inverse rearrangements of the data',
 'Rolling a wide matrix into a tall one for a tiled layer places tile number i of every sample into row block i, and unrolling performs exactly the inverse; the bias column is left untouched. The sequential-read, sequential-write, explicit-range and multi-threaded variants all write exactly the documented cells.',
 'all batch sizes, tile counts, tile widths, bias flags, column sub-ranges and splits between workers',TM+'.',[SMT],[('tiling',SMT+': mTilingRoll*, mTilingUnroll*')],level='exploration',
 note='Bounded, not proved: every entry point is executed against its contract on shapes up to 10 x 10 x 10 (quick: 800 random cases each; thorough: more and larger), with every cell of the destination and the frame compared. The wrapping pointer walk needs an invariant in div/mod of symbolic sizes that the verifier does not find.')
prop('C14','Sums and row-wise reductions and broadcasts are exact',
 'The sum of products, sum of squares and sum functions return exactly that sum over all elements they name (all, non-bias, or one strict triangle). Row-wise operations (multiply or divide each row by a number of a vector, index of the row maximum, row maximum, row sum in place or into a vector, row-wise OR) give for every row exactly the value of that row over the requested columns, the index being that of the first maximum, and change nothing else; all threaded variants, explicit ranges and column-wise or row-wise walks agree.',
 MQ,TM+'; the splits between workers and the thresholds between the walking orders are never crossed in a test.',[SMT,MN_],
 [('sums',SMT+': ewSumProd*, ewSumSquares*, ewSumSquaresTriang*, _vec_sum'),('row-wise reductions',SMT+': mrwIdxsOfMax*, mrwMax*, mrwSum*, mrwSum_ip*, mrwOr*, mrwBinaryOR*'),('row-wise broadcasts',SMT+': mrwDivideByVec*, mrwMulByVec*')],
 note=MTN+' Bounded (checked by execution against the contract, not proved): triangular sums, mrwOr*, the multi-threaded column-wise split of mrwIdxsOfMax and mrwSum and the dispatchers that reach it.')
prop('C15','Column-wise means, sums, demeaning and diagonal scaling are exact',
 'Column means and sums, subtraction of the mean from every column (for all elements, or only the non-zero ones), subtraction of a vector from the columns and multiplication of the columns by a diagonal compute their formula for every column and element, treat the bias column exactly as documented and touch nothing else. Single-threaded, multi-threaded and dispatching variants agree for every split of the columns between workers.',
 MQ,TM+'.',[SMT],[('column-wise operations',SMT+': mcwMean*, mcwDeMean*, mcwDeMeanNZ*, mcwSub_ip*, mcwMulDiag_ip*, mcwSum*')],note=MTN)
prop('C16','Scratch memory is handed out disjointly, within bounds, and given back',
 'The mathematics backend hands out temporary memory as a stack: every requested block lies completely inside the reserved storage and overlaps no block still in use, a request that does not fit is refused by aborting and never answered with an invalid block, and releasing a block makes exactly its space available again. Reserving raises the reserved size to the largest request ever announced, nested requests add up, and initialisation and deinitialisation allocate and release the storage exactly once.',
 'all request sizes and all states of the stack',TM+'; exhaustion and nesting are never exercised.',[SMT,MN_],
 [('stack of temporaries',SMT+': _istor_alloc, _istor_free, preinit, _push, _pop'),('life cycle',SMT+': init, deinit')],note=NOTE+' Contract checked with the asserts of debug builds off (release behaviour). init/deinit (vector allocation inside the standard library) is bounded: executed, not proved.',over=('inputs','histories'))
prop('C17','Clamping, binarizing, counting, and dropout masks follow their definition',
 'Clamping limits every element to the given bounds, binarization writes one exactly where the source exceeds the threshold and zero elsewhere (in place, into a matrix of another type, or into a row block of a bigger matrix), and the counting functions return exactly the number of non-zero or equal elements. Dropout keeps an element exactly where its random number is below the keep probability, scales or affinely transforms as documented, and writes the matching mask. Bias columns and everything else stay untouched; all threaded variants and sub-ranges agree.',
 MQ,TM+' and only for thresholds away from ties.',[MN_],[('clamping and binarization',MN_+': evClamp*, ewBinarize*, ewBinarize_ip*, ewBinarizeBatch*'),('counting',MN_+': vCountNonZeros, vCountSame*, vCountSameBatch*'),('dropout',MN_+': make_dropout*, apply_dropout_mask*, make_alphaDropout*')],
 note=MTN+' The random mask contents are an input of the contract (any numbers in [0,1]). ewBinarizeBatch_mt on its own is bounded (its dispatcher is proved).')
prop('C18','Row norms, row normalisation and softmax are exact for every row',
 'The squared norm of every row is the sum of the squares over exactly the requested columns. Norm clipping scales exactly the rows whose squared norm exceeds the limit, to the limit, and norm setting scales every row to the given norm, with the last column counted or not as requested but scaled along. Softmax replaces every row of non-bias elements by the exponentials of the differences to the row maximum divided by their sum, leaving the bias column alone; single-threaded, multi-threaded and dispatching variants agree and the scratch they announce is enough.',
 MQ,TM+'; in particular never with several workers.',[MN_],[('norms',MN_+': mrwL2NormSquared*, mCheck_normalize_rows*, mrwSetL2Norm*'),('softmax',MN_+': softmax*, softmax_parts*')],
 note=MTN+' Proved for the single-threaded norm functions and softmax_parts; the multi-threaded ones, the dispatchers and softmax itself are bounded: executed against the contract on small and on some large shapes, not proved.')
prop('C19','Matrix products for forward and backward passes compute the right product',
 'Preactivations are the product of the biased previous activations and the transposed weights, back-propagated derivatives the product of the error and the weights without their bias column, and weight gradients the scaled product of the transposed error and the previous activations, for every combination of sample layouts; bias cells of the result and all inputs (including the shape of the weights) are left as they were. The plain products, column covariances, the decorrelation loss with its gradient and in-place transposition equally compute their definition and return the scratch they took. BLAS is always called with valid dimensions that stay inside the matrices.',
 'all shapes, both layouts of every matrix that supports them, with and without bias, all contents and scale factors',TM+'; mixed layouts in particular.',[MN_,'nntl/interface/math/bindings/b_open_blas.h'],
 [('products of the layers',MN_+': mMul_prevAct_weights_2_act, mMul_dLdZ_weights_2_dLdAPrev, mMulScaled_dLdZ_prevAct_2_dLdW'),('plain products',MN_+': mMulAB_C, mMulABt_Cnb, mScaledMulAtB_C, mColumnsCov'),('decorrelation',MN_+': loss_deCov, dLoss_deCov, dLoss_deCov_ip'),('BLAS binding','nntl/interface/math/bindings/b_open_blas.h: gemm, syrk, symm, imatcopy')],
 note=NOTE+' The BLAS routines themselves are an assumed contract: reference loops in harness/mn_blas.cpp (with the standard argument checks) stand in for the library. The DeCov functions, in-place transposition and the orthogonality test are bounded: executed against the contract, not proved.')
UT='nntl/utils/'
prop('C20','Confusion matrix counters and derived metrics are exact',
 'Updating the confusion matrix increments exactly the counter of the given ground truth and prediction, clearing zeroes it, and adding or reducing matrices adds them counter by counter. Every derived metric (totals, sensitivity, specificity, precision, negative predictive value, accuracy, informedness, markedness, Matthews correlation, Jaccard, F1 and F-beta) equals its definition whenever its denominator is not zero; the Matthews correlation is zero when its denominator is. No intermediate result overflows for counters up to two million.',
 'all counter values up to 2^21 (2^31-2 for updates)','The formulas are not exercised by any test that runs here, and overflow needs sample counts no test uses.',[UT+'confusion_mtx.h'],
 [('counters',UT+'confusion_mtx.h: update, clear, operator+=, reduce, operator=='),('metrics',UT+'confusion_mtx.h: Sensitivity ... MCC, F1Score, FBetaScore')],note=NOTE)
TD_='nntl/train_data/'
prop('C21','Training and inference batches deliver every sample exactly as stored',
 'Walking over a data set (for inference or inspection) delivers every sample exactly once, in order, with X and Y rows of the same sample together, for every batch size, sample layout and data set size, including a shorter last batch. A training epoch delivers full batches only, of distinct samples, as many as fit; the data holder never repeats a row before all rows that fill a batch were used, and reshuffles only then. Initialisation reports exactly the batch sizes the set can serve, refuses impossible combinations, and after any history of walks and epochs the set still delivers correct batches.',
 'all set sizes, layouts and batch sizes; histories of up to five operations','No test that runs here covers data sets; remainders, mixed layouts and interleaved walks and epochs are combinations no sampled test reaches.',[TD_,UT+'dataHolder.h'],
 [('initialisation',TD_+'_train_data_simple.h: init4inference, init4train, is_initialized4inference, is_initialized4train'),('walking and epochs',TD_+'_train_data_simple.h: walk_over_set, next_subset, on_next_epoch, on_next_batch'),('random batches',UT+'dataHolder.h: dataHolder::init, prepareToBatchSize, nextBatch')],
 note=NOTE+' Initialisation is proved; walks, epochs and the data holder are bounded: histories executed against the contract, not proved. Random numbers come from a stand-in generator.',over=('inputs','histories'))
prop('C22','Data normalisation is one affine map that yields the requested statistics',
 'Normalising the data of an initialised training data object applies a single map x -> scale*x+offset to the whole X data (or one per column when column-wise) of the training and of every other data set alike, never touches biases or Y data, and on success leaves the training X with the requested mean and/or deviation within the stated tolerance; with nothing requested nothing changes. Records of scale and offset compose exactly like the maps they stand for, parts not in use are neutral, and applying a record to a matrix transforms every non-bias cell exactly once.',
 'all scale/offset records, all matrix shapes with bias in columns or rows; data sets and settings sampled','No test that runs here normalises data; the composition of corrections over several batches and the application to every data set with its bias column are never executed.',[TD_,UT+'mtx2Normal.h'],
 [('records and their application',UT+'mtx2Normal.h: ScaleCentralData, upd_mtx_scale_central'),('statistics and iteration',UT+'mtx2Normal.h: normalize_whole, normalize_cw; '+TD_+'_td_norm.h'),('application to all sets',TD_+'_td_base.h: _fix_dataX_whole, _fix_dataX_cw; inmem_train_data.h: _fix_trainX_whole, _fix_trainX_cw')],
 note=NOTE+' Records and the whole-matrix application are proved; column-wise application and the normalisation of data sets are bounded: executed against the contract, not proved. Whether normalisation succeeds is only claimed where the data are off the target.',over=('inputs',))
GWP='nntl/grad_works/'
prop('C23','A weight update is the configured optimizer step, momentum and constraint',
 'Applying a gradient to a weight matrix changes every weight by exactly the step of the chosen optimizer, computed from the gradient plus the L1/L2 penalties (biases exempt where so configured), with the first run, momentum (classical or Nesterov look-ahead and correction), individual learning rates, learning-rate dropout and max-norm applied in the documented order and nothing else. The optimizer state evolves as documented over any sequence of updates, and the reported loss addendum is the value of the configured penalties.',
 'all weights, gradients, optimizer states, settings and random numbers for a single update; sequences of updates sampled','No test that runs here trains or updates a weight; the interplay of optimizer state, momentum and constraints over several updates is never executed.',[GWP+'grad_works.h',GWP+'ILR.h',GWP+'loss_addendums.h','nntl/loss_addendum/L1.h','nntl/loss_addendum/L2.h'],
 [('update',GWP+'grad_works.h: apply_grad, pre_training_fprop, gw_init, gw_deinit and the setters'),('individual learning rates',GWP+'ILR.h: ILR_init, ILR_apply, set_ILR, applyILRToMomentum'),('penalties',GWP+'loss_addendums.h: _applyLossAddendums, lossAddendum, L1, L2; nntl/loss_addendum/L1.h, L2.h')],
 note=NOTE+' A single update is proved for every optimizer; max-norm and sequences of updates (with individual learning rates) are bounded: executed against the contract, not proved.',over=('inputs','histories'))
prop('C24','Training a network is gradient descent; reports and inference match the weights',
 'Training a feed-forward network performs, epoch after epoch and batch after batch, exactly one backpropagation gradient step per batch on the configured loss of the current weights, for every layer not frozen, until the requested, stopped or diverged epoch. Every reported loss and accuracy is that of the whole data set under the weights at the moment of the report (plus the penalties if requested), whatever batch sizes are used. Inference before, between and after trainings returns the outputs of the current weights, and any history of trainings, evaluations and inferences with different batch sizes behaves as if each ran on its own.',
 'histories of up to four operations on networks of one to three layers','No test that runs here trains a network; stale caches and batch-size changes show only in sequences of trainings and evaluations.',['nntl/nnet.h','nntl/layers.h','nntl/layer/','nntl/nnet_evaluator.h'],
 [('training and reports','nntl/nnet.h: train, calcLossAndReport, _init4train, deinit'),('inference','nntl/nnet.h: fprop, init4fixedBatchFprop, doFixedBatchFprop'),('layers','nntl/layers.h: init, fprop, bprop; nntl/layer/_fully_connected.h, fully_connected.h, output.h, input.h'),('evaluation','nntl/nnet_evaluator.h: report_results_begin, report_results, report_results_end')],
 note=NOTE+' Bounded: histories of operations on real networks are executed against a reference network; comparisons use a relative tolerance of 0.002.',over=('inputs','histories'))

IF_='nntl/interface/'
prop('C25','Random fills and initial weights follow the requested distribution exactly',
 'Every random fill of a vector or matrix maps the numbers drawn from the generator to exactly the requested range or distribution, writes every requested cell exactly once and nothing else (never the bias column when asked to leave it), and uses the given bounds, mean and deviation. Weight initialisation fills the whole weight matrix with the documented distribution: the documented bound or deviation for the fan-in and fan-out, biases as documented, and for sparse schemes exactly the documented number of non-zero weights per neuron.',
 'all sizes, bounds and random numbers','No test that runs here initialises weights; a wrong deviation or a missed last cell shows only in the statistics of training.',[IF_+'_i_rng.h',IF_+'rng/distr_normal_naive.h','nntl/weights_init/static.h'],
 [('fills',IF_+'_i_rng.h: rng_helper (gen_vector, gen_matrix, gen_matrix_no_bias, gen_vector_norm, bernoulli_vector, normal_vector and relatives)'),('normal distribution',IF_+'rng/distr_normal_naive.h'),('weights','nntl/weights_init/static.h: make_weights, SNNInit_eigenvar and relatives')],
 note=NOTE+' The generator hands out arbitrary numbers; std::normal_distribution is replaced by an assumed contract (mean + deviation * next number). Sparse initialisation is bounded: executed against the contract, not proved.',over=('inputs',))
prop('C26','The thread pool processes every item of a job exactly once, then returns',
 'A job handed to the worker pool is split into consecutive, disjoint, non-empty ranges that cover every item exactly once; each runs once, under its own thread id below the reported number of threads, with id 0 on the calling thread. run() and reduce() return only when all parts are done, reduce() combines exactly one result per part, whatever jobs came before, and destroying a pool always ends. Background workers execute a function exactly once each before exec() returns, and call no task after it was deleted or the pool destroyed.',
 'all job sizes, thread counts and table sizes for the split; histories of up to twelve jobs under real threads with random delays','No test that runs here uses the pool; a lost wake-up or an early return needs a particular interleaving.',[IF_+'threads/workers.h',IF_+'threads/bgworkers.h',IF_+'threads/parallel_range.h','nntl/utils/forwarder.h'],
 [('split',IF_+'threads/workers.h: partition_count_to_workers; threads/parallel_range.h'),('execution',IF_+'threads/workers.h: run, reduce, _run, _reduce, _worker, constructor, destructor'),('background',IF_+'threads/bgworkers.h: exec, add_task, delete_tasks, _worker')],
 note=NOTE+' The split is proved. Execution is bounded: histories on real threads, with the library primitives and with primitives that insert random delays; not every interleaving and no weaker memory order is covered.',over=('inputs','schedules'))
LY='nntl/layer/'
prop('C27','Composed layers behave like the plain network they denote',
 'A network assembled from vertical, horizontal, tiled, gated (optional) and nested layer packs, identity layers, dropout and penalized activations computes, trains and reports exactly like the plain network it denotes: layers on top of each other, side by side on their column ranges, one layer applied to every tile, a gated layer acting on and learning from only the samples whose gate is open. Dropout drops and rescales, only in training, exactly the activations its random mask selects and passes gradients through the same mask, and penalties on activations add exactly their derivative. Whatever the batch sizes and the history of trainings and inferences, no part disturbs the data or the state of another.',
 'histories of up to four operations on ten composed networks','No test that runs here builds a pack; shared activation storage and borrowed bias columns corrupt neighbours only for particular ranges and batch sizes.',[LY,'nntl/dropout/'],
 [('packs',LY+'pack_vertical.h, pack_horizontal.h, _lph_base.h, pack_horizontal_optional.h, pack_tile.h, _pack_.h'),('layers',LY+'identity.h, extender.h, fully_connected.h, _activation_storage.h, _penalized_activations_base.h'),('dropout','nntl/dropout/dropout.h, _base.h: _dropout_apply, _dropout_restoreScaling')],
 note=NOTE+' Bounded: histories of operations on real networks are executed against a reference network; comparisons use a relative tolerance of 0.002.',over=('inputs','histories'))
