"""The properties: one entry per line of properties.jsonl and per check of MANIFEST.json (see tools/docs.py)."""
S = 'src/wai/ma/'
MAT = S + 'core/matrix/_Matrix.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
                  technique=technique, note=note))


prop('C01', 'Matrix arithmetic equals its element-by-element definition',
     'Every arithmetic, element-wise, vector-broadcast, reduction, norm and statistics operation of a matrix yields exactly the result of its textbook definition over the elements, for every shape including single rows, single columns and 1x1. '
     'Operands whose shapes do not fit are rejected with an exception and left unchanged; nothing is silently broadcast or truncated.',
     ['inputs'], 'all shapes (1x1 upwards), signs, magnitudes and operand combinations, including negative, zero and very large or small elements',
     'The tests evaluate a few operations on two or three hand-written matrices; shape mismatches, 1x1 and vector orientation corner cases and mixed magnitudes are not enumerated.',
     [MAT, S + 'core/matrix/helper.py'],
     [('element operations', MAT + ': mul .. div_by_vector_modify'), ('shape guards', MAT + ': must_be_*, dimensions_must_match'),
      ('statistics', S + 'core/matrix/helper.py: row_mean .. column_stdevs')],
     'property-based testing against an exact-rational / element-loop reference model',
     'Generated matrices and operands; oracle is a pure Python element loop (fractions where sums round). Sampled, not exhaustive.')

prop('C02', 'Matrix operations never alter or share storage with their operands',
     'An operation that returns a matrix leaves all its operands bit-for-bit unchanged and returns storage of its own, so that later changes to the result or to an operand never show up in the other. '
     'An operation that changes a matrix in place changes only that matrix.',
     ['inputs', 'histories'], 'every operation of the matrix interface and factory, every operand shape, any later modification of either side',
     'Tests look only at returned values; aliasing shows only when a result is modified later, which no test does.',
     [MAT, S + 'core/matrix/helper.py', S + 'core/matrix/factory.py'],
     [('copies on extraction', MAT + ': get_sub_matrix, get_row, get_column, copy, transpose'), ('in-place operations', MAT + ': set*, *_modify')],
     'property-based testing: mutation probes after every operation',
     'After each operation the result and the operands are overwritten through the public interface and re-compared.')

prop('C03', 'A matrix behaves as a value under any sequence of edits and extractions',
     'After any sequence of element, row and column assignments, sub-matrix extractions, concatenations, row deletions and copies over several matrices, every matrix holds exactly the elements that a plain two-dimensional array would hold. '
     'Predicates over elements (any, all, which, contains NaN) report exactly the matching positions, and positions outside the matrix are rejected without changing anything.',
     ['histories', 'inputs'], 'all operation sequences over a pool of matrices, all index ranges',
     'Tests run single operations on fresh matrices; interactions of edits and extracted pieces need operation histories.',
     [MAT, S + 'core/matrix/helper.py'],
     [('edits', MAT + ': set, set_row, set_column, fill helpers'), ('extraction', MAT + ': get_sub_matrix, get_rows, get_columns, concat'), ('helper operations', S + 'core/matrix/helper.py')],
     'model-based (stateful) testing against a plain array model',
     'Random histories of operations over several matrices, compared after each step with a nested-list model.')

prop('C04', 'Decompositions, inverses and eigenproblems satisfy their equations',
     'Singular value and eigenvalue decompositions multiply back to the matrix with orthonormal factors and correctly sorted values, and eigenvectors of a symmetric matrix are real and orthonormal even if eigenvalues coincide. '
     'Inverses, least-squares inverses, pseudo-inverses and solutions of linear systems satisfy their defining equations; inverting a singular square matrix is an error.',
     ['inputs'], 'square, tall, wide, rank-deficient, symmetric and non-symmetric matrices with real spectrum, over several orders of magnitude',
     'Tests check one or two fixed matrices per decomposition; wrong sort order, transposed factors or rank-deficient handling depend on shape and spectrum.',
     [MAT], [('decompositions', MAT + ': make_*_decomposition, svd_*, get_eigen*'), ('inverses', MAT + ': inverse, pseudo_inverse'), ('solve', S + 'core/matrix/helper.py')],
     'property-based testing: defining equations as oracle', 'Residuals of the defining equations, tolerance scaled by the condition number; ill-conditioned cases are counted as trivial.')

prop('C05', 'Cached decompositions always belong to the current elements',
     'Whatever was asked of a matrix before and however it was edited since, every singular value and eigenvalue result equals that of a freshly built matrix with the current elements. '
     'Modifying a returned factor does not influence later answers.',
     ['histories'], 'all interleavings of queries and every kind of in-place edit', 'No test edits a matrix after asking for a decomposition.',
     [MAT], [('cache reset', MAT + ': reset_cache and its callers'), ('cached decompositions', MAT + ': make_*_decomposition')],
     'stateful property-based testing: differential against a fresh matrix', 'Histories of queries and edits, differential oracle against a fresh matrix with the same elements.')

prop('C06', 'Matrix constructors and random generators deliver what was requested',
     'Every constructor (zeros, filled, identity, diagonal, ranges, from rows, columns or raw data) yields a real matrix of exactly the requested shape and elements, whatever the element type or layout of the source. '
     'Random matrices lie in the documented range, are a function of the seed alone and differ between seeds and between elements.',
     ['inputs'], 'all shapes, fill values, source layouts and seeds', 'Tests use one or two shapes; seed determinism and range hold for all seeds.',
     [S + 'core/matrix/factory.py'], [('constructors', S + 'core/matrix/factory.py')],
     'property-based testing against the definition', 'Normal random matrices are only held to the recorded finding (uniform numbers).')

prop('C07', 'Matrices survive a trip through text files',
     'Writing a matrix to a text file and reading it back restores its shape and elements - exactly when written at full precision, to the printed decimals otherwise - for every separator, header choice and matrix shape. '
     'An unreadable cell or an irregular line does not affect other cells, and a file without data is reported as an error.',
     ['inputs', 'fault_sequences'], 'all shapes, values (including extreme exponents and NaN), separators, decimals, header choices and damaged cells or lines',
     'Tests read two fixed CSV files; formatting and parsing of extreme values, other separators and damaged files are untested.',
     [S + 'core/matrix/helper.py', S + 'core/utils.py'], [('reader and writer', S + 'core/matrix/helper.py: read, write'), ('number formatting', S + 'core/utils.py: real_to_string_fixed')],
     'property-based testing: round trip plus fault injection in the text', 'Files are written to a scratch directory the check creates and removes.')

prop('C08', 'Serialised state decodes to exactly the values it was made from',
     'The binary state written for a matrix, primitive value, fitted transformation or model can be decoded, following the documented layout, to exactly the values it was made from, bit for bit. '
     'An object that is not ready to be saved is rejected instead of producing a partial state.',
     ['inputs', 'histories'], 'all shapes, element values, integers of any size and sign, strings, fitted parameters',
     'Tests compare one serialised object; sign, size and shape dependence of the encoding is not covered.',
     [S + 'core/_Serialisable.py', MAT, S + 'core/utils.py', S + 'transformation/_Standardize.py', S + 'algorithm/pls/_SIMPLS.py'],
     [('encoder', S + 'core/_Serialisable.py'), ('matrix layout', MAT + ': serialise_state'), ('models', S + 'transformation/*.py, ' + S + 'algorithm/pls/_SIMPLS.py: serialise_state')],
     'property-based testing: round trip through an independent decoder', 'The decoder in the check is written from the layout; the empty result of the in-memory variant is a recorded finding.')

prop('C09', 'Sorting, regression, formatting and comparison helpers meet their definitions',
     'Sorting returns a permutation that orders the values, the index of the maximum is the first maximal position, linear regression returns the least-squares intercept and slope, and number formatting shows the correctly rounded requested decimals. '
     'Matrix comparison is exact or within the given tolerance, and is false rather than an error for different shapes.',
     ['inputs'], 'all lists (ties, NaN, infinities, duplicates), all decimal counts, all tolerances', 'The tests do not call most of these helpers directly.',
     [S + 'core/utils.py', S + 'core/matrix/helper.py', MAT], [('helpers', S + 'core/utils.py: sort, max_index, linear_regression, real_to_string_fixed'), ('equality', S + 'core/matrix/helper.py: equal; ' + MAT + ': __eq__')],
     'property-based testing against exact references', 'Exact rational / decimal arithmetic oracles.')

prop('C10', 'Inverse transforms undo transforms',
     'For every invertible transformation, the inverse of the transform restores the data, and the transform of the inverse restores it too, for the data it was fitted on and for any other data of the same width. '
     'A transformation that cannot be inverted says so instead of returning something else.',
     ['inputs', 'configurations'], 'every transformation and option combination, data with constant columns, offsets and mixed units',
     'Tests check one matrix per transformation, fitted and applied on the same data.',
     [S + 'transformation/_Center.py', S + 'transformation/_Standardize.py', S + 'transformation/_Log.py', S + 'transformation/_RobustScaler.py', S + 'transformation/_PowerTransformer.py', S + 'transformation/_QuantileTransformer.py'],
     [('inverse', S + 'transformation/*.py: do_inverse_transform'), ('template', S + 'transformation/_AbstractTransformation.py')],
     'property-based testing: round-trip relations', 'Quantile transform is held to the range in which it is one-to-one.')

prop('C11', 'A transformation is a function of its options and fitting data, not its history',
     'Whatever sequence of option changes, fits, transforms, inverse transforms and resets happened before, a transformation acts like a fresh one with the current options fitted on the data current since the last reset or option change. '
     'A rejected option value raises an error and changes nothing.',
     ['histories', 'configurations'], 'all operation histories over every transformation', 'Each test fits once on one matrix.',
     [S + 'transformation/_AbstractTransformation.py', S + 'transformation/_RowNorm.py', S + 'transformation/_Log.py', S + 'transformation/_RobustScaler.py', S + 'transformation/_PowerTransformer.py'],
     [('lazy configuration', S + 'transformation/_AbstractTransformation.py'), ('reset on option change', S + 'transformation/*.py: property setters')],
     'model-based (stateful) testing against fresh instances', 'Differential against a freshly built object at every step.')

prop('C12', 'Scaling transformations produce the documented values',
     'Centring, standardising, row normalisation, robust, power, quantile and logarithmic transformations map data to the values of their definition with statistics of the fitting data only. '
     'Standardised columns have mean 0 and sample deviation 1, constant columns (also those whose deviation is only rounding error) become 0, and the logarithm refuses data outside its domain.',
     ['inputs', 'configurations'], 'all data and options; application to data other than the fitting data', 'Tests compare one data set to stored results with same data for fit and transform.',
     [S + 'transformation/_Center.py', S + 'transformation/_Standardize.py', S + 'transformation/_RowNorm.py', S + 'transformation/_Log.py', S + 'transformation/_RobustScaler.py', S + 'transformation/_PowerTransformer.py', S + 'transformation/_QuantileTransformer.py'],
     [('transformations', S + 'transformation/*.py: configure, do_transform')],
     'property-based testing against reference formulas', 'Robust/power/quantile references come from the wrapped library called directly.')

prop('C13', 'Savitzky-Golay filters return windowed polynomial least-squares estimates',
     'Every output value is the coefficient of the requested derivative order of the least-squares polynomial fitted to its window, for every left/right window size, polynomial order and derivative, one value per complete window. '
     'Polynomials up to the fitted order are reproduced or differentiated exactly.',
     ['inputs', 'configurations'], 'all windows, orders, derivatives and rows', 'Tests use one window configuration on one matrix.',
     [S + 'transformation/_SavitzkyGolay.py', S + 'transformation/_SavitzkyGolay2.py', S + 'core/utils.py'],
     [('coefficients', S + 'core/utils.py: determine_coefficients'), ('convolution', S + 'transformation/_SavitzkyGolay.py')],
     'property-based testing against an independent polynomial fit', 'Reference is a direct least-squares fit per window.')

prop('C14', 'Fourier transforms report the spectrum of every row and can be inverted',
     'Every output mode reports the discrete Fourier transform of the rows in its documented layout, preserving total energy. '
     'The modes that keep the complete spectrum can be inverted exactly to the original rows, and the others refuse to.',
     ['inputs', 'configurations'], 'all row lengths, output modes and data', 'Tests use one small matrix per mode.',
     [S + 'transformation/_FFT.py'], [('layouts', S + 'transformation/_FFT.py')],
     'property-based testing against a direct DFT and round trip', 'The rotated row order of multi-row transforms is a recorded finding and is accepted as such.')

prop('C15', 'Multiplicative scatter correction removes offset and gain and nothing else',
     'Inside each requested range, a spectrum is replaced by (amplitude - intercept) / slope of its regression on the average spectrum of the fitting data; wave numbers and points outside all ranges stay as they were. '
     'An offset and gain applied to a spectrum therefore make no difference after the correction.',
     ['inputs', 'configurations'], 'all spectra, range sets and fitting data', 'One fixed data set and range set in tests.',
     [S + 'transformation/_MultiplicativeScatterCorrection.py', S + 'core/utils.py'], [('correction', S + 'transformation/_MultiplicativeScatterCorrection.py'), ('regression', S + 'core/utils.py: linear_regression')],
     'property-based testing: reference formula and metamorphic invariance', 'Near-zero slopes are trivial.')

prop('C16', 'Downsampling, resampling and filter chains select and interpolate exactly',
     'Downsampling keeps exactly every step-th column from the start on, and resampling to equal distances interpolates linearly between neighbouring columns while keeping both end columns. '
     'A chain of filters does what applying its members one after the other does.',
     ['inputs', 'configurations'], 'all start, step and sample counts, shapes and chains', 'One configuration each in tests.',
     [S + 'filter/_Downsample.py', S + 'filter/_Equidistance.py', S + 'core/_MultiFilter.py'], [('filters', S + 'filter/*.py'), ('chain', S + 'core/_MultiFilter.py')],
     'property-based testing against index arithmetic', 'Exact comparison for selection, tolerance for interpolation.')

prop('C17', 'Kernel matrices hold the kernel value of every pair of rows',
     'The kernel matrix of two data sets holds the kernel value of every row pair in matching order, agrees with the vector form, and the one-argument form is the symmetric kernel matrix of the data with itself. '
     'Linear and polynomial kernels equal their formula for every option setting, with the default scale being one over the number of columns.',
     ['inputs', 'configurations'], 'all data pairs of equal width, kernels and options', 'Tests only use kernels through one regression per kernel.',
     [S + 'transformation/kernel/_AbstractKernel.py', S + 'transformation/kernel/_LinearKernel.py', S + 'transformation/kernel/_PolyKernel.py', S + 'transformation/kernel/_RBFKernel.py'],
     [('matrix form', S + 'transformation/kernel/_AbstractKernel.py'), ('kernels', S + 'transformation/kernel/*.py')],
     'property-based testing against formulas', 'The RBF kernel is held to the distance it uses (recorded finding: not squared).')

prop('C18', 'PCA yields the dominant principal components',
     'Scores and loadings are those of the principal components of the centred or standardised data, dominant first, orthonormal, and as many as the requested share of variance and column limit ask for; constant columns take no part. '
     'The outcome does not depend on row order, added offsets, earlier uses of the object or, when standardised, on the units of the columns.',
     ['inputs', 'configurations'], 'all data, thresholds, limits, centring choices', 'One data set with default options in tests.',
     [S + 'algorithm/_PCA.py'], [('components', S + 'algorithm/_PCA.py')], 'property-based testing against an SVD reference and metamorphic relations', 'Comparison up to sign; repeated eigenvalues only by subspace.')

prop('C19', 'The CCA filter yields regularised canonical correlations',
     'Projections of predictors and responses are whitened with respect to the regularised covariances, uncorrelated across pairs, and their correlations are the leading canonical correlations in descending order. '
     'New data is centred by the training means before projection, and asking for too many pairs yields an error message.',
     ['inputs', 'configurations'], 'all data, regularisation and pair counts', 'One data set and single response column in tests.',
     [S + 'algorithm/_CCAFilter.py'], [('projections', S + 'algorithm/_CCAFilter.py')], 'property-based testing against an eigen/SVD reference', 'Comparison up to sign.')

prop('C20', 'GLSW and EPO filters are built from the covariance of the differences',
     'The weighting filter has the eigenvectors of the covariance of the centred differences of the two data sets and exactly the weights 1/sqrt(s^2/alpha+1); the orthogonal-projection variant projects on the requested number of dominant directions. '
     'Transforming multiplies by that matrix, and data sets that do not fit together yield an error message and an unusable filter.',
     ['inputs', 'configurations'], 'all pairs of data sets, alphas and direction counts', 'One pair of data sets in tests.',
     [S + 'algorithm/glsw/_GLSW.py', S + 'algorithm/glsw/_EPO.py'], [('filter matrix', S + 'algorithm/glsw/_GLSW.py, _EPO.py')],
     'property-based testing against an eigendecomposition reference', 'The pairing of weights and eigenvectors is a recorded finding and accepted as such.')

prop('C21', 'Y-gradient filters weight sample gradients by the response gradient',
     'Samples are ordered by the response, differentiated down the columns with replicated edges, and weighted by 2^(-gradient/deviation of the gradients); the filters follow from that weighted covariance whatever the order in which the rows were given.',
     ['inputs'], 'all data, responses and row orders', 'One data set in tests.',
     [S + 'algorithm/glsw/_YGradientGLSW.py', S + 'algorithm/glsw/_YGradientEPO.py', S + 'transformation/_YGradientGLSWSavitzkyGolayFilter.py'],
     [('weights', S + 'algorithm/glsw/_YGradientGLSW.py'), ('derivative', S + 'transformation/_YGradientGLSWSavitzkyGolayFilter.py')],
     'property-based testing against a reference computation', 'The opposite sign of the derivative is a recorded finding and accepted as such.')

prop('C22', 'FastICA separates sources and reconstructs the data',
     'Sources are an orthonormal rotation of the whitened data that follows the fixed-point iteration with the chosen contrast, limit and tolerance, and reconstruct the data (its dominant part if fewer components are kept). '
     'Running again on the same data gives the same sources, and linearly mixed independent signals are recovered up to order, sign and scale.',
     ['inputs', 'configurations'], 'all data, contrast functions, algorithms, component counts, whitening choices', 'One fixed signal in tests.',
     [S + 'algorithm/ica/_FastICA.py', S + 'algorithm/ica/approxfun/_LogCosH.py', S + 'algorithm/ica/approxfun/_Cube.py', S + 'algorithm/ica/approxfun/_Exponential.py'],
     [('iteration', S + 'algorithm/ica/_FastICA.py'), ('contrast functions', S + 'algorithm/ica/approxfun/*.py')],
     'property-based testing: invariants, reference iteration, source recovery', 'The symmetric variant is held to the recorded finding.')

PLS = S + 'algorithm/pls/'

prop('C23', 'Single-response PLS predicts the least-squares fit in its Krylov space',
     'Plain PLS in all its implementations (PLS1, SIMPLS, NIPALS, linear kernel, dense sparse PLS, unweighted robust PLS, domain-invariant PLS of identical domains) predicts with the coefficients that fit the preprocessed response best within the space its components span, '
     'which with all components is ordinary least squares. Scores are mutually orthogonal and transform of the training data returns the training scores.',
     ['inputs', 'configurations'], 'all well-posed data sets, numbers of components, preprocessing types, and new predictors',
     'One 40x7 data set with recorded outputs; agreement of implementations with each other and with least squares is not tested.',
     [PLS + '_PLS1.py', PLS + '_SIMPLS.py', PLS + '_NIPALS.py', PLS + '_KernelPLS.py', PLS + '_SparsePLS.py', PLS + '_PRM.py', PLS + '_DIPLS.py'],
     [('training and prediction', PLS + '*.py: do_perform_initialization, do_perform_predictions')],
     'property-based testing against a Krylov-space least-squares reference, differential between implementations',
     'Reference solves the least-squares problem directly; problems that amplify a 1e-10 change of the data beyond 1e-6 are trivial.')

prop('C24', 'Variance constrained PLS solves its generalised eigenproblem',
     'Every weight vector maximises the squared covariance with the response, penalised by lambda, relative to the variance of the scores; loadings, scores and predictions follow by deflation with these weights.',
     ['inputs', 'configurations'], 'all data sets, positive and negative lambda, numbers of components', 'Three recorded outputs on one data set.',
     [PLS + '_VCPLS.py', PLS + '_PLS1.py'], [('weights', PLS + '_VCPLS.py: calculate_weights')],
     'property-based testing against a symmetric generalised eigensolver', 'Comparison up to sign; nearly equal leading eigenvalues are trivial.')

prop('C25', 'Multi-response PLS and CCA regression follow the NIPALS iteration',
     'NIPALS, its canonical variant, CCA regression and kernel PLS yield on several responses the scores, loadings, predictions and transformed responses of their published iteration on the preprocessed data, with every iteration limit and tolerance, and agree with an independent library. '
     'Components that no longer carry information contribute nothing.',
     ['inputs', 'configurations'], 'all data sets with 1..4 responses, components, iteration limits, kernels, weight normalisation', 'Recorded outputs on one data set with a single response; no multi-response case.',
     [PLS + '_NIPALS.py', PLS + '_CCARegression.py', PLS + '_KernelPLS.py'],
     [('iteration', PLS + '_NIPALS.py: nipals_loop'), ('kernel space', PLS + '_KernelPLS.py')],
     'property-based testing against reference iterations, differential against scikit-learn', 'New data is held to the recorded finding about centring in kernel space for nonlinear kernels.')

prop('C26', 'PLS preprocessing equals preprocessing by hand',
     'Training any PLS algorithm with centring or standardising gives the predictions and scores of training it without on data centred or standardised with the training statistics, with the response transformed back; new data is always treated with the training statistics, however few rows it has.',
     ['inputs', 'configurations'], 'all ten algorithms with their options, data sets including constant columns, and new data', 'Outputs are recorded per preprocessing type on one data set and never compared with each other.',
     [PLS + '_AbstractPLS.py', PLS + '_AbstractSingleResponsePLS.py', PLS + '_AbstractMultiResponsePLS.py'],
     [('preprocessing', PLS + '_Abstract*ResponsePLS.py: do_initialize, preprocess_predictors, do_predict')],
     'metamorphic property-based testing', 'The other side of the relation is the same algorithm without preprocessing.')

prop('C27', 'SIMPLS yields orthonormal scores and honours its coefficient limit',
     'SIMPLS weights give orthonormal training scores, coefficients are the weights times the projection of the response, and a limit on coefficients zeroes the smallest entries of every weight vector and keeps the largest unchanged.',
     ['inputs', 'configurations'], 'all data sets, component and coefficient limits', 'One data set; the limited entries are not inspected.',
     [PLS + '_SIMPLS.py'], [('weights', PLS + '_SIMPLS.py: do_perform_initialization'), ('limit', PLS + '_SIMPLS.py: slim')],
     'property-based testing against a SIMPLS reference', 'The off-by-one of the limit is a recorded finding and accepted as such.')

prop('C28', 'Sparse PLS selects and fits exactly the relevant columns',
     'Columns whose covariance with the current residual exceeds lambda times the largest are selected in addition to those selected before; the coefficients are those of PLS on the selected columns and predictions do not depend on any other column.',
     ['inputs', 'configurations'], 'all data sets, lambda from dense to one column, components', 'Recorded outputs on one data set.',
     [PLS + '_SparsePLS.py'], [('selection', PLS + '_SparsePLS.py: get_direction_vector, collect_indices'), ('fit', PLS + '_SparsePLS.py: get_regression_coefficient')],
     'property-based testing against a reference selection and fit', 'transform is held to the recorded finding.')

prop('C29', 'OPLS removes exactly the variation orthogonal to the response',
     'The removed scores are orthogonal to the response and to each other, transforming subtracts the removed components, and the base PLS trained on the cleaned data makes the predictions; one removed plus one base component predicts like PLS with two.',
     ['inputs', 'configurations'], 'all data sets, base algorithms, component counts, preprocessing', 'Recorded outputs on one data set; orthogonality is not asserted.',
     [PLS + '_OPLS.py'], [('orthogonal components', PLS + '_OPLS.py: do_perform_initialization'), ('cleaning', PLS + '_OPLS.py: do_transform')],
     'property-based testing against a reference and an equivalence with PLS', 'More than one component on new data is held to the recorded finding.')

prop('C30', 'Domain-invariant PLS balances response covariance and domain difference',
     'Weights are those of regularised covariance against the difference of the source and target covariances, for the unsupervised, supervised and semi-supervised variant; loadings, scores, coefficients and predictions follow, unsupervised predictions being centred by the target domain. '
     'Plain training and domains of a single sample are refused with a message.',
     ['inputs', 'configurations'], 'all domain sizes and shifts, lambda, components, variants', 'Recorded outputs on one data set for the variants.',
     [PLS + '_DIPLS.py'], [('weights', PLS + '_DIPLS.py: do_perform_initialization'), ('centring', PLS + '_DIPLS.py: do_perform_predictions')],
     'property-based testing against a reference computation', 'The sample count of the semi-supervised variant is a recorded finding and accepted as such.')

prop('C31', 'Robust PLS weights samples by residual and leverage',
     'Sample weights lie in (0, 1], are the Fair function of residual over median deviation times that of distance from the geometric median over the median distance, and the coefficients are those of SIMPLS on the weighted data; wide data gives what its row space gives. '
     'A single gross error moves the fit far less than without weights, and an infinite tuning constant means no weights.',
     ['inputs', 'configurations'], 'all tall and wide data sets, outliers, tuning constants, components', 'Recorded outputs on one clean, tall data set.',
     [PLS + '_PRM.py'], [('weights', PLS + '_PRM.py: update_residual_weights, update_leverage_weights, geometric_median'), ('fit', PLS + '_PRM.py: do_perform_initialization')],
     'property-based testing against a reference and metamorphic robustness relations', 'The number of iterations is a recorded finding and the reference follows it.')

prop('C32', 'A trained algorithm depends only on its options and last training data',
     'An algorithm is trained exactly from a successful training until the next option change, reset, failed or new training; trained, it is indistinguishable from a new object with the same options trained on the same data, whatever it was used for before. '
     'Untrained, it refuses to predict or transform and shows no matrices of earlier trainings; rejected option values and failed trainings change no option; re-initialising restores defaults.',
     ['histories', 'configurations'], 'all interleavings of training on different data, option changes, rejected values, resets, failed trainings, use and queries, for every supervised algorithm, filter, PCA and ICA',
     'Every test trains a fresh object once.', [PLS + '_AbstractPLS.py', S + 'algorithm/_AbstractAlgorithm.py', S + 'core/_LoggingObject.py', S + 'meta/_JavaObject.py', S + 'algorithm/_CCAFilter.py', S + 'algorithm/glsw/_GLSW.py'],
     [('reset on option change', S + 'core/_LoggingObject.py: __setattr__'), ('training state', PLS + '_AbstractPLS.py: initialize'), ('clearing', PLS + '*.py: reset')],
     'stateful model-based testing: differential against a new object', 'The retained centres of DIPLS are a recorded finding and accepted exactly as recorded.')

prop('C33', 'Rows are treated independently, repeatably and on copies',
     'Applied to any selection of rows in any order, a trained algorithm or filter yields for every row what it yields for that row alone, every time. '
     'Training data, inputs and earlier results are never changed, and changing them later, or training another object, has no influence on a trained algorithm.',
     ['inputs', 'histories'], 'all algorithms and filters, row selections with repetitions, later modifications of any matrix involved', 'Tests apply an algorithm once to a whole matrix.',
     [PLS + '_AbstractPLS.py', S + 'algorithm/_CCAFilter.py', S + 'algorithm/glsw/_GLSW.py'], [('copies on training', PLS + '_AbstractPLS.py: initialize'), ('prediction', PLS + '*.py: do_perform_predictions, do_transform')],
     'metamorphic property-based testing and mutation probes', 'Sparse PLS scores after the first are a recorded finding and accepted as such.')

prop('C34', 'Predictions follow reordering, shifts, units and rotations of the data',
     'Reordering rows, columns or responses, moving the origin or changing the units of predictors or responses, rotating the predictors, repeating every row, or adding a column that does not vary (of predictors or responses) changes the predictions and scores of a newly trained algorithm exactly as its definition implies (usually not at all).',
     ['inputs', 'configurations'], 'all algorithms with the relations their definition and preprocessing imply, all well-posed data sets', 'No test relates two trainings.',
     [PLS + '_AbstractSingleResponsePLS.py', PLS + '_AbstractMultiResponsePLS.py', PLS + '_PLS1.py', PLS + '_SIMPLS.py', PLS + '_NIPALS.py', PLS + '_KernelPLS.py', PLS + '_OPLS.py', PLS + '_DIPLS.py', PLS + '_PRM.py', PLS + '_SparsePLS.py', PLS + '_VCPLS.py'],
     [('training and prediction', PLS + '*.py')], 'metamorphic property-based testing', 'Relations per algorithm are listed in vp/props/p10_relations.py: holds.')

prop('C35', 'Options start at defaults, accept exactly their domain, do not interfere',
     'A new object has the documented default options and computes what an object does on which they were set explicitly. '
     'A value inside the documented domain of an option is taken and reported back, a value outside is refused with an error and leaves options, training and results as they were; setting one option changes no other, and results depend on the final values, not on the order they were set in.',
     ['inputs', 'configurations', 'histories'], 'every option of every algorithm, filter, transformation, kernel and approximation function, values on and around the edges of the domains, orders of setting, data sets',
     'Tests set single valid options on fresh objects; limits, refusals and defaults are not asserted.',
     [S + 'core/_LoggingObject.py', S + 'meta/_JavaObject.py'] + [PLS + '_%s.py' % n for n in ('AbstractPLS', 'NIPALS', 'CCARegression', 'KernelPLS', 'SIMPLS', 'SparsePLS', 'VCPLS', 'OPLS', 'PRM', 'DIPLS')]
     + [S + 'algorithm/%s.py' % n for n in ('_PCA', '_CCAFilter', 'glsw/_GLSW', 'glsw/_EPO', 'glsw/_YGradientEPO', 'ica/_FastICA')]
     + [S + 'transformation/_%s.py' % n for n in ('FFT', 'Log', 'PowerTransformer', 'QuantileTransformer', 'RobustScaler', 'SavitzkyGolay', 'SavitzkyGolay2')]
     + [S + 'filter/_Equidistance.py', S + 'transformation/kernel/_PolyKernel.py'],
     [('validation', S + 'core/_LoggingObject.py: __setattr__, validate_*'), ('defaults', 'initialize and __init__ of every class')],
     'metamorphic and model-based property-based testing against a table of defaults and domains', 'The table is in vp/props/p11_options.py: SPEC. Two exceptions are part of it: PolyKernel ignores degrees below 1 and CCARegression any deflation mode but its own.')

prop('C36', 'Results depend on the arguments alone, not on what else the process did',
     'Whatever other objects exist, were configured, trained and used before in the same process, in whatever order, everything observable of an object equals what the same calls yield in a process in which nothing else was computed. '
     "Using an object leaves numpy's error handling and print options, the working directory and the state of numpy's global random generator as they were.",
     ['histories', 'configurations'], 'all sequences of two to four objects of any class (algorithms, filters, transformations, kernels, matrix functions) with any options and data, made before or between the uses of the others',
     'Tests construct one object each and never compare with another process.',
     [S + 'core/_LoggingObject.py', S + 'meta/_JavaObject.py', S + 'core/matrix/factory.py', S + 'algorithm/_AbstractAlgorithm.py', PLS + '_AbstractPLS.py', S + 'algorithm/ica/_FastICA.py', S + 'transformation/_SavitzkyGolay.py', S + 'algorithm/glsw/_YGradientGLSW.py'],
     [('per-object state', '__init__ and initialize of every class'), ('class-level state', S + 'algorithm/glsw/_YGradientGLSW.py: SavitzkyGolayFilter'), ('seeding', S + 'core/matrix/factory.py: rand, randn')],
     'differential property-based testing of generated object histories against a clean process', 'The clean process is forked for every object from a server that has only imported the code (vp/clean.py).')
