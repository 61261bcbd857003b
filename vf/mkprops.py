import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw)))
A="src/frds/algorithms/"; M="src/frds/measures/"
G=A+"_garch.py"; MG=A+"_mgarch.py"
p("V01","GARCH and GJR conditional variances follow the documented recursion",
 "For any parameters, residual series, starting value and variance bounds, the conditional variance series equals the documented recursion: the first value is omega plus the persistence times the starting value, each later value is built from the previous squared residual (with the extra leverage term only after a negative residual) and the previous variance, then raised to that day's lower bound or log-compressed above its upper bound. The bounds are the smoothed variance of the residuals, kept within the global limits, divided and multiplied by one million; the starting value is the exponentially weighted average (decay 0.94) of the first up to 75 squared residuals. Whenever those bounds are positive, a GJR model with zero leverage gives exactly the GARCH series, and the GJR variance forecast from a given initial variance follows the same recursion without bounds.",
 ["inputs"],"all parameter vectors, residual series (any length from 1), starting values and bounds",
 "The three tests fit one return series and compare parameters to 1%; they never reach the bounds, a positive/negative mix at a chosen place, short series or the forecast.",
 [G,A+"utils/garch.hpp",A+"utils/utils_module.cpp"],
 [("compute_variance / forecast_variance","_garch.py"),("bounds_check, ewma, recursion","utils/garch.hpp"),("backcast, variance_bounds","_garch.py")])
p("V02","Univariate model likelihood is the Gaussian likelihood of the data",
 "At any parameter vector, the objective of a GARCH or GJR model is minus the sum of the Gaussian log densities of the returns, demeaned by the mean parameter (or raw in zero-mean mode), under the conditional variances implied by the remaining parameters and the given starting value and bounds. Shifting returns and mean together leaves it unchanged, and rescaling returns by c together with mean, omega, starting value and bounds changes the log-likelihood by exactly minus T times log c.",
 ["inputs"],"all return series and admissible parameter vectors, both models, with and without a mean",
 "Tests only see the value at one optimum of one series, through a 1% tolerance on parameters.",
 [G],[("loglikelihood_model, loglikelihood","_garch.py")])
p("V03","A fitted univariate model is feasible, self-consistent and beats its starts",
 "Whenever a GARCH or GJR fit reports success, the parameters satisfy the documented bounds (omega at least 1e-6, coefficients in [0,1], persistence at most 1 up to solver tolerance, mean exactly zero in zero-mean mode), and the reported log-likelihood is the likelihood of the data at the reported parameters. The residuals and conditional variances left on the model are those of the reported parameters. The starting point is the point of the documented grid with the highest likelihood, and no batch of ordinary data sets shows more than isolated fits that are worse than a grid point or clearly improvable by a feasible change of parameters.",
 ["inputs"],"return series of any length, scale, skewness and clustering",
 "A fit on one series cannot show feasibility, consistency of the stored state, or optimality on other data.",
 [G],[("fit, preparation, starting_values","_garch.py")])
p("V04","Fitting is idempotent whatever the call history or model sharing",
 "In any sequence of fits of univariate, constant-correlation and dynamic-correlation models over the same return series, including repeated fits and univariate models shared between several multivariate ones, every call returns the parameters it returned the first time, fit always returns the model's parameters, and the results equal those of freshly built models. An already estimated univariate model handed to a multivariate model is reused, not altered.",
 ["histories"],"all orders and repetitions of fit calls over a pool of shared models",
 "Each test builds one model and calls fit once; histories of calls over shared objects are never exercised.",
 [G,MG],[("repeated-estimation guard","_garch.py fit"),("model1/model2 reuse","_mgarch.py")],state=[dict(name="estimation_success, parameters, resids, sigma2",meaning="the fitted state a model keeps between calls",where="_garch.py, _mgarch.py")])
p("M01","Constant-correlation likelihood is the bivariate normal likelihood",
 "For any residuals, conditional variances and correlation strictly between -1 and 1, the constant-correlation log-likelihood equals the sum of log densities of a bivariate normal with those variances and that correlation. At zero correlation it is the sum of the two univariate likelihoods; it is unchanged when the two assets are swapped, or when one asset's residuals and the correlation both change sign. The model objective at a parameter vector is minus that likelihood with each asset's residuals, starting value, bounds and variances computed from its own mean and variance parameters.",
 ["inputs"],"all residual and variance pairs, parameter vectors and correlations",
 "One test compares fitted parameters for one pair of series.",
 [MG],[("GARCHModel_CCC.loglikelihood, loglikelihood_model","_mgarch.py")])
p("M02","A constant-correlation fit is feasible, consistent and beats the two-step fit",
 "Whenever a constant-correlation fit reports success, variance parameters are non-negative with each persistence at most one up to solver tolerance, the correlation lies in [-0.99, 0.99], and the reported log-likelihood is the likelihood of the data at the reported parameters. Up to isolated optimiser failures in a batch of data sets, it is at least the likelihood at the two univariate fits joined with the correlation of their standardised residuals, and swapping the two assets gives the mirrored model with the same likelihood.",
 ["inputs"],"pairs of return series",
 "Feasibility and optimality are claims over all data; the test uses one pair.",
 [MG],[("GARCHModel_CCC.fit","_mgarch.py")])
p("M03","Dynamic correlations follow the documented recursion and stay in [-1, 1]",
 "For any standardised residuals and non-negative a and b with a+b at most 1, the conditional correlations equal the documented recursion started at, and reverting to, the unconditional correlation matrix of the standardised residuals. They always lie in [-1, 1], are constant at the unconditional correlation when a=b=0, are unchanged when the assets are swapped, change sign when one asset's residuals do, and do not depend on the scale of either asset. The first t correlations depend on later observations only through the unconditional correlation.",
 ["inputs"],"all residual and variance series, all a and b with a+b at most 1, GARCH and GJR margins",
 "No stable test touches the dynamic-correlation model at all.",
 [MG,A+"utils/mgarch.hpp"],[("conditional_correlations","_mgarch.py and utils/mgarch.hpp")])
p("M04","Dynamic-correlation likelihood and two-step fit are consistent",
 "The dynamic-correlation log-likelihood at (a, b) is the sum of the two univariate log-likelihoods and the correlation component, that is, the bivariate normal likelihood of the margins' residuals with the conditional correlations limited to [-0.99, 0.99]. A successful fit has a and b in [0,1] with a+b at most 1, reports the margins' own fitted parameters and the likelihood at (a, b), and is no worse than any admissible point of the documented starting grid, from whose best point it starts. Passing arrays, fresh univariate models or fitted ones gives the same result, for GARCH and GJR margins.",
 ["inputs"],"pairs of return series, all (a, b), every way of passing the margins",
 "No stable test fits a dynamic-correlation model.",
 [MG],[("GARCHModel_DCC.loglikelihood_model, starting_values, fit","_mgarch.py"),("GJRGARCHModel_DCC.__init__","_mgarch.py")])
p("N01","The compiled extension and the pure-Python fallback agree",
 "For every input, the package gives the same numbers with and without its compiled extension: smoothed variances, bounds adjustment, GARCH and GJR variances, dynamic correlations, likelihoods, and the long-run expected shortfall simulation including which paths are systemic events. In every batch of data sets, whole estimations agree in likelihood up to isolated optimiser failures.",
 ["inputs","configurations"],"all inputs of the functions that have two implementations",
 "The tests run with one build only, and never compare the two implementations.",
 [A+"utils/garch.hpp",A+"utils/mgarch.hpp",M+"lrmes.hpp",G,MG,M+"_long_run_mes.py"],
 [("native/fallback dispatch","USE_CPP_EXTENSION in _garch.py, _mgarch.py, _long_run_mes.py")])
p("N02","Results depend on values, not on memory layout, dtype or container",
 "Every estimator and measure that accepts arrays gives the same result for the same numbers held in a strided or reversed view, a Fortran-ordered slice, integer (signed or not, of any width) or single-precision storage of exactly representable values, a read-only array, or (where it converts its input) a list or pandas series. This holds with and without the compiled extension.",
 ["inputs","configurations"],"all layouts, storage types and containers of the same values",
 "All tests pass freshly made contiguous float64 arrays.",
 [A+"utils/utils_module.cpp",G,M+"spread.py",M+"price_impact.py",M+"lrmes.hpp"],
 [("array arguments of the extension wrappers","utils/utils_module.cpp"),("np.asarray conversions","spread.py, price_impact.py, _garch.py")])
p("N03","Compiled code is memory-safe on every input",
 "No input given to the public functions makes the compiled extensions read or write outside their arrays, use freed memory or invoke undefined behaviour: series of any length and alignment, parameters and bounds of any number, data frames with any number of numeric and text columns, text of any length including columns whose cells all have full width, missing values, any forest and tree size and any number of threads. Inputs too short or sizes not positive are refused rather than processed, and results are fully initialised.",
 ["inputs"],"all series lengths, frames, text cells, tree and forest sizes",
 "Out-of-bounds reads usually go unnoticed; tests run without sanitizers on two shapes.",
 [A+"isolation_forest/IsolationForest.cpp",A+"isolation_forest/iforest_module.cpp",A+"utils/utils_module.cpp",M+"measures_module.cpp"],
 [("raw pointer access","IsolationForest.cpp, utils_module.cpp, lrmes.hpp")])
p("N04","Repeated calls leave no memory, references, files or threads behind",
 "However often an estimation, measure or dataset access is repeated, with the same inputs, on one object or on fresh ones, and whether it is answered or refused, it leaves nothing behind: the interpreter's memory blocks and the bytes held from the C allocator stop growing once caches are filled, the reference counts of the arguments return to what they were, and no open file and no thread remains. This holds with and without the compiled extensions, including their error paths.",
 ["histories","inputs"],"any number of repetitions of every public operation, on all inputs, refused calls included",
 "Each test calls a function once or twice and never looks at memory.",
 [A+"isolation_forest/iforest_module.cpp",A+"utils/utils_module.cpp",M+"measures_module.cpp",G,MG],
 [("reference counting of arguments, temporaries and results","iforest_module.cpp, utils_module.cpp, measures_module.cpp"),("worker threads","IsolationForest.cpp")])
p("L01","Each long-run MES path follows the documented forecast recursion",
 "For any innovations, fitted parameters and last-day state, a simulated path follows the documented step-by-step forecast: variances from the previous residual with leverage only after negative ones, correlation from the previous standardised residuals reverting to the unconditional correlation, market shock from the market innovation, firm shock from the correlation-weighted mix of both. The path is a systemic event exactly when the compounded market return over the horizon is below the threshold, and then yields the compounded firm return, otherwise zero. The method of the pure-Python fallback and the compiled routine both satisfy this.",
 ["inputs"],"all innovations, horizons, thresholds, parameters and initial states",
 "The only test of this code asserts nothing.",
 [M+"_long_run_mes.py",M+"lrmes.hpp"],[("simulation","_long_run_mes.py and lrmes.hpp")])
p("L02","Long-run MES is the documented Monte Carlo average and is reproducible",
 "The long-run expected shortfall equals minus the average compounded firm return over the simulated systemic events, or zero when there is none, where each path resamples with replacement days of the fitted sample's market residual and market-orthogonal firm residual with a generator seeded only by the given seed. The same data and seed give the same number regardless of the history of calls, of the global random state and of whether the model was already estimated; simple returns are converted to log returns.",
 ["inputs","histories"],"return pairs, horizons, path counts, thresholds, seeds and call histories",
 "The only test of this code asserts nothing.",
 [M+"_long_run_mes.py"],[("estimate","_long_run_mes.py")])
p("S01","SRISK is the documented capital shortfall for one or many firms",
 "For each firm, SRISK equals equity times (k times leverage plus (1-k) times the firm's long-run expected shortfall minus one), where leverage is (debt + equity)/equity and the shortfall is the one obtained from that firm's and the market's returns with the given horizon, paths, threshold and seed. A multi-firm call gives exactly the vector of single-firm results in column order, is linear in scale of debt and equity, and the aggregate is the sum of the positive parts for one firm as for many.",
 ["inputs"],"numbers of firms, balance sheets, capital ratios, simulation settings",
 "The only test calls the function and asserts nothing.",
 [M+"_srisk.py"],[("estimate","_srisk.py")])
p("I01","Isolation-forest scores converge to the exact expected path lengths",
 "The anomaly score of each row is 2 to the minus (average path length over the trees divided by the average path length constant of the tree size), every tree being grown on a fresh sample of at most tree-size distinct rows with a uniformly drawn column and a split at the value of a uniformly drawn row of the node (smaller values left, missing numbers smaller than any and separated from the rest when the split value is itself missing, text ordered by length then bytes), down to single rows or the height limit. Hence scores lie in (0, 1] for tree size at least 3, and on small data with many trees each score equals the exact expectation up to sampling error.",
 ["inputs"],"small frames with ties, missing values and text, tree sizes below and above the number of rows",
 "No stable test touches the isolation forest.",
 [A+"isolation_forest/IsolationForest.cpp"],[("growTree, pathLength, anomalyScore","IsolationForest.cpp")])
p("I02","Isolation-forest scores depend only on the order of values and on equality",
 "Scores are unchanged by any strictly increasing transformation of a numeric column, by excluding columns versus dropping them beforehand, and by the index and output column name, which are passed through in row order. Equal rows get equal scores. Text columns, held as objects or as pandas strings, take part in the splits and boolean or other columns are ignored.",
 ["inputs"],"frames with numeric, text and other columns, any index, transformations of columns",
 "No stable test touches the isolation forest.",
 [A+"isolation_forest/__init__.py",A+"isolation_forest/IsolationForest.cpp"],[("anomaly_scores column selection","isolation_forest/__init__.py"),("growTree/pathLength comparisons","IsolationForest.cpp")])
p("I03","Isolation-forest results do not depend on threads or CPU count",
 "For the same data, sizes and seed, the isolation forest returns the same scores on every run, in whatever process, however often it was called before, and whatever number of CPUs and threads is available.",
 ["schedules","configurations","histories"],"CPU counts, thread schedules and call histories",
 "One run on one machine shows one schedule and one CPU count.",
 [A+"isolation_forest/IsolationForest.cpp"],[("grow (per-tree engine, work split)","IsolationForest.cpp")])
p("R01","Black-Scholes prices satisfy parity, no-arbitrage bounds and the lognormal law",
 "For positive spot, strike, maturity and volatility and any rate and yield, call and put equal the discounted expected payoffs under the lognormal law. They satisfy put-call parity, lie between the discounted intrinsic value and the discounted asset or strike, are monotone in strike, spot and volatility, convex in strike and homogeneous of degree one in spot and strike, and arrays are priced element by element.",
 ["inputs"],"all spots, strikes, rates, yields, maturities and volatilities, scalar or array",
 "Tests compare two known prices.",
 [M+"_option_price.py"],[("blsprice","_option_price.py")])
p("R02","Contingent-claim put value solves the Merton equations",
 "For a firm with given equity, equity volatility, debt, rate and maturity generated by some asset value and asset volatility of normal size in any currency unit (rate of -5 to 15 percent, debt of 1 to 300 percent of assets, volatility of 1 to 250 percent, equity of at least 0.2 percent of assets), the put value returned is the put of that asset value and volatility, and the contribution is the put minus the CDS-implied put computed from the risky debt and the spread. A zero spread leaves the whole put; a higher spread never increases the contribution of debt worth less than its face value; scaling equity and debt scales both results.",
 ["inputs"],"asset values, volatilities, debt, rates, maturities and spreads for which the Merton equations have a regular solution",
 "The test checks one firm.",
 [M+"_contingent_claim_analysis.py"],[("estimate, cca_func","_contingent_claim_analysis.py")])
p("R03","Absorption ratio is the variance share of the top eigenvectors",
 "For any returns matrix of at least two assets and days (more or fewer days than assets) and fraction, the absorption ratio is the sum of the largest eigenvalues of the sample covariance matrix, their number being the fraction of assets rounded half up, over its trace; it is a real number in [0,1], zero for fraction zero, one for fraction one, and non-decreasing in the fraction. It is unchanged by reordering or reversing days, reordering assets, shifting returns of an asset, or scaling all returns, and repeated estimates with any fractions do not influence each other.",
 ["inputs","histories"],"matrices of any shape including fewer days than assets, all fractions, any sequence of estimates",
 "The test checks one matrix and fraction.",
 [M+"_absorption_ratio.py"],[("estimate, cached covariance and eigenvalues","_absorption_ratio.py")])
p("R04","Distress insurance premium matches the documented simulation",
 "For any default probabilities, valid correlation matrix, threshold and sizes, the premium is the documented Monte Carlo expectation: the distribution of joint defaults of correlated normal asset returns combined with summed triangular losses given default, in slots of one hundredth, summed over losses at or above the threshold share of total liabilities. It is reproducible from its seed, independent of and harmless to the global random state, non-negative and finite, zero when no loss reaches the threshold, non-increasing in the threshold, and with independent banks agrees with the exact binomial expectation up to sampling error.",
 ["inputs"],"default probabilities, correlation matrices, thresholds, seeds and simulation sizes, from one bank up",
 "The test compares one value for one input.",
 [M+"_distress_insurance_premium.py"],[("estimate","_distress_insurance_premium.py")])
p("R05","Marginal and systemic expected shortfall are the documented statistics",
 "Marginal expected shortfall is the mean firm return over the days, if any, on which the market return is below its q-percentile; it is equivariant to affine increasing changes of the firm's returns, unaffected by increasing affine changes of the market and by a common reordering of days. Systemic expected shortfall is the fitted firm value from the least-squares regression of (not collinear) training shortfalls on an intercept, expected shortfall and leverage, with the two slopes normalised by their sum; it is independent of firm order in the training sample and invariant to adding a constant to, or scaling, the training shortfalls.",
 ["inputs"],"return pairs, percentiles and training samples",
 "The tests check one simulated sample each.",
 [M+"_marginal_expected_shortfall.py",M+"_systemic_expected_shortfall.py"],[("estimate","both files")])
p("R06","Z-score and Kyle's lambda equal their documented formulas",
 "The Z-score is return on assets plus capital ratio over the population standard deviation of past returns on assets, and is invariant to shifting or reordering the past and scaling everything. Kyle's lambda is one million times the no-intercept least-squares slope of returns on signed dollar volume: it is recovered exactly from noiseless data, makes residuals orthogonal to volume, and scales with returns and inversely with volume.",
 ["inputs"],"all non-degenerate series",
 "No stable test covers either function.",
 [M+"_z_score.py",M+"_kyle_lambda.py"],[("z_score","_z_score.py"),("kyle_lambda","_kyle_lambda.py")])
p("R07","Spreads and price impact follow their definitions and decompose",
 "Quoted spread is the average of the relative (in percent) or log bid-ask difference; effective spread, realized spread and price impact are dollar-volume-weighted averages (plain averages if no volume) of twice the absolute, or direction-signed, difference of their two prices relative to the midpoint in percent or in logs. With trade directions, given as any array-like, effective spread equals realized spread plus price impact. All are unchanged by scaling prices or volumes and by reordering trades.",
 ["inputs"],"all trade tables, percent and log forms, with and without directions",
 "No stable test covers these functions.",
 [M+"spread.py",M+"price_impact.py"],[("quoted/effective/realized_spread","spread.py"),("simple_price_impact","price_impact.py")])
p("R08","Order-book slope measures follow their definitions",
 "Ask and bid slopes average, over quotes, total depth over the distance from the midpoint to the highest-level price; the side slope difference averages the slope between the third and fifth levels minus that between the first and third; the scaled depth difference averages twice the depth difference over total depth and lies in [-2, 2]. Undefined quotes are ignored in the averages; bid and ask are mirror images; results are homogeneous in sizes and prices and independent of quote order.",
 ["inputs"],"all books with any number of quotes and levels, including missing values",
 "No stable test covers these functions.",
 [M+"lob_slope.py"],[("DGGW_*","lob_slope.py")])
p("R09","PIN likelihoods equal the Poisson-mixture likelihood",
 "For any buy and sell counts and interior parameters, each of the two PIN objectives equals, wherever its terms stay within the range of double precision, minus the log-likelihood of the documented three-state Poisson mixture up to a constant that depends on the counts only, so the two differ from each other by a constant and rank parameters identically. The Lin-Ke form stays finite and accurate for counts in the thousands.",
 ["inputs"],"all count series and interior parameters",
 "No stable test covers this class.",
 [M+"_probability_of_informed_trading.py"],[("loglikelihood_EHO2010, loglikelihood_LK2011","_probability_of_informed_trading.py")])
p("R10","PIN estimates are feasible, consistent, best of the grid and history-free",
 "A successful PIN estimate, from order flow with buys and sells, has probabilities in [0,1] and non-negative intensities, a likelihood equal to the objective at the reported parameters and no lower than at any documented starting point with finite objective, and a PIN equal to informed over total order flow, in [0,1]. Each call to estimate depends only on the data and method, not on earlier estimates on the same object, and reports success only for itself; unknown methods are refused.",
 ["inputs","histories"],"count series, both methods, sequences of estimates on one object",
 "No stable test covers this class.",
 [M+"_probability_of_informed_trading.py"],[("estimate, init_params_grid_search, Parameters.calculate_pin","_probability_of_informed_trading.py")])
p("K01","Multi-cohort modified Merton model matches its Matlab reference",
 "For any parameters (with debt maturing before the loans), factor states and shocks, every output of the multi-cohort modified Merton computation equals the published Matlab algorithm it translates. The outputs obey its accounting: bank assets split into debt and equity pathwise and in value, debt never exceeds its face value, default indicators are zero or one exactly when the payout-adjusted equity is not positive, default probability is their mean, and the guarantee is its stated share of the shortfall. Without supplied shocks the result depends only on the seed.",
 ["inputs"],"model parameters, cohort counts, simulation sizes, factor states, shocks",
 "No stable test covers this code; the shipped Matlab files are never compared on other inputs.",
 [M+"modified_merton/mod_merton_computation.py",M+"modified_merton/matlab/ModMertonComputation.m"],[("mod_merton_computation","mod_merton_computation.py")])
p("K02","Single-cohort model and its solver objective match the Matlab reference",
 "For any parameters, factor states and shocks, every output of the single-cohort computation equals the published Matlab algorithm, with the same accounting identities. The solution objective at a factor state and loan size is the difference between the target equity value and volatility and the ones computed there, for a scalar state as in the reference, and leaves the caller's parameter list untouched.",
 ["inputs"],"model parameters, simulation sizes, factor states, shocks, targets",
 "No stable test covers this code.",
 [M+"modified_merton/mod_single_cohort_computation.py",M+"modified_merton/mod_single_cohort_solution.py"],[("mod_single_cohort_computation","mod_single_cohort_computation.py"),("mod_single_cohort_solution","mod_single_cohort_solution.py")])
p("K03","Building blocks of the modified Merton model are correct",
 "The smoother is, for even numbers of observations and window (others are refused), the centred moving average with linear extrapolation at both ends, so it is linear and reproduces constants; the loan payoff is the conditional expectation of the smaller of asset value and face value under lognormal idiosyncratic risk; the promised yield equation vanishes exactly at the yield implied by the risky loan price; the Merton objective vanishes at true asset value and volatility, and penalises negative trial values; every entry of the lookup tables is the direct computation at that grid point.",
 ["inputs"],"all arguments of the building blocks",
 "No stable test covers this code.",
 [M+"modified_merton/fftsmooth.py",M+"modified_merton/loan_payoff.py",M+"modified_merton/find_face_value_indiv.py",M+"modified_merton/merton_solution.py",M+"modified_merton/mod_merton_create_lookup.py",M+"modified_merton/mod_single_merton_create_lookup.py"],
 [("fftsmooth","fftsmooth.py"),("loan_payoff","loan_payoff.py"),("find_face_value_indiv","find_face_value_indiv.py"),("merton_solution","merton_solution.py"),("lookups","mod_merton_create_lookup.py")])
p("K04","The simulation study shows what its building blocks give",
 "For any number of simulated paths the models accept, the simulation study of the modified Merton model prints and draws the values of the published Matlab study at its fixed parameters: true properties (asset value, equity ratio, default probability, credit spread) from the multi-cohort computation at the state without shock and eight states above and below; Merton default probability and spread from the asset value and volatility that solve the equity equations; default probabilities of the single-cohort and single-borrower models interpolated at the true equity value and volatility; and payoffs at debt maturity. It writes exactly its five figures, into the given directory or else the current one, and its results depend only on the number of paths.",
 ["inputs"],"number of simulated paths, output directory, global state before the call",
 "No stable test runs the study.",
 [M+"modified_merton/mod_merton_simulation.py"],
 [("simulate","mod_merton_simulation.py")])
p("X01","No call changes its arguments or global settings",
 "No estimator or measure, nor importing the package, modifies the arrays, frames, lists or fitted models passed to it, or the state of the global random generators, numpy's error handling and print options, the warning filters, the decimal context, pandas' options, the locale, the environment, the module search path or the working directory, and the same call made again gives the same result whatever other calls were made in between.",
 ["histories","inputs"],"all public calls with their inputs, in any interleaving",
 "Tests never look at their inputs after the call or repeat a call after others.",
 [G,MG,M+"_distress_insurance_premium.py",M+"_long_run_mes.py",M+"modified_merton/mod_merton_computation.py",M+"_absorption_ratio.py",A+"isolation_forest/__init__.py"],
 [("private generators (RandomState / default_rng)","_distress_insurance_premium.py, _long_run_mes.py"),("in-place array updates","mod_merton_computation.py, _long_run_mes.py")])
p("X02","Sample datasets are canonical, whatever callers do with them",
 "Every access to the sample stock returns gives a frame equal to the shipped file parsed with its date index, whatever was done to frames obtained before: modifying a returned frame in place never shows in later accesses.",
 ["histories"],"sequences of accesses and in-place modifications",
 "Tests only read the dataset.",
 ["src/frds/datasets/_stocks.py"],[("_StockReturns.stocks_us cache","datasets/_stocks.py")])
p("X03","Inputs of inconsistent shape are refused instead of silently broadcast",
 "Every measure documented to take arrays of matching shape raises an error when their shapes do not match, instead of broadcasting, truncating or recycling them: expected shortfalls, long-run shortfall, SRISK, PIN, spreads, price impact, Kyle's lambda, order-book measures, distress premium, and the two series of a bivariate model. Unknown methods and versions, and percentiles outside [0, 1], are refused as well.",
 ["inputs"],"all combinations of mismatching shapes of each measure's array arguments",
 "Tests only pass matching shapes.",
 [M+"_marginal_expected_shortfall.py",M+"_systemic_expected_shortfall.py",M+"_srisk.py",M+"_probability_of_informed_trading.py",M+"spread.py",M+"price_impact.py",M+"lob_slope.py",M+"_long_run_mes.py"],
 [("shape assertions","each constructor or function")])
p("X04","Computations in parallel threads give what each gives alone",
 "Estimations, measures, simulations and dataset accesses performed at the same time in several threads of one process, each on its own model or measure object and with arguments of its own or shared for reading, give the results each gives alone, whatever the interleaving: nothing a computation uses on the way is shared between objects or calls. None fails, none changes the shared arguments or the global random state, and the threads end. This also holds when they are the first calls of the process, and with and without the compiled extension.",
 ["schedules","inputs"],"all combinations of public calls in any number of threads, under all interleavings",
 "Tests run one call at a time in one thread.",
 [G,MG,M+"_distress_insurance_premium.py",M+"_long_run_mes.py",M+"modified_merton/mod_merton_computation.py","src/frds/datasets/_stocks.py",A+"isolation_forest/IsolationForest.cpp"],
 [("private generators and scratch arrays","all estimators"),("_StockReturns.stocks_us cache","datasets/_stocks.py"),("releasing the interpreter lock","IsolationForest.cpp grow, calculateAnomalyScores")])
p("X05","Models, measures and results can be copied, stored and sent to other processes",
 "A shallow or deep copy of a model or measure object, and one pickled with any protocol and loaded in the same or another process, holds the same data and state and gives, for every later sequence of operations, the results the original gives, whatever was done before; a deep or unpickled one shares nothing with it, so work on or damage to either never shows in the other. Results (parameter records, arrays, frames) come back from pickling equal in type and value, and the public functions and methods can themselves be pickled, as handing them to a pool of processes requires.",
 ["histories","inputs"],"all sequences of operations, copies by any way and transfers, on every class",
 "Tests never copy or pickle anything.",
 [G,MG,M+"_long_run_mes.py",M+"_srisk.py",M+"_absorption_ratio.py",M+"_probability_of_informed_trading.py",M+"_distress_insurance_premium.py","src/frds/datasets/_stocks.py"],
 [("plain attributes and module-level classes","every model and measure class"),("Parameters records","_garch.py, _mgarch.py, _probability_of_informed_trading.py"),("SingletonMeta","datasets/_stocks.py")])
p("X06","A call that fails or is interrupted leaves nothing behind",
 "When an estimation, measure, simulation or dataset access ends with an error, or is broken off at any point of its Python code (a keyboard interrupt, a failed allocation, warnings turned into errors), its arguments and all global settings are as before. The same call made again, on the same object or another, and every other call, gives the result it gives undisturbed: an unfinished fit is never taken for a finished one.",
 ["histories","crash_points","fault_sequences"],"all calls, broken off at every line of the package, and calls with unusable arguments",
 "Tests never interrupt a call or go on after one that failed.",
 [G,MG,M+"_absorption_ratio.py",M+"_srisk.py",M+"_long_run_mes.py",M+"_probability_of_informed_trading.py",M+"_distress_insurance_premium.py",M+"modified_merton/mod_single_cohort_computation.py","src/frds/datasets/_stocks.py"],
 [("estimation_success, set last","_garch.py fit, _mgarch.py fit"),("cached_property","_absorption_ratio.py"),("warnings.catch_warnings","fit and estimate"),("_StockReturns._stocks_us","datasets/_stocks.py")])
p("X07","Results do not depend on the kind of process they are computed in",
 "A call gives the result of a plain interpreter whatever process it is made in: with assertions and docstrings removed (-O, -OO) or in development mode; any hash seed, time zone, locale, allocator, number of threads or environment; from a working directory that holds files of the user's, changed since, or was removed; without a home directory, scratch directory or one of the standard streams; with any decimal context, print options, recursion limit or garbage collection of the caller; and whichever module was imported first.",
 ["configurations"],"all calls on valid arguments, in every process in which numpy, scipy and pandas work themselves",
 "Tests run in one process, started in one way.",
 ["src/frds/__init__.py","src/frds/algorithms/__init__.py","src/frds/measures/__init__.py","src/frds/datasets/_stocks.py",G,MG,M+"_absorption_ratio.py",M+"_probability_of_informed_trading.py",M+"lob_slope.py",M+"spread.py","src/frds/algorithms/isolation_forest/__init__.py"],
 [("path of the data file","datasets/_stocks.py"),("assert, used for checks only","spread.py, lob_slope.py, _srisk.py"),("Decimal.to_integral_value","_absorption_ratio.py"),("try: import of compiled extensions","_garch.py, _mgarch.py")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    n=len([s for s in re.split(r'(?<=[.])\s+(?=[A-Z])',x["statement"]) if s])
    if n>3: print("sentences",x["id"],n)
print(len(P))
