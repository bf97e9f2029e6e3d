S = "src/pysatl_criterion/"
H = S + "hypothesis_testing/"
REAL = ("Floating point is treated as exact real arithmetic; library functions (scipy, numpy) are modelled by their documented "
        "mathematical meaning and every path witness is replayed on the real package.")
PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, quant, why, files, mech, note, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, note=note + " " + REAL, **k))


P("C01", "Adjusted p-values follow the published correction formulas",
  "For every list of m p-values in [0,1], in any order and with ties, the adjusted p-value of each hypothesis is: Bonferroni min(m*p,1); "
  "Sidak 1-(1-p)^m; Sidak-Holm the same Sidak value; Holm the running minimum, taken from the largest p-value downwards, of the sorted "
  "p(i)*(m-i+1) capped at 1; Benjamini-Yekutieli the running minimum from the largest downwards of p(i)*m*c/i capped at 1 with "
  "c=1+1/2+...+1/m. "
  "Results come back in the caller's order, lie in [0,1], and the caller's list is left unchanged.",
  "every vector of p-values (bounded length), every order, every tie pattern",
  "The tests check a handful of concrete p-value lists; ordering, ties and capping interact over a continuum of vectors.",
  [H + "multiple_testing/fwer.py", H + "multiple_testing/fdr.py"],
  [("Bonferroni/Sidak/Holm/SidakHolm", H + "multiple_testing/fwer.py"), ("BenjaminiYekutieli", H + "multiple_testing/fdr.py")],
  "Bounded proof: m up to 4 in every order and up to 7 in sampled order patterns, all real p-values at once.")

P("C02", "Multiple-testing decisions match adjusted p-values; bad p-values are refused",
  "For each correction, a hypothesis is reported as rejected exactly when its adjusted p-value is below the threshold (0.05 unless given), "
  "the adjusted p-values reported with the decisions are the same ones the adjustment alone returns, and decisions come in the caller's order. "
  "Every list containing a p-value outside [0,1] is refused with ValueError, and every list inside [0,1] is accepted.",
  "every p-value vector of bounded length and every threshold in (0,1)",
  "Tests use a few vectors and one threshold; the decision boundary is a set of measure zero they never hit.",
  [H + "multiple_testing/abstract_multiple_testing.py", H + "multiple_testing/fwer.py", H + "multiple_testing/fdr.py"],
  [("test/validate", H + "multiple_testing/abstract_multiple_testing.py")],
  "Bounded proof for short vectors with symbolic thresholds.")

P("C03", "Empirical p-values are the documented tail frequencies",
  "For every reference sample and every statistic value, the left-tailed p-value is the fraction of reference values <= the statistic, the "
  "right-tailed one is the fraction > the statistic, and the two-sided one is twice the smaller of the two; all lie in [0,1]. "
  "The order of the reference sample and ties do not matter beyond those counts, and the reference sample is not modified.",
  "every real reference sample of bounded size (any order, ties) and every statistic value",
  "Tests use [1,2,3,4]-like samples; ties and out-of-range statistics form continuous families.",
  [H + "p_value/calculator/p_value_calculator.py"],
  [("p-value calculators", H + "p_value/calculator/p_value_calculator.py")],
  "Bounded proof for reference samples up to size 8.")

P("C04", "Empirical critical values are quantiles of the whole reference sample",
  "For every reference sample and significance level a in [0,1], the left-tailed critical value is the linearly interpolated a-quantile of the "
  "reference sample counted with multiplicity (position a*(n-1) in sorted order), the right-tailed one the (1-a)-quantile, and the two-sided pair "
  "the a/2 and 1-a/2 quantiles.",
  "every real reference sample of bounded size (any order, ties) and every significance level",
  "Tests use tie-free four-element samples at one or two levels; ties exposed a genuine defect (repaired).",
  [H + "critical_values/calculator/critical_value_calculator.py"],
  [("critical value calculators", H + "critical_values/calculator/critical_value_calculator.py")],
  "Bounded proof for reference samples up to size 7.")

P("C05", "A goodness-of-fit test's decision agrees with its p-value or critical value",
  "A goodness-of-fit test evaluates the statistic on the sample, asks for the reference sample of that statistic and sample size, and reports "
  "the statistic, the level, and either the tail p-value (rejecting exactly when p <= level) or the critical value(s) (rejecting exactly when "
  "the statistic is below the left-tail value, above the right-tail value, or outside the closed two-sided interval). "
  "A missing reference sample raises ValueError, and rejection at one level implies rejection at every higher level.",
  "every reference sample of bounded size, every statistic value, every level, each alternative and decision method",
  "Tests check a few decisions; boundary equality and monotonicity in the level quantify over a continuum.",
  [H + "goodness_of_fit_test/goodness_of_fit_test.py", H + "critical_values/critical_area/critical_areas.py",
   H + "alternative_factory/alternative_factories.py"],
  [("decision methods", H + "goodness_of_fit_test/goodness_of_fit_test.py"),
   ("critical areas", H + "critical_values/critical_area/critical_areas.py"),
   ("factory", H + "alternative_factory/alternative_factories.py")],
  "Bounded proof for reference samples up to size 4 (5 thorough); reference source and statistic are stand-ins.")

P("C06", "A simulated reference sample has the requested count of fresh statistics",
  "Simulating a reference sample with count N for sample size n draws N fresh samples of exactly n values and returns the list of the N statistic "
  "values in order; a repeated request simulates anew, and a non-positive N or n is refused with ValueError. "
  "Reading a reference sample from storage asks for the statistic's code, its hypothesis parameters and the sample size, and returns the stored "
  "values unchanged and in order, or nothing when none is stored.",
  "every sequence of simulated values, every non-positive integer argument, every stored sample of bounded size",
  "Tests never observe which draws reach the statistic; off-by-one counts or reused samples are statistically invisible.",
  [H + "limit_distribution/base.py", S + "utils/generator.py", S + "generator/generators.py"],
  [("Monte Carlo and storage resolvers", H + "limit_distribution/base.py")],
  "Bounded proof for counts up to 6 (12 thorough) with all draws symbolic.", over=["inputs", "histories"])

ST = S + "statistics/goodness_of_fit/"

P("C18", "Exponentiality statistics equal their published definitions",
  "For every sample of positive observations, in any order, given as a list or an array, each exponentiality statistic (Kolmogorov-Smirnov with its "
  "three alternatives and Cramer-von Mises for the given rate, Epps-Pulley, Ahsanullah, "
  "Atkinson, Cox-Oakes, Deshpande, Epstein, Frozini, Gini, Gnedenko, Harris, Hegazy-Green 1 and 2, Hollander-Proschan, Kimber-Michael, Kochar, "
  "Lorenz, Moran, Pietra, Shapiro-Wilk, Rossberg, We, Wong-Wong) returns exactly the value of its defining formula. "
  "Optional parameters (such as Atkinson's and Lorenz's p, Deshpande's b, the split point r of Gnedenko and Harris) take effect as the formula says.",
  "every sample of bounded size, every order, every parameter value used",
  "Each test pins one sample; a wrong index, tie rule, split point or parameter use can agree on that sample and differ on a region of others.",
  [ST + "exponent.py"], [("statistics", ST + "exponent.py")],
  "Bounded proof: sizes 2-5 with all observations symbolic, up to 16 with one observation symbolic.")

P("C16", "Graph statistics are the invariants of the proximity graph",
  "For every sample, in any order, the graph statistics are the exact invariants of the graph joining two observations closer than a tenth of the sample "
  "range: number of edges, largest degree, average degree, number of connected components, clique number and independence number. "
  "The normality version divides that distance by the sample variance, the exponentiality version by the sample mean, and the gamma version first maps "
  "the sample through the gamma(alpha, rate beta) distribution function. "
  "(Samples of equal values are outside the clique number's claim.)",
  "every sample of bounded size, every order, every adjacency pattern, every gamma shape and rate",
  "The tests check a few fixed graphs; a sliding-window or greedy shortcut can be wrong on one adjacency pattern only, and two were (repaired).",
  [ST + "graph_goodness_of_fit.py", ST + "normal.py", ST + "exponent.py", ST + "gamma.py"],
  [("generic statistics", ST + "graph_goodness_of_fit.py"), ("distance normalisation", ST + "normal.py")],
  "Bounded proof: generic statistics up to size 5 with all observations symbolic, specialised ones up to size 3-4, or 8 with one symbolic.")

P("C17", "Normality statistics equal their published definitions",
  "For every sample of real observations, in any order, given as a list or an array, each covered normality statistic (Kolmogorov-Smirnov with its "
  "three alternatives, Cramer-von Mises, Anderson-Darling, Lilliefors, Shapiro-Wilk, Jarque-Bera, skewness and kurtosis z-scores, DAP, Filliben, "
  "Looney-Gulledge, Ryan-Joiner, Shapiro-Francia, Epps-Pulley, Hosking 1-4, Zhang-Wu Z_C and Z_A, Glen-Leemis-Barr, Doornik-Hansen, robust "
  "Jarque-Bera, Bontemps-Meddahi, Bonett-Seier, Martinez-Iglewicz, Cabana-Cabana, Chen-Shapiro, Coin, Desgagne-Lafaye, Zhang Q and Q*, D'Agostino, SWRG, GMG, "
  "Spiegelhalter) returns exactly the value of its defining formula. "
  "A hypothesised mean, variance, alternative or plotting-position constant takes effect as that formula says.",
  "every sample of bounded size, every order, every hypothesised mean and variance",
  "Each test pins one sample under the default hypothesis; five statistics were wrong or crashed on inputs the tests never use.",
  [ST + "normal.py", ST + "common.py"], [("statistics", ST + "normal.py"), ("shared statistics", ST + "common.py")],
  "Bounded proof: sizes 2-6 with all observations symbolic, up to 51 with one observation symbolic.")

P("C19", "Uniformity statistics equal their published definitions",
  "For every sample inside the hypothesised interval [a,b], in any order, given as a list or an array, and every a < b, each uniformity statistic "
  "(Kolmogorov-Smirnov with its three alternatives, Anderson-Darling, Cramer-von Mises, Lilliefors, power-divergence chi-squared with its bin rules, "
  "Watson, Kuiper, Greenwood, Stein and censored Stein, Sherman, Quesenberry-Miller, Neyman smooth of any order, Zhang's Z_A, Z_C and Z_K, "
  "Bickel-Rosenblatt) returns exactly the value of its defining formula. "
  "A sample with an observation outside [a,b] is refused with ValueError.",
  "every sample of bounded size, every order, every interval [a,b]",
  "Each test pins one sample on [0,1]; interval handling, ties at the ends, bin edges and index errors need other inputs.",
  [ST + "uniform.py", ST + "common.py"], [("statistics", ST + "uniform.py"), ("shared statistics", ST + "common.py")],
  "Bounded proof: sizes 2-5 with all observations and the interval symbolic, up to 33 with one observation symbolic.")

P("C20", "Gamma goodness-of-fit statistics equal their published definitions",
  "For every sample of positive observations, in any order, given as a list or an array, and every shape alpha and rate beta, each gamma "
  "goodness-of-fit statistic (Kolmogorov-Smirnov with its three alternatives, Lilliefors with moment estimates, Anderson-Darling, Cramer-von Mises, "
  "Watson, Kuiper, Greenwood, Moran, Min-Toshiyuki, the Pearson, likelihood-ratio and Cressie-Read statistics over equiprobable cells, and the "
  "probability-plot correlation) returns exactly its defining formula applied to the gamma(alpha, rate beta) law.",
  "every sample of bounded size, every order, every shape and rate",
  "Each test pins one sample and parameter pair; a rate/scale mix-up, a wrong cell edge or an index error can agree there and differ elsewhere.",
  [ST + "gamma.py", ST + "common.py"], [("statistics", ST + "gamma.py"), ("shared statistics", ST + "common.py")],
  "Bounded proof: sizes 2-5 with observations, shape and rate symbolic, up to 16 with one observation symbolic.")

P("C21", "Weibull goodness-of-fit statistics equal their published definitions",
  "For every sample of positive observations, in any order, given as a list or an array, each Weibull goodness-of-fit statistic (Kolmogorov-Smirnov "
  "with its three alternatives, Lilliefors, Cramer-von Mises, Watson, Min-Toshiyuki, Liao-Shimokawa, Mahdi-Doostparast, Anderson-Darling with fitted "
  "location and scale, chi-squared on cell frequencies, Shapiro-Brain Sb and SB, Ozturk-Korukoglu, ST1, ST2, Smith-Bain RSB, REJG, stabilised "
  "probability plot, Tiku-Singh, LOS, MSF, Kullback-Leibler, Laplace-transform LT2 and LT3, Cabana-Quiroz) returns exactly the value of its defining "
  "formula. "
  "The shape estimate those statistics use is asked to solve the Weibull likelihood equation, and hypothesised shapes, windows and node counts take effect.",
  "every sample of bounded size, every order, every hypothesised parameter pair",
  "Each test pins one sample, often to 10 percent; a wrong sign in the likelihood equation passed and was found here (repaired).",
  [ST + "weibull.py", ST + "common.py", S + "core/distributions/weibull.py"],
  [("statistics", ST + "weibull.py"), ("shared statistics", ST + "common.py"), ("distribution function", S + "core/distributions/weibull.py")],
  "Bounded proof: sizes 2-5 with all observations symbolic, up to 16 with one observation symbolic; two recorded known findings (RSB, SPP).")

P("C22", "Beta goodness-of-fit statistics equal their published definitions",
  "For every sample in the unit interval, in any order, given as a list or an array, and all shapes alpha and beta, each beta goodness-of-fit "
  "statistic (Kolmogorov-Smirnov with its three alternatives, Lilliefors, Anderson-Darling, Cramer-von Mises, chi-squared with its power parameter, "
  "Watson, Kuiper, moment-based, skewness-kurtosis, mean-ratio, entropy with its window, and mode given the density estimate) returns exactly its "
  "defining formula for the beta(alpha, beta) law. "
  "Samples with a value outside [0,1] and shapes that are not positive (not above 1 for the mode) are refused with ValueError, and the hypothesis reports "
  "the shapes in force.",
  "every sample of bounded size, every order, every pair of shapes",
  "Each test pins one sample and shape pair; swapped shapes, a wrong moment or an off-by-one window agree on symmetric examples.",
  [ST + "beta.py", ST + "common.py"], [("statistics", ST + "beta.py"), ("shared statistics", ST + "common.py")],
  "Bounded proof: sizes 2-5 with observations and shapes symbolic, up to 16 with one observation symbolic.")

P("C23", "Lognormal goodness-of-fit statistics act on standardised logarithms",
  "For every normality statistic except Kolmogorov-Smirnov, Cramer-von Mises, Brys-Hubert-Struyf and the graph ones there is a lognormal class, and for every sample of "
  "positive observations, every shape s and every scale it returns exactly the normality statistic of (ln x - ln scale)/s; any observation at or below "
  "zero makes it infinite. "
  "The lognormal Kolmogorov-Smirnov (three alternatives), Cramer-von Mises and Quesenberry-Miller statistics return their defining formula for the "
  "lognormal(s, scale) law. "
  "A shape or scale that is not positive is refused with ValueError, and the hypothesis reports the shape and scale in force.",
  "every sample of bounded size, every order, every shape and scale",
  "The tests pin a few samples, mostly with s = scale = 1, where a missing or misplaced standardisation cannot show.",
  [ST + "log_normal.py", ST + "normal.py", ST + "common.py"], [("statistics", ST + "log_normal.py"), ("normality statistics they call", ST + "normal.py")],
  "Bounded proof: sizes 2-5 with observations, shape and scale symbolic, up to 16 with one observation symbolic. The Kullback-Leibler supremum and integral statistics are outside the claim.")

P("C24", "Student goodness-of-fit statistics equal their published definitions",
  "For every real sample, in any order, given as a list or an array, and all degrees of freedom, location and scale, each Student statistic "
  "(Kolmogorov-Smirnov with its three alternatives, Anderson-Darling, Cramer-von Mises, Kuiper, Watson, Zhang's Z_C and Z_A, Lilliefors, chi-squared over "
  "equiprobable cells) returns exactly its defining formula for that Student law. "
  "Z_A and Z_C replace distribution-function values beyond 1e-10 of 0 or 1 by that bound, so extreme observations keep them finite. "
  "Degrees of freedom or scale that are not positive are refused with ValueError.",
  "every sample of bounded size, every order, all parameters",
  "Each test pins one sample with a default location and scale; a Z_C score error passed and was found here (repaired).",
  [ST + "student.py", ST + "common.py"], [("statistics", ST + "student.py"), ("shared statistics", ST + "common.py")],
  "Bounded proof: sizes 2-5 with observations and parameters symbolic, up to 16 with one observation symbolic.")

P("C07", "Simulated reference samples follow the law the statistic hypothesises",
  "For every goodness-of-fit statistic and every value of its hypothesised parameters, the samples a Monte Carlo reference simulation feeds to it are "
  "independent draws from exactly the hypothesised law: normal with the given mean and variance, exponential with the given rate, Weibull (exponentiated, "
  "shapes a and k), uniform on [a,b], Student with the given degrees of freedom, location and scale, gamma with the given shape and rate, beta with the "
  "given shapes, lognormal with the given shape and scale. "
  "The same holds for the default parameters.",
  "every concrete statistic class, every hypothesised parameter value, every outcome of the random draws",
  "Simulated draws are random, so a test cannot see that a parameter was dropped or renamed on the way; four families were simulated under the wrong law (repaired).",
  [H + "limit_distribution/base.py", S + "utils/generator.py", S + "generator/generators.py", S + "statistics/goodness_of_fit"],
  [("Monte Carlo resolver", H + "limit_distribution/base.py"), ("generator lookup", S + "utils/generator.py"), ("hypothesis()", S + "statistics/goodness_of_fit")],
  "Bounded proof: simulation count 2, sample size 2 (3 and 4 thorough), all parameters and draws symbolic.")

P("C30", "Generators draw from the documented law",
  "For every generator and every admissible value of its parameters, a sample of the requested size consists of independent draws from the documented law: "
  "beta(a,b), Cauchy(t,s), Laplace(t,s), logistic(t,s), Student(df), Tukey lambda, lognormal with log-mean mu and log-deviation s, gamma with shape and "
  "rate, normal(mean,var) truncated to [a,b], chi-squared, Gumbel(mu,beta), exponentiated Weibull(a,k), exponential with rate lam, inverse Gaussian with "
  "mean mu and shape lam, Rice with distance nu and scale sigma, Gompertz(eta, scale b), normal(mean,var), uniform on [a,b]. "
  "Looking a generator up by distribution with named parameters yields that generator with those parameters, which parameters() reports.",
  "every parameter value, every outcome of the random draws",
  "The tests only compare metadata; no test looks at a single generated value, and three laws were wrong (repaired).",
  [S + "generator/generators.py", S + "core/distributions", S + "utils/generator.py"],
  [("generate", S + "generator/generators.py"), ("library calls", S + "core/distributions"), ("lookup", S + "utils/generator.py")],
  "Bounded proof: samples of 1-3 values, all parameters and quantile levels symbolic.")

P("C31", "Contaminated-normal generators are mixtures with independent observations",
  "A location-, scale- or mixed-contaminated normal sample of the requested size consists of observations each of which is, independently of the others, "
  "with probability p a draw of the contaminated component (N(a,1), N(0,b^2) and N(a,b^2) respectively) and with probability 1-p a draw of N(0,1). "
  "Every observation has its own component choice and its own normal draw.",
  "every p, location and scale, every outcome of choices and draws",
  "Random output defeats unit tests; swapping the weights or sharing one choice between observations is invisible to them.",
  [S + "generator/generators.py", S + "core/distributions/lo_con_norm.py", S + "core/distributions/scale_con_norm.py", S + "core/distributions/mix_con_norm.py"],
  [("mixture sampling", S + "core/distributions/mix_con_norm.py"), ("generators", S + "generator/generators.py")],
  "Bounded proof: samples of 1-3 values (4 thorough), all parameters, choices and draws symbolic.")

P("C25", "Stored limit distributions are found again exactly, and deleted exactly",
  "After any sequence of single and bulk insertions, a query by criterion code, parameters, sample size and (optionally) simulation count returns a record "
  "matching all of them with exactly the fields it was stored with (its simulated values in order, to single precision) - the largest count, then the latest experiment, when several match - and None only if "
  "none matches. "
  "Inserting a record with the same experiment, code, parameters, size and count replaces the earlier one; deleting by code, parameters, size and count removes "
  "every matching record and no other. "
  "Records passed in are left unchanged.",
  "every history of up to 3 insertions (4 thorough) and a deletion; every key, including every pattern of coinciding keys",
  "Tests store one or two records with distinct keys; two experiments under one key made lookup and deletion fail (repaired).",
  [S + "persistence/sqlalchemy/datastorage.py", S + "persistence/sqlalchemy/models/limit_distribution_orm.py", S + "persistence/sqlalchemy/alchemy_decorator.py"],
  [("value coding", S + "persistence/sqlalchemy/alchemy_decorator.py"), ("statements", S + "persistence/sqlalchemy/datastorage.py"), ("record mapping", S + "persistence/sqlalchemy/models/limit_distribution_orm.py")],
  "Bounded proof: the real SQLAlchemy statements are interpreted over symbolic rows; replays run on SQLite.", over=["inputs", "histories"])

P("C26", "Critical-value data are looked up within the size tolerance",
  "Looking up data for a criterion code, a sample size and a tolerance returns a stored record of that code whose sample size differs by at most the "
  "tolerance, with the largest simulation count among those, and None only if there is no such record; without a tolerance only the exact size counts. "
  "The bulk lookup returns, for each requested code having such records, exactly one of them with the largest simulation count, and no other record.",
  "every set of up to 3 stored records (4 thorough), every requested size and tolerance",
  "Tests use exact sizes; a tolerance was silently ignored by the single lookup (repaired).",
  [S + "persistence/sqlalchemy/datastorage.py"],
  [("get_data_for_cv, get_bulk_data", S + "persistence/sqlalchemy/datastorage.py")],
  "Bounded proof: the real SQLAlchemy statements are interpreted over symbolic rows; replays run on SQLite.")

P("C28", "The critical value loader caches missing data locally, and nothing else",
  "Loading a criterion succeeds exactly if the local or the remote storage holds data within the size tolerance, and afterwards the local storage holds such "
  "data exactly if loading succeeded: data already held locally are kept as they are, otherwise the remote record with the largest simulation count is copied. "
  "Bulk loading does the same for every requested code and reports how many were requested, already cached, newly cached and which were not found. "
  "Nothing else is added to or removed from the local storage, and the remote storage is not changed.",
  "every content of both storages (bounded), every request",
  "Tests use mocks, so they passed although no remote record ever reached a real local storage (repaired).",
  [H + "critical_values/loader/remote_loader.py", S + "persistence/sqlalchemy/datastorage.py"],
  [("load, load_bulk", H + "critical_values/loader/remote_loader.py"), ("storage", S + "persistence/sqlalchemy/datastorage.py")],
  "Bounded proof: up to 2 local and 2 remote records, symbolic; replays run on two SQLite databases.", over=["inputs", "histories"])

P("C34", "Distribution descriptors state the parameters and ranges that apply",
  "For every supported distribution, the descriptor found for it lists that distribution's parameters, and each parameter's validator accepts a value exactly if it "
  "lies in the documented range (positive, non-negative, a probability, or any real). "
  "The documented defaults are accepted, and the listed names with accepted values build the generator of the same distribution, which reports exactly those values.",
  "every real value of every parameter of all 21 distributions",
  "Tests compare the metadata with itself; no test calls a validator at or beyond the ends of its range.",
  [S + "distribution/distributions.py", S + "distribution/validator.py", S + "utils/distribution.py", S + "generator/generators.py"],
  [("validators", S + "distribution/validator.py"), ("descriptors", S + "distribution/distributions.py"), ("generators", S + "generator/generators.py")],
  "Decided for all real values; no size bound is involved.")

P("C35", "Likelihood scores are the family's maximum likelihood",
  "For every sample, each likelihood function returns the likelihood of the whole sample at its family's maximum-likelihood parameters: in closed form for uniform, "
  "normal, lognormal, exponential, Pareto, Laplace, discrete uniform, Bernoulli, binomial, Poisson and geometric; at the root of the shape's likelihood equation in "
  "[0.1, 10] for Weibull, or 0 without one; at the best radius for Wigner; and at the library's fit for gamma, beta, Cauchy, chi-squared, Student, Fisher and Rayleigh, "
  "with location 0 (and unit scale for beta) held fixed where the family has it. "
  "A sample with a value outside the family's support scores 0. "
  "A constant sample scores 0 (uniform, normal, lognormal, gamma, beta, Cauchy, Student, Fisher, Wigner) or infinity (Pareto, Laplace).",
  "every sample of bounded size, every fit result",
  "Tests assert only a lower bound such as >= 0; a wrong Weibull equation, a bounded Wigner search and two crashes passed them (repaired).",
  [S + "estimation/maximum_likelihood/function_for_maximum_likelihood.py"],
  [("likelihood functions", S + "estimation/maximum_likelihood/function_for_maximum_likelihood.py")],
  "Bounded proof: samples of 1-4 symbolic values; discrete samples over small integers.")

P("C36", "The family chosen for a sample is the one under which it is likeliest",
  "For every sample, the family search returns, among the likelihood functions that need nothing but the sample, one whose likelihood of the whole sample no other exceeds, "
  "and the validated search returns it together with that likelihood. "
  "Both raise ValueError exactly when no likelihood is positive. "
  "An empty sample is refused with ValueError and a non-numeric one with TypeError.",
  "every sample of bounded size, every combination of scores",
  "No test imports the module; it could not even be imported, nor could its search have returned anything (repaired).",
  [S + "estimation/maximum_likelihood/maximum_likelihood.py"],
  [("find_max_probability_function, find_result_of_likelihood_function", S + "estimation/maximum_likelihood/maximum_likelihood.py")],
  "Bounded proof over all score values: four symbolic scores at a time, samples of 1-3 symbolic values.")

P("C13", "Evaluating a statistic changes neither the sample nor later results",
  "Evaluating any goodness-of-fit statistic leaves the caller's sample - array or list, sorted or not - exactly as it was. "
  "Evaluating the same statistic object again on the same sample gives the same value, also when another sample was evaluated in between. "
  "So p-values and decisions do not depend on what was evaluated before.",
  "every statistic of every family; every sample of bounded size, in every order, with ties",
  "Tests evaluate a fresh object once on a sorted literal that is thrown away, so in-place sorting and stale coefficients pass.",
  [S + "statistics/goodness_of_fit/", S + "core/"],
  [("statistics", S + "statistics/goodness_of_fit/normal.py"), ("graph statistics", S + "statistics/goodness_of_fit/graph_goodness_of_fit.py")],
  "Bounded proof: samples of 3-5 symbolic values of every ordering; library fits that reach no closed form are arbitrary but deterministic.", over=["inputs", "histories"])

P("C37", "Statistics refuse impossible parameters and samples",
  "Every beta, gamma, uniform, lognormal and Student statistic can be built exactly with the parameters its family allows (positive shapes, scales and degrees of freedom, "
  "a < b, shapes above one for the beta mode statistic), whatever its other options, and hypothesises the parameters it was built with; all others are refused with ValueError. "
  "Every beta and uniform statistic refuses with ValueError a sample, array or list, with a value outside the interval at any position. "
  "Gamma statistics that need observations refuse an empty sample (the probability-plot correlation fewer than two), Moran's exactly those with ties or values <= 0, "
  "and Lilliefors' exactly those without a positive mean and variance.",
  "every real parameter value and every position and value of the offending observation",
  "Tests try one bad value per class at most; a subclass that skips validation or an off-by-one comparison passes.",
  [S + "statistics/goodness_of_fit/"],
  [("constructors", S + "statistics/goodness_of_fit/beta.py"), ("_validate_input", S + "statistics/goodness_of_fit/uniform.py"), ("gamma checks", S + "statistics/goodness_of_fit/gamma.py")],
  "Decided for all real parameters; samples of 1-3 symbolic values.")

P("C38", "A worse fit is never weaker evidence against the hypothesis",
  "Statistics that measure a distance from the hypothesised law (EDF distances such as Kolmogorov-Smirnov in each direction, Lilliefors, Anderson-Darling, Cramer-von "
  "Mises, Watson and Kuiper; chi-squared types; squared moment, L-moment, spacing and plot distances) treat a larger value as at least as strong evidence, and "
  "correlation-type statistics (Shapiro-Wilk, Shapiro-Francia, Filliben, Looney-Gulledge, Ryan-Joiner, REJG) a smaller one. "
  "So with any reference sample and level, a worse value never has a larger p-value and is rejected, by p-value and by critical value, whenever a better one is.",
  "every reference sample of bounded size, every pair of statistic values, every level",
  "Tests never relate a statistic's rejection side to its meaning; 16 statistics rejected the best fits (repaired).",
  [S + "statistics/goodness_of_fit/", H + "p_value/", H + "critical_values/", H + "goodness_of_fit_test/"],
  [("alternatives", S + "statistics/goodness_of_fit/normal.py"), ("decisions", H + "goodness_of_fit_test/goodness_of_fit_test.py")],
  "Bounded proof: the real alternative, calculators, critical areas and decisions, over symbolic reference samples.")
