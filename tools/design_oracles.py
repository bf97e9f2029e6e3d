ORACLE = {
    "C01": "the published definition of each procedure written directly over the sorted vector (running extrema, harmonic factor), compared with the code's result for every ordering and tie pattern the solver finds feasible; plus range and non-mutation.",
    "C02": "`rejected[i] == (adjusted[i] < threshold)` with a symbolic threshold, adjusted values of `test` and of `adjust` equal, ValueError exactly if a symbolic p-value is outside [0,1].",
    "C03": "tail frequencies by counting comparisons, on reference samples of symbolic values.",
    "C04": "the empirical quantile inf{x : F(x) >= level} by counting, on symbolic samples and levels.",
    "C05": "real `GoodnessOfFitTest.test`, decision methods, alternatives, calculators and areas with a stand-in statistic and stand-in reference source; the decision must equal `p <= level` (resp. beyond the quantile), be monotone in the level, and the reference source must be asked for this statistic and sample size.",
    "C06": "the i-th entry is the statistic of the i-th sample of the requested size drawn from the statistic's law; every simulated sample is fresh and used exactly once; stored samples are returned as stored.",
    "C07": "every draw made for a statistic's simulation is recorded as a library law at a symbolic quantile level; the same level put through the law the statistic's own parameters state must give the same value.",
    "C13": "arrays handed to the statistic are compared element by element (as symbolic terms) before and after; three evaluations on one object (sample, other sample, sample) and one on a fresh object must be equal terms.",
    "C16": "graph invariants by brute force over the subsets / pairs of the sample with the adjacency |x-y| <= threshold as symbolic conditions.",
    "C17": "each statistic written from its publication over the ordered symbolic sample (normal quantiles and distribution functions are shared uninterpreted terms with axioms).",
    "C18": "as C17, for exponentiality.", "C19": "as C17, for uniformity (symbolic interval ends).", "C20": "as C17, for gamma (symbolic shape and rate).",
    "C21": "as C17, for Weibull; the maximum-likelihood steps are checked through the equation they must solve.",
    "C22": "as C17, for beta (symbolic shapes).", "C23": "the lognormal statistic must equal the real normality statistic of the standardised logarithms (two runs of real code) or its definition.",
    "C24": "as C17, for Student (symbolic degrees of freedom, location, scale).",
    "C25": "histories of insertions and deletions against a list of records in the harness; the SQLAlchemy statement objects the code builds are interpreted over symbolic rows (`props/sqlsim.py`), replays use SQLite in memory.",
    "C26": "the record chosen must be among those within the tolerance and have the largest count; none only if there is none.",
    "C28": "the real loader between two symbolic storages; the contents of both are compared before and after.",
    "C30": "generators call the library with parameters; the drawn value must be the documented law's quantile at the same symbolic level, written out from the law's documented density/cdf.",
    "C31": "a choice's weight as given to the random source is compared with the component the observation then uses; choices of different observations must be different draws.",
    "C34": "validators on a symbolic real: accepted exactly in the documented range; descriptor names and defaults build the matching generator, which reports them.",
    "C36": "the returned family is one of the score stand-ins, its score is positive, no other score exceeds it (19 comparisons per path); ValueError iff no score is positive.",
    "C35": "closed-form maximum likelihood written out; for fitted families the arguments of the fit and the use of its (arbitrary) result are checked; for root finders the equation at the returned root.",
    "C38": "two symbolic statistic values, one worse than the other, through the real alternative, calculators and decision methods.",
    "C37": "constructors and `execute_statistic` of the real classes on symbolic parameters and samples: ValueError exactly outside the family (parameters), always outside the support (samples).",
}
COST = {k: v for k, v in zip(
    "C01 C02 C03 C04 C05 C06 C07 C13 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C28 C30 C31 C34 C35 C36 C37 C38".split(),
    "85 s|6 s|2 s|3 s|3 s|3 s|8 s|97 s|180 s|171 s|90 s|145 s|60 s|100 s|60 s|90 s|60 s|30 s|30 s|100 s|3 s|2 s|2 s|6 s|13 s|13 s|7 s".split("|"))}
