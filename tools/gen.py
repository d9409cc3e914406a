"""writes properties.jsonl and MANIFEST.json (claimed = has props/cXX.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, H, V, E = ("src/hmmlearn/base.py", "src/hmmlearn/hmm.py",
              "src/hmmlearn/vhmm.py", "src/hmmlearn/_emissions.py")
X, S, U, UU, K = ("ext/_hmmc.cpp", "src/hmmlearn/stats.py",
                  "src/hmmlearn/utils.py", "src/hmmlearn/_utils.py",
                  "src/hmmlearn/_kl_divergence.py")


def p(id, title, statement, over, text, why, files, mech, observe,
      state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[
                 dict(name=n, where=w) for n, w in mech], observe_at=observe,
                 hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c)
                                 for a, b, c in state]
    return d


PROPS = [
 p("C01", "Scores are the exact log-likelihood of the observations",
   "For every valid model and observation sequence, the score is the log of "
   "the sum over all state paths of the joint probability of path and "
   "observations, including parameters with zero entries (an impossible "
   "sequence scores minus infinity). The log and the scaling implementation "
   "agree wherever the scaling one does not report underflow.",
   ["inputs", "configurations"],
   "all start/transition probabilities, zeros included, all frame "
   "likelihoods, both implementations, all sizes within the bound",
   "tests compare a handful of fixed models to stored numbers; a recursion "
   "that mis-indexes one term can agree on them",
   [X, B], [("forward recursions", X), ("score", B)],
   ["return value of score and score_samples"]),
 p("C02", "State posteriors are exact and normalised",
   "For every valid model and observation sequence of positive probability, "
   "the posterior of state i at time t is the probability mass of the paths "
   "through i at t divided by the mass of all paths; each row sums to one. "
   "Both implementations agree and predict_proba and score_samples return "
   "the same posteriors.",
   ["inputs", "configurations"],
   "all probabilities (zero patterns included), all frame likelihoods, both "
   "implementations",
   "tests check that rows sum to one and a few stored values; an error in "
   "the backward pass keeps rows normalised",
   [X, B, U], [("forward-backward", X), ("normalisation", U)],
   ["score_samples", "predict_proba"]),
 p("C03", "Viterbi decoding returns a most probable path and its log-probability",
   "The path decoded by the Viterbi algorithm has joint probability with the "
   "observations at least that of every other path, and the reported "
   "log-probability is the log of exactly that joint probability. When the "
   "observations are possible the path never uses a zero-probability start, "
   "transition or emission.",
   ["inputs"], "all log-probabilities, zeros and ties included",
   "the maximum is over exponentially many paths and ties or zero "
   "probabilities take separate branches that sampled models do not hit",
   [X, B], [("viterbi lattice and backtracking", X), ("decode", B)],
   ["decode", "predict"]),
 p("C04", "MAP decoding picks each sample's most probable state",
   "Decoding with the map algorithm assigns to each sample a state whose "
   "posterior probability is maximal for that sample, and the reported value "
   "is the sum of these posteriors. The algorithm given to the call "
   "overrides that of the model, and an unknown algorithm is rejected.",
   ["inputs", "configurations"],
   "all models and observations within the bound, every combination of "
   "model and call algorithm",
   "tests use one model where map and viterbi coincide",
   [B], [("map decoder", B)], ["decode", "predict"]),
 p("C05", "Sequences given by lengths are independent",
   "Scoring, decoding, posteriors and the expected counts used in training "
   "treat each sequence delimited by lengths on its own: log-probabilities "
   "add up, posteriors and paths are those of the separate sequences in "
   "order, and no transition across a boundary is ever counted. Lengths "
   "which do not partition the samples into non-empty sequences are "
   "rejected with an error.",
   ["inputs", "configurations"],
   "all splits of the samples into sequences, all parameters and frames",
   "tests use a few equal splits; boundary effects of single-sample "
   "sequences and bad lengths are not covered",
   [B, UU], [("splitting", UU), ("E-step accumulation", B)],
   ["score", "score_samples", "decode", "predict", "predict_proba", "fit"]),
 p("C06", "Gaussian and mixture emission densities are exact",
   "For spherical, diagonal, full and tied covariances the emission "
   "log-density of a Gaussian model equals the multivariate normal "
   "log-density with the state's mean and covariance, for every sample, "
   "state, mean and positive-definite covariance. Mixture emissions equal "
   "the log of the weighted sum of the component densities.",
   ["inputs", "configurations"],
   "all samples, means, weights and positive-definite covariances up to the "
   "bound on dimension, all covariance types",
   "tests compare a few random draws against scipy for some types",
   [S, E, U], [("densities", S), ("mixture likelihood", E)],
   ["score", "score_samples", "log_multivariate_normal_density"]),
 p("C07", "Discrete emission probabilities follow their distribution",
   "Categorical, multinomial and Poisson models score each sample with the "
   "probability mass of the symbol, count vector or counts under the "
   "state's parameters, multinomial totals being those of the sample "
   "itself. Linear and log likelihoods are consistent, and the likelihood "
   "of a categorical batch does not depend on its shape.",
   ["inputs", "configurations"],
   "all parameters (zeros included) and all samples within the bound",
   "tests use a few parameter values and one number of trials",
   [E, B], [("discrete likelihoods", E), ("log/linear bridge", B)],
   ["score", "score_samples"]),
 p("C08", "Start and transition re-estimation is the MAP update",
   "After a training step the start and transition probabilities are the "
   "normalised expected counts plus prior minus one, clipped at zero; "
   "entries that were zero stay exactly zero and rows without any mass "
   "stay all-zero. Both implementations give the same update, for one "
   "or several sequences.",
   ["inputs", "configurations"],
   "all current parameters, frames, priors, splits into sequences",
   "tests check that likelihood increases or compare one fixture",
   [B, X, U], [("expected counts", X), ("M-step", B)],
   ["startprob_ and transmat_ after fit"],
   [("start, trans statistics", "expected counts", B)]),
 p("C09", "Discrete emission re-estimation is the MAP update",
   "After a training step categorical emission probabilities are the "
   "posterior-weighted symbol counts plus prior minus one, clipped at zero "
   "and normalised; multinomial ones the normalised posterior-weighted "
   "counts; Poisson rates the gamma-prior MAP-style ratio of weighted "
   "counts plus shape to state mass plus rate. Every sample of every "
   "sequence contributes with its posterior of that state only.",
   ["inputs", "configurations"],
   "all posteriors, priors and samples within the bound, both "
   "implementations, several sequences",
   "tests only check monotone likelihood and loose recovery of parameters",
   [H, E], [("statistics", E), ("M-step", H)],
   ["emissionprob_, lambdas_ after fit"]),
 p("C10", "Gaussian re-estimation is the MAP update for every covariance type",
   "After a training step means are the prior-weighted posterior averages "
   "of the samples and covariances are the prior-regularised "
   "posterior-weighted scatter around the new means (around the fixed means "
   "when means are not trained), pooled as the covariance type demands: per "
   "state, diagonal, per-state isotropic or shared.",
   ["inputs", "configurations"],
   "all samples, posteriors, means and priors within the bound; every "
   "covariance type; every subset of trained parameters",
   "tests check recovery of parameters within loose tolerances",
   [H, E], [("statistics", E), ("M-step", H)],
   ["means_, covars_ after fit"]),
 p("C11", "Mixture re-estimation is the MAP update for every covariance type",
   "After a training step of a Gaussian-mixture model, weights, means and "
   "covariances of each mixture component are the MAP updates built from "
   "the joint posterior of state and mixture component and the documented "
   "priors (Dirichlet, normal, inverse Wishart or inverse gamma), with the "
   "default priors being uninformative. The scatter in the covariance update "
   "is taken around the means the posteriors were computed with.",
   ["inputs", "configurations"],
   "all samples, posteriors, current parameters, priors; every covariance "
   "type",
   "tests check recovery of parameters within loose tolerances",
   [H, E], [("statistics", E), ("M-step", H)],
   ["weights_, means_, covars_ after fit"]),
 p("C12", "A training iteration never lowers the objective",
   "With flat priors (the defaults; covars_prior=0 for GaussianHMM), one "
   "iteration of fit never decreases the log-likelihood of the training "
   "data, whatever the starting parameters, implementation and covariance "
   "type, and for any division into sequences; for the variational models it "
   "never decreases the lower bound. monitor_.history therefore does not "
   "decrease.",
   ["inputs", "histories"],
   "all starting parameters and data within the bound",
   "tests follow a few runs from good starting points",
   [B, H, E], [("E-step", B), ("M-step", H)],
   ["score before and after fit", "monitor_.history"]),
 p("C13", "Only the requested parameters are initialised and trained",
   "Fitting changes exactly the parameters whose letters are in params; "
   "every other parameter keeps the value it had before training. "
   "Parameters which are already set and whose letter is not in init_params "
   "are the starting point unchanged; unset ones are initialised.",
   ["inputs", "configurations"],
   "every subset of params and init_params, every model class and "
   "covariance type, all parameter values",
   "tests exercise a few subsets with fixed data",
   [B, H, V], [("initialisation guard", B), ("guards of the M-step", H)],
   ["parameters after fit"]),
 p("C14", "Fitted parameters are valid",
   "After training on samples that the model can produce, with every state "
   "occurring and Dirichlet priors of at least one, start, transition, "
   "mixture-weight and emission probabilities are non-negative and "
   "normalised (a transition row is all zero only if the state is never "
   "left), impossible transitions stay impossible, rates are non-negative, "
   "and covariances have their shape, are symmetric, and are positive "
   "definite whenever the scatter of the samples or the prior is. Without "
   "an all-zero transition row the fitted model can be scored and sampled.",
   ["inputs", "histories"],
   "all starting parameters, samples and priors at least one",
   "tests look at a few fits with well separated clusters",
   [B, H, U], [("normalisation", U), ("M-step", H)],
   ["parameters after fit"]),
 p("C15", "Training stops exactly when converged or out of iterations",
   "Training performs at most n_iter iterations and stops after the first "
   "iteration whose objective improved by less than tol over the previous "
   "one; the recorded history holds the objective of each iteration in "
   "order and restarts with each fit. The convergence flag is set exactly "
   "in these cases and a decrease of the objective is logged.",
   ["histories", "inputs"],
   "all sequences of objective values up to the bound, all n_iter and tol",
   "tests try a few histories",
   [B], [("convergence monitor", B), ("fit loop", B)],
   ["monitor_.history", "monitor_.iter", "monitor_.converged"],
   [("history", "objective per iteration", B)]),
 p("C16", "Sampling draws from the model's distribution",
   "For every random draw, the sampled start state, next state and symbol "
   "are the inverse of the cumulative distribution of the start, "
   "transition-row or emission probabilities, so that zero-probability "
   "outcomes are never drawn, also under floating-point rounding. "
   "Continuous, count and mixture samples are drawn with the parameters of "
   "the sampled state, and a given current state is the first state.",
   ["inputs"],
   "all probabilities, all draws of the random generator in [0,1)",
   "tests compare empirical frequencies of one seed within tolerance",
   [B, E], [("inverse CDF", B), ("state sampling", E)], ["sample"]),
 p("C17", "AIC and BIC count the free parameters of each model",
   "The information criteria are minus twice the score plus twice the "
   "number of free parameters, or plus that number times the log of the "
   "number of samples. The count is the dimension of the parameter space "
   "for every model class, covariance type and size.",
   ["inputs", "configurations"],
   "all numbers of components, features and mixtures, every model and "
   "covariance type",
   "tests check one or two sizes per model",
   [B, E], [("criteria", B), ("parameter counts", E)], ["aic", "bic"]),
 p("C18", "Variational updates are the conjugate posteriors",
   "After a variational training step every posterior hyper-parameter is "
   "its prior plus the expected sufficient statistics under the "
   "sub-normalised parameters, for start, transition, symbol, mean, "
   "precision-scale and covariance posteriors of every covariance type. "
   "Point estimates are the posterior means.",
   ["inputs", "configurations"],
   "all priors, posteriors and samples within the bound",
   "tests only check increasing lower bounds and loose recovery",
   [V, B], [("E-step with sub-normalised parameters", B),
            ("M-step", V)], ["*_posterior_ attributes after fit"]),
 p("C19", "Divergences and the variational lower bound are exact",
   "The Kullback-Leibler divergences of Dirichlet, normal, multivariate "
   "normal, gamma and Wishart distributions equal their closed forms and "
   "vanish for equal arguments. The variational objective is the "
   "log-normaliser of the E-step minus the divergence of every posterior "
   "from its prior.",
   ["inputs", "configurations"],
   "all hyper-parameters within the bound, all covariance types",
   "tests compare a few values",
   [K, V, B], [("divergences", K), ("lower bound", V)],
   ["monitor_.history of variational models"]),
 p("C20", "Invalid models and inputs are rejected",
   "fit, score and decode reject, before computing anything, models whose "
   "start, transition, weight or emission probabilities do not sum to one or "
   "have the wrong shape, mixture means and Poisson rates of the wrong "
   "shape, and covariances that are of the wrong shape, not symmetric or "
   "not positive definite (for mixtures: with a negative variance or "
   "eigenvalue), as does the covars_ setter of GaussianHMM; and variational "
   "priors and posteriors of the wrong shape. fit rejects samples of the "
   "wrong type, sign or total count; samples of another number of features "
   "than the model's are rejected. Valid models and samples are never "
   "rejected.",
   ["inputs", "configurations"],
   "all parameter values and shapes within the bound",
   "tests try a few bad values per check",
   [B, H, V, UU, E], [("model checks", B), ("covariance checks", UU)],
   ["ValueError from score, decode, fit, covars_ setter"]),
 p("C21", "Compiled kernels are memory safe and do not write their inputs",
   "For arguments of every shape the compiled kernels either raise an error "
   "or only access memory inside their arguments and results; they never "
   "modify their inputs and every cell of a result is written. Sequences "
   "or models of mismatched size are rejected.",
   ["inputs", "configurations"],
   "all shapes (empty ones included) and all values within the bound",
   "tests use matching shapes; an out-of-bounds read usually goes unnoticed",
   [X], [("shape checks and loops", X)], ["results of the kernels"]),
 p("C22", "Kernels touch Python objects only while holding the GIL",
   "Compiled kernels allocate, release and query Python objects only while "
   "they hold the interpreter lock, re-acquire it before returning or "
   "raising, and while it is released only use raw buffers they own or "
   "borrowed. The lattice recursions run with the lock released.",
   ["schedules", "inputs"], "all paths through each kernel, error paths "
   "included", "tests are single threaded",
   [X], [("scoped release", X)], ["calls made by the kernels"]),
 p("C23", "Log-domain computations survive extreme values",
   "Scores, posteriors and expected counts computed in the log domain "
   "(implementation='log'; forward, backward and mixture computations of all "
   "models) stay finite and correct when emission likelihoods are far below "
   "or above the range of floating-point numbers: no intermediate number "
   "leaves that range. Impossible emissions give zero posteriors, not NaN. "
   "The scaling implementation raises ValueError when a one-step predictive "
   "probability is below its threshold instead of returning a result.",
   ["inputs"], "all finite log-likelihoods and minus infinity",
   "tests use one long sequence of moderate values",
   [X, U, S], [("shifted log-sum-exp", X), ("underflow check", X)],
   ["score", "score_samples"]),
 p("C24", "The covariance attribute round-trips for every type",
   "Setting the covariance of a Gaussian model and reading it back gives "
   "one full matrix per state that represents exactly the given "
   "parameters, for every covariance type, also after training. The model "
   "keeps its own copy: changing the array that was assigned does not "
   "change the model.",
   ["inputs", "histories"], "all covariances within the bound, all types",
   "tests check shapes", [H, V, U, UU],
   [("expansion", U), ("validation", UU)], ["covars_"]),
 p("C25", "The stationary distribution is invariant",
   "For every valid transition matrix with a unique stationary "
   "distribution, the returned vector is non-negative, sums to one and is "
   "unchanged by the transition matrix.",
   ["inputs"], "all stochastic matrices within the bound",
   "tests try a few random matrices", [B], [("eigenvector", B)],
   ["get_stationary_distribution"]),
 p("C26", "Read-only operations leave model and data unchanged",
   "Scoring, decoding, posteriors, sampling and information criteria never "
   "change the model's parameters or the arrays passed in, and repeating a "
   "call gives the same result. Training never modifies the data or the "
   "hyper-parameter arrays given by the user.",
   ["histories", "inputs"],
   "all parameter values, every model class, sequences of operations",
   "tests do not compare state before and after",
   [B, H, V, E], [("pure functions of parameters", B)],
   ["parameters and arguments after each call"]),
 p("C27", "Initialisation yields a valid starting point from the data",
   "Initialisation before training draws start and transition rows (and "
   "symbol distributions) that are valid distributions, takes means from "
   "the clustering of the training samples, covariances from the sample "
   "covariance plus the floor, and rates matching the data (samples that "
   "are all alike give their own rate), all from the model's own random "
   "state only. The result passes the model's own checks. (At least as many "
   "distinct samples as states.)",
   ["inputs", "configurations"],
   "all samples, all results of the random generator and of clustering "
   "within their contract, every model and covariance type",
   "tests fix a seed",
   [B, H, V], [("initialisation", H)], ["parameters before training"]),
]

exec(open(os.path.join(ROOT, "tools", "claims.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d in PROPS:
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d in PROPS:
        i = d["id"]
        assert len(d["title"]) <= 80, d["title"]
        if os.path.exists(os.path.join(ROOT, "props", i.lower() + ".py")) \
                and i not in NOT_APPLICABLE:
            checks.append(dict(
                property=i, quick_cmd=f"./run.py {i}",
                thorough_cmd=f"./run.py {i} --thorough",
                technique=TECHNIQUE.get(i, TECHNIQUE["*"]),
                level="model_checking",
                level_note=NOTE["*"] + " " + NOTE.get(i, "")))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(
                i, "no check built yet")))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
             not_applicable=na, notes=NOTES)
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed", [x["property"] for x in na], "not")


main()
