"""Writes /verif/properties.jsonl (the texts live here so that they are edited in one place)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, **extra):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(extra)
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))


D = "doubleml/"
prop("C01", "Scores equal the documented orthogonal score of each model",
     "For every data set and every vector of nuisance predictions, the score components a fitted model stores are exactly those of the documented orthogonal score of that model and score variant, evaluated at the stored predictions (after trimming and, if requested, normalisation of the propensities). This holds for the partially linear, partially linear IV, interactive, interactive IV, potential outcome, difference-in-differences, sample selection and quantile-type models.",
     ["inputs", "configurations"], "all data sets of any size, all prediction vectors, every score variant and option of each model",
     "Tests compare with re-implementations on a few simulated samples; an error that vanishes in those samples (a wrong group mean, a swapped arm, a sign on a small group) goes unseen.",
     [D + "plm/plr.py", D + "plm/pliv.py", D + "irm/irm.py", D + "irm/iivm.py", D + "irm/apo.py", D + "irm/ssm.py", D + "irm/cvar.py", D + "irm/pq.py", D + "irm/lpq.py", D + "did/did.py", D + "did/did_cs.py"],
     [("score elements per model", "_score_elements / _nuisance_est of each model class")])
prop("C02", "Estimates solve the empirical moment condition of the score",
     "For every repetition and treatment, the reported estimate is a root of the empirical average of the model's score (for clustered data, of the fold-wise average weighted by the inverse number of clusters per fold). The stored score is the score at that root.",
     ["inputs"], "all score arrays with non-zero average derivative, any number of observations, folds, repetitions and treatments",
     "Tests check the estimate against a second formula on sampled data; a wrong index or weight that cancels there survives.",
     [D + "double_ml.py", D + "double_ml_score_mixins.py"],
     [("linear score", "LinearScoreMixin._est_coef"), ("nonlinear score", "NonLinearScoreMixin._est_coef"), ("fit loop", "DoubleML.fit")])
prop("C03", "Standard errors are the sandwich estimator of the stored score",
     "Every per-repetition standard error is non-negative and its square equals the plug-in sandwich variance of the stored score and its derivative: mean squared score over n times the squared mean derivative for independent data, and the one-way or two-way cluster-robust formula for clustered data.",
     ["inputs"], "all score arrays, any sample size, one-way and two-way cluster structures",
     "Numerical tests use balanced clusters and one sample; unbalanced blocks, swapped cluster dimensions or missing factors agree there.",
     [D + "utils/_estimation.py", D + "double_ml.py"], [("variance estimator", "_var_est"), ("model standard errors", "DoubleML._se_causal_pars")])
prop("C04", "Repetitions are aggregated by the median rule",
     "The reported estimate of each parameter is the median over repetitions, and its squared standard error is the median over repetitions of the squared standard error plus the scaled squared deviation from that median. One repetition is reported unchanged.",
     ["inputs"], "any number of parameters and repetitions, all estimates and standard errors",
     "With few repetitions and similar estimates, mean and median or a missing deviation term are numerically close.",
     [D + "utils/_estimation.py", D + "double_ml.py"], [("aggregation", "_aggregate_coefs_and_ses")])
prop("C05", "Confidence intervals, t statistics and p-values follow from estimate and error",
     "Pointwise confidence limits are the median over repetitions of the estimate minus/plus the standard normal quantile of the requested level times the standard error; t statistics are estimate over standard error and p-values are two-sided normal. Invalid levels are refused and the summary table reports these same numbers.",
     ["inputs"], "all estimates, standard errors, levels, numbers of parameters and repetitions",
     "Tests evaluate a handful of levels on one fitted object.",
     [D + "double_ml_framework.py", D + "double_ml.py"], [("intervals", "DoubleMLFramework.confint"), ("model wrapper", "DoubleML.confint"), ("p-values", "DoubleMLFramework.all_pvals")])
prop("C06", "Multiplier bootstrap and joint bands use the documented statistic",
     "Each bootstrap statistic is the weighted sum of the normalised scores divided by the scaled standard error, with multiplier weights of the documented distribution shared across parameters and drawn anew per repetition. Joint confidence bands use the level quantile of the maximum absolute bootstrap statistic over parameters.",
     ["inputs"], "all scores, all multiplier draws, any number of parameters, repetitions and replications",
     "Tests fix a seed and compare with a copy of the same code; a maximum over the wrong axis or a wrong scale passes when dimensions coincide.",
     [D + "double_ml_framework.py", D + "utils/_estimation.py"], [("bootstrap", "DoubleMLFramework.bootstrap"), ("weights", "_draw_weights"), ("joint band", "DoubleMLFramework.confint")])
prop("C07", "Multiple-testing adjustment is the step-down procedure it documents",
     "Adjusted p-values under the default method follow the Romano-Wolf step-down rule per repetition: maxima over the not yet rejected parameters, monotone in the order of the absolute t statistics, never below the unadjusted bootstrap p-value, and returned in the original parameter order. The reported p-value is the median over repetitions.",
     ["inputs"], "all estimates, errors and bootstrap statistics",
     "Ordering mistakes only show for particular rankings of the t statistics.",
     [D + "double_ml_framework.py"], [("adjustment", "DoubleMLFramework.p_adjust")])
prop("C08", "Combining inference results obeys linear algebra",
     "Sums, differences and scalar multiples of fitted results have the corresponding estimates and scores, standard errors computed from the combined score (cluster-robust for clustered data, scaled by the absolute factor for multiples) and worst-case confounding bias that adds up. Concatenation keeps every parameter's results unchanged and in order; operands are never modified and incompatible operands are refused.",
     ["inputs", "histories"], "all compatible pairs of results, all scalars, any sizes",
     "Tests combine one or two objects with positive factors and independent data.",
     [D + "double_ml_framework.py"], [("operators", "DoubleMLFramework.__add__/__sub__/__mul__"), ("concat", "concat")])
prop("C09", "Sensitivity analysis reports the documented confounding bounds",
     "For each scenario the bounds are the estimate minus/plus |rho|*sqrt(cf_y*cf_d/(1-cf_d)) times the maximal bias, with one-sided confidence limits from the perturbed score; the robustness values minimise the squared distance of the relevant bound to the null hypothesis; the maximal bias and the residual and representer moments are those documented for each model. Scenario parameters outside their ranges are refused, and the sensitivity plot displays the bound belonging to each pair of axis values.",
     ["inputs", "configurations"], "all scores, elements and scenarios, any number of parameters and repetitions",
     "Tests check shapes and a copied formula at default scenarios where cf_y equals cf_d.",
     [D + "double_ml_framework.py", D + "utils/_sensitivity.py", D + "plm/plr.py", D + "irm/irm.py", D + "irm/apo.py", D + "did/did.py", D + "did/did_cs.py"],
     [("bounds", "DoubleMLFramework.sensitivity_analysis"), ("maximal bias", "_compute_sensitivity_bias"), ("model elements", "_sensitivity_element_est")])
prop("C10", "Sample splits are valid cross-fitting partitions",
     "Every drawn sample splitting consists, per repetition, of test sets that partition the observations with each training set disjoint from its test set; for clustered data the folds are the product of cluster partitions and no cluster of a test block occurs in its training set. User-supplied splittings are accepted when they have this form and refused when the test sets do not partition the observations, index sets overlap, repeat or leave the range, or a cluster split is missing or not a partition of the clusters; numbers of folds and repetitions are taken from them.",
     ["inputs"], "all sample sizes, folds, repetitions, cluster structures and user-supplied index lists",
     "Tests try a few malformed splittings and a few sizes.",
     [D + "utils/resampling.py", D + "utils/_checks.py", D + "double_ml.py"], [("drawing", "DoubleMLResampling / DoubleMLClusterResampling"), ("validation", "_check_sample_splitting")])
prop("C11", "Cross-fitting never predicts an observation from a model trained on it",
     "In every repetition and fold, each nuisance prediction used for an observation comes from a fresh copy of the learner fitted only on training observations of that fold (restricted to the documented subgroup), with the documented target and features of the same observations. User-supplied learners are never fitted or modified in place.",
     ["inputs", "configurations"], "all data, all splittings and repetitions, all learners",
     "Leakage leaves all shapes intact and usually improves accuracy, so numeric tests stay green.",
     [D + "utils/_estimation.py", D + "plm/plr.py", D + "plm/pliv.py", D + "irm/irm.py", D + "irm/iivm.py", D + "irm/apo.py", D + "irm/ssm.py", D + "irm/cvar.py", D + "irm/pq.py", D + "irm/lpq.py", D + "did/did.py", D + "did/did_cs.py"],
     [("cross prediction", "_dml_cv_predict"), ("subgroup training sets", "_get_cond_smpls / _get_cond_smpls_2d"), ("per model", "_nuisance_est")])
prop("C12", "Propensities are trimmed and normalised as documented",
     "With trimming, every propensity used in a score lies in [threshold, 1 - threshold] and predictions already inside are unchanged; invalid trimming rules and thresholds are refused. Normalisation rescales propensities so that the inverse-probability weights of treated and untreated observations each average to one.",
     ["inputs"], "all propensity vectors, treatment indicators and thresholds",
     "Test data seldom contain propensities beyond the threshold on both sides.",
     [D + "utils/_propensity_score.py", D + "utils/_checks.py", D + "irm/irm.py"], [("trimming", "_trimm"), ("normalisation", "_normalize_ipw, _propensity_score_adjustment")])
prop("C13", "Supplied nuisance predictions replace exactly the fitted ones",
     "When predictions are supplied for a nuisance function, the model uses that column for that treatment and repetition and fits no learner for it; all other nuisance functions are fitted as without it. Predictions with wrong treatment, learner, type or shape are refused.",
     ["inputs", "configurations"], "all prediction arrays, treatments, repetitions and subsets of nuisance functions",
     "Tests feed back the model's own predictions, which hides mixed-up columns or repetitions.",
     [D + "utils/_estimation.py", D + "utils/_checks.py", D + "double_ml.py"], [("selection", "_set_external_predictions"), ("validation", "_check_external_predictions")])
prop("C14", "The data container assigns every column its declared role",
     "Outcome, treatment, covariates, instruments, time, score and cluster variables returned by the data container are exactly the declared columns in their original row order, including after switching the active treatment and after changing a role; assignments that would give a column two roles are refused. Missing or infinite values are refused where documented, and the binary indicators describe the currently declared outcome and treatments.",
     ["inputs", "histories"], "all data frames and arrays, all role assignments and sequences of role changes",
     "Tests cover a few role combinations in fixed order.",
     [D + "double_ml_data.py"], [("roles", "DoubleMLData"), ("active treatment", "DoubleMLData.set_x_d")])
prop("C15", "Model constructors refuse data and options they cannot handle",
     "Each model class refuses, with an error and before any fitting, data lacking the variables it needs or carrying roles it does not support, non-binary variables where binary ones are required, unsuitable learners and out-of-range options; valid combinations are accepted.",
     ["inputs", "configurations"], "all combinations of data roles, treatment types, learners and options of each model class",
     "Each unit test probes one message; combinations and boundary values are not enumerated.",
     [D + "utils/_checks.py", D + "double_ml.py", D + "irm/irm.py", D + "irm/iivm.py", D + "irm/apo.py", D + "plm/plr.py", D + "plm/pliv.py", D + "irm/ssm.py", D + "did/did.py", D + "did/did_cs.py"],
     [("checks", "utils/_checks.py"), ("per model", "_check_data, __init__")])
prop("C16", "Fitted state always reflects the last fit and splitting",
     "After any sequence of splitting, fitting, bootstrapping and refitting, the estimates, errors, scores, stored predictions, fitted models and inference results belong to the most recent fit, one entry per treatment and repetition; before a fit, and after a new splitting is set or drawn, confidence intervals, bootstrap, p-value adjustment and sensitivity analysis refuse to answer. Stored predictions equal those used in the score.",
     ["histories"], "all sequences of public operations, all numbers of treatments and repetitions",
     "Tests fit once; stale or mixed-up entries need a second operation to show.",
     [D + "double_ml.py"], [("fit", "DoubleML.fit"), ("splitting", "DoubleML.set_sample_splitting")])
prop("C17", "Benchmark statistics compare the full and the reduced model",
     "Benchmarking refits the same model without the chosen covariates, leaving the original untouched, and reports the documented gains: relative change in residual and representer variation clipped to [0, 1], the implied correlation and the change in the estimate.",
     ["inputs"], "all pairs of sensitivity elements and estimates, any number of parameters and repetitions",
     "Tests check ranges on a sample; swapped roles of the two models or a missing clip stay in range.",
     [D + "utils/gain_statistics.py", D + "double_ml.py", D + "irm/apos.py"], [("gains", "gain_statistics"), ("refit", "DoubleML.sensitivity_benchmark")])
prop("C18", "Heterogeneous effects are projections of the orthogonal signal",
     "Conditional and group effects are least-squares projections of the model's orthogonal signal on the given basis; group effects equal group means of the signal, and confidence limits are the projected effect minus/plus the critical value times the standard error implied by the coefficient covariance. Invalid bases and groups are refused.",
     ["inputs"], "all signals, bases and group assignments",
     "Tests compare against a copied formula on one basis.",
     [D + "utils/blp.py", D + "irm/irm.py", D + "irm/apo.py", D + "plm/plr.py"], [("projection", "DoubleMLBLP"), ("entry points", "cate/gate/capo/gapo")])
prop("C19", "Weighted effects use normalised user weights",
     "With user weights the interactive and potential-outcome models estimate the corresponding weighted effect: weights enter the score and the sensitivity elements as documented, effect-on-treated weights are treatment over its mean, and malformed or negative weights are refused.",
     ["inputs"], "all weight vectors and weight dictionaries",
     "Tests use constant or 0/1 weights.",
     [D + "irm/irm.py", D + "irm/apo.py", D + "utils/_checks.py"], [("weights", "_get_weights, _initialize_weights, _check_weights")])
prop("C20", "Multi-level and quantile effects combine the right component models",
     "Quantile treatment effects are, per quantile, treated minus untreated results of component models on one common splitting; potential-outcome collections hold one model per treatment level in the given order, and causal contrasts are level minus reference for every requested pair exactly once. A new splitting, bootstrapping and intervals apply to all component models alike.",
     ["configurations", "histories"], "all lists of quantiles, levels and reference levels",
     "Order and pairing mistakes need unsorted levels or several references.",
     [D + "irm/qte.py", D + "irm/apos.py"], [("quantiles", "DoubleMLQTE"), ("levels", "DoubleMLAPOS")])
prop("C21", "Regression discontinuity estimates use adjusted outcomes and kernel weights",
     "Adjusted outcomes subtract the average of the left and right cross-fitted predictions; the reported estimate, standard error and interval are the median-aggregated local polynomial results; weights are the documented kernels of the centred score over the bandwidth; treatment sides follow the cutoff.",
     ["inputs"], "all scores, cutoffs, bandwidths and predictions",
     "Tests rely on simulated accuracy.",
     [D + "rdd/rdd.py"], [("estimation", "RDFlex")])
prop("C22", "Policy trees weight observations by the orthogonal signal",
     "A policy tree is trained on the sign of the orthogonal signal with its absolute value as sample weight and predicts only the two actions; its inputs are validated.",
     ["inputs"], "all signals and feature sets", "Tests check one tree.",
     [D + "utils/policytree.py"], [("fit", "DoubleMLPolicyTree")])
prop("C23", "Learner wrappers forward data faithfully and refuse dummy fits",
     "Global learner wrappers train a fresh clone of the wrapped learner on the same data while ignoring the sample weights, and predict with that clone; a learner of the wrong kind is refused; dummy learners refuse every fit and prediction.",
     ["inputs"], "all data and wrapped learners", "Tests compare two learners.",
     [D + "utils/global_learner.py", D + "utils/dummy_learners.py"], [("wrappers", "GlobalRegressor/GlobalClassifier"), ("dummies", "DMLDummyRegressor/DMLDummyClassifier")])
prop("C24", "Reported learner losses are computed on held-out targets",
     "The reported loss of every nuisance function is the root mean squared error, or log loss for classifiers, of the stored cross-fitted predictions over the observations for which the target is defined; user metrics receive targets and predictions of the same observations.",
     ["inputs"], "all predictions, targets and missing-target patterns", "Tests check finiteness.",
     [D + "double_ml.py"], [("losses", "DoubleML._calc_nuisance_loss"), ("user metrics", "DoubleML.evaluate_learners")])
prop("C25", "Learner parameters reach exactly the intended learner and fold",
     "Parameters set for a nuisance function, treatment, repetition and fold are the ones its learner is fitted with there and nowhere else; tuning stores the best parameters per treatment (per repetition and fold when tuned on folds), tunes only on training observations and returns one result per treatment and repetition.",
     ["inputs", "configurations"], "all parameter sets, folds, repetitions and treatments",
     "Identical parameters in tests hide aliasing and mixed-up folds.",
     [D + "double_ml.py", D + "utils/_estimation.py"], [("set", "DoubleML.set_ml_nuisance_params"), ("tune", "DoubleML.tune"), ("use", "_dml_cv_predict")])

if __name__ == "__main__":
    import os

    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
