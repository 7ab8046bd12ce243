"""/opt/venv/bin/python tools/gen_design.py: DESIGN.md = tools/DESIGN.in.md + generated tables
(contracts per property from the registry, findings from known_findings.json, planted changes from seeded/)."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from vc.worker import load_contracts  # noqa: E402

NOTES = {
    "C01": "Each model is built with symbolic data and nuisance predictions (external predictions or learners replaced by a recording world); fit() runs the real score code; postcondition: stored psi elements equal the documented formula written independently in the contract, per observation.",
    "C02": "fit() with an arbitrary `_nuisance_est` (contract: arbitrary score elements); postcondition: coef solves the (fold-weighted) empirical moment and psi is the score at it. The root finder of nonlinear scores is assumed to return a root.",
    "C03": "The same fit, plus `_var_est` on arbitrary scores and cluster partitions; oracle: the textbook sandwich as double sums over clusters and folds.",
    "C04": "Aggregation on arbitrary all_coef/all_se; oracle: median written with order statistics/axioms for arbitrary R.",
    "C05": "Framework built from arbitrary arrays; confint/pval/tstat/summary compared with the formula; `norm.ppf`/`cdf` uninterpreted.",
    "C06": "Multiplier draws replaced by arbitrary arrays recorded per call; statistics and joint bands compared with the formula, argument laws of the draws checked.",
    "C07": "Step-down adjustment on arbitrary bootstrap statistics for 1-3 parameters, all rankings explored as paths.",
    "C08": "Operators on pairs of arbitrary frameworks; oracle: combined score, own variance formula; operands compared before/after.",
    "C09": "Sensitivity formulas on arbitrary scores and elements; robustness value: objective handed to the (assumed) scalar minimiser is compared pointwise.",
    "C10": "Drawn splittings: scikit-learn's KFold assumed to return a partition; what the resampling classes build from it is compared. Validation: all accepting/refusing cases of the checker.",
    "C11": "Learners and cross_val_predict replaced by recording specifications; the log of every fit/predict is compared with the documented training rows, features and targets, for symbolic folds.",
    "C12": "Propensities arbitrary in (0,1); stored/used propensities compared with min/max and with the normalisation identity as sums.",
    "C13": "External predictions arbitrary arrays; models with and without them are compared; refusals enumerated.",
    "C14": "Real pandas tables stay opaque: column arrays are symbolic; roles enumerated (declared roles, switched treatment, reassigned roles).",
    "C15": "Refusals enumerated case by case; each refusal raised before any learner is fitted.",
    "C16": "Histories of fit / draw / set / bootstrap / refit with arbitrary results per fit; postconditions on the whole reported state.",
    "C17": "Benchmark: fits replaced by arbitrary sensitivity elements of long and short model; formula compared, dataset of the short model checked.",
    "C18": "OLS assumed to be the least squares projection (normal equations as axiom); what is passed to it and what is reported compared.",
    "C19": "IRM/APO with arbitrary weights; weighted score, representer and sensitivity elements compared.",
    "C20": "Component models replaced by recorders; compositions, pairs, order and common splitting compared.",
    "C21": "First stage learners recorded, rdrobust assumed (arbitrary answers); adjusted outcome, weights, arguments and aggregation compared.",
    "C22": "DecisionTreeClassifier replaced by a recorder; target, weights, features and refusals compared.",
    "C23": "Wrapped learner replaced by a recorder; dummy learners refuse.",
    "C24": "Stored predictions, targets compared with RMSE / log loss on observations with defined target.",
    "C25": "Parameter dictionaries followed to the recorder learners; searches replaced by recorders.",
}


def main():
    props = [json.loads(l) for l in open(here + "/properties.jsonl")]
    out = []
    for p in props:
        pid = p["id"]
        cs = load_contracts(pid)
        out.append(f"### {pid} {p['title']}\n\n{NOTES.get(pid, '')}\n")
        out.append(f"*For all*: {p['quantifier']['text']}. *Beyond tests*: {p['why_tests_cant']}\n")
        if not cs:
            out.append("Not claimed (not_applicable in MANIFEST.json): no contract written yet.\n")
            continue
        pr = [c.name for c in cs if c.mode != "bounded"]
        bo = [(c.name, c.why_bounded) for c in cs if c.mode == "bounded"]
        out.append(f"Contracts ({len(pr)}): " + ", ".join(f"`{x}`" for x in pr) + "." + "".join(f" Bounded: `{a}` ({b})." for a, b in bo))
        ev = here + f"/tools/status/{pid}.json"
        if os.path.exists(ev):
            s = json.load(open(ev))
            out.append(f"\nLast run (quick): {s['obligations']} obligations, {s['discharged']} discharged, {s['wall']} s; contracts that fall back to bounded: {', '.join(s['bounded']) or 'none'}.")
        out.append("")
    k = json.load(open(here + "/known_findings.json"))
    f = ["Repaired (`fix:` commits in /repo, each with the contract that reports it if it returns):\n"]
    f += [f"* {x['what']} — `{x['contract']}`" for x in k if x["status"] == "fixed"]
    f += ["\nRecorded, not repaired:\n"] + [f"* {x['property']}: {x['what']} — `{x['contract']}`" for x in k if x["status"] != "fixed"]
    s = ["| planted change | property | needs | check's answer |", "|---|---|---|---|"]
    cat = {}
    if os.path.exists(here + "/tools/catch.json"):
        cat = json.load(open(here + "/tools/catch.json"))
    for d in sorted(os.listdir(here + "/seeded")):
        m = json.load(open(f"{here}/seeded/{d}/meta.json"))
        s.append(f"| {d} | {m['property']} | {m['needs']} | {cat.get(d, '?')} |")
    t = open(here + "/tools/DESIGN.in.md").read()
    t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@FINDINGS@@", "\n".join(f)).replace("@@SEEDS@@", "\n".join(s))
    open(here + "/DESIGN.md", "w").write(t)


main()
