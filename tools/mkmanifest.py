"""Writes /verif/MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]

NOTE = {
    "bandit": "Real algorithms, scripted arms and source; sampled histories "
    "and faults judged by a reference model of the documented behaviour.",
    "conc": "Real code in real threads under a line-granular seeded scheduler; "
    "only preemption at executed source lines of the package is explored.",
    "arm": "Real arms and nuisance parameters, recording wrappers at the seams "
    "arm/parameter and source/arm; seeded batch histories, splits and faults.",
    "data": "Real data classes; seeded or extreme legal random outcomes, "
    "faults at every allocation, read or line.",
    "causal": "Real causal models; recording distributions or models with a "
    "known truth.",
    "pure": "Real functions of units under histories of chunked, repeated, "
    "cut-off and concurrent calls; judged by a first evaluation, closed "
    "formulas or scalar arithmetic.",
    "race": "Real algorithms over real arms on models whose exact variances are "
    "enumerated; seeded faults, interrupts and resumes; answers are judged up "
    "to statistical resolution.",
    "formula": "Real parameters; their scores are compared with models and "
    "influence functions computed from scratch.",
    "twin": "Real components; one session is performed with and without "
    "refused requests under the same random numbers.",
    "law": "Real generators; pooled units are compared with the declared law "
    "by moments within 7.5 standard errors.",
    "paper": "Real experiment builders; the global generator is disturbed "
    "during construction, or distributions replaced by tagged ones.",
}
GROUP = {**{f"C{i:02d}": "bandit" for i in range(1, 12)},
         "C13": "conc", "C14": "conc",
         **{c: "arm" for c in ("C12", "C15", "C16", "C17", "C18", "C19", "C28",
                               "C29", "C30")},
         "C38": "race", "C39": "law", "C40": "formula", "C41": "arm",
         "C42": "twin",
         "C21": "data", "C22": "data", "C25": "data", "C20": "causal",
         **{c: "pure" for c in ("C31", "C32", "C33", "C34", "C35", "C36",
                                "C37")},
         "C23": "causal", "C24": "causal", "C26": "paper", "C27": "paper"}
NA = {
    "N02": "Drawing a finished result is a pure function without concurrency, "
    "time, randomness or faults that the property depends on.",
}
checks = []
for p in props:
  i = p["id"]
  if i in NA:
    continue
  checks.append(dict(
      property=i, quick_cmd=f"./check {i}",
      thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
      evidence_file=f"evidence/{i}.json",
      technique="deterministic simulation with fault injection "
      "(seeded search over schedules, histories and faults)",
      level="exploration",
      level_note=NOTE[GROUP[i]] + " A clean batch is evidence for the runs "
      "explored, not proof; NumPy, SciPy and scikit-learn are trusted."))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks in /repo: the package's seams (arms, generators, "
         "parameters, transformers, distributions), NumPy's global generator "
         "and sys.monitoring line events suffice. ./replay FILE repeats a "
         "reported run.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
  json.dump(m, f, indent=1)
  f.write("\n")
import jsonschema  # pylint: disable=g-import-not-at-top
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/EVIDENCE.schema.json"))
for c in checks:
  path = os.path.join(V, c["evidence_file"])
  if os.path.exists(path):
    jsonschema.validate(json.load(open(path)), s)
print(len(checks), "checks")
