"""writes /verif/MANIFEST.json; LEVELS: property -> (level, note)"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/veriftools/pyvenv/bin/python'
INT = 'Integers mathematical (int8 range not modelled), termination not proved.'
P = 'proof'
X = 'exploration'
T = 'contract-based deductive verification: contracts on the real functions, obligations generated from their AST by symbolic execution, discharged by z3; failed obligations replayed with concrete cases'
LEVELS = {
    'C01': (P, 'solve, advance, solve_question, from_matrix and all steps below them under contract, start matrix by lemma: every matrix yielded satisfies the identities. ' + INT),
    'C02': (P, 'solve, advance and all steps below them under contract: a graph whose rows put ones first is yielded exactly once; lemma: a lexicographically greatest relabelling puts ones first (that a greatest one exists among finitely many is assumed). ' + INT),
    'C03': (P, 'solve, advance and all steps below them under contract: an arbitrary matrix is yielded at most once. ' + INT),
    'C04': (P, 'solve_question with both its loops, binarize, Question.__eq__, and all steps, for every question and an arbitrary 0/1 vector. ' + INT),
    'C05': (P, 'Question.from_matrix for every partial matrix. ' + INT),
    'C06': (P, 'Every function of srg/gauss_elim.py under contract. ' + INT),
    'C07': (P, 'Every assert, index, unpacking and raise reachable in the functions under contract is an obligation; ownership of what is handed out is part of the contracts. Termination, recursion depth and memory not covered. ' + INT),
    'C08': (P, 'All four steps and fork_enum. ' + INT),
    'C09': (P, 'unique._encode, reduce and expand. ' + INT),
    'C10': (P, 'partition.enum, recursive generator. ' + INT),
    'C11': (P, 'sorter.maximize (queue of AdjMat.sort by invariant) and AdjMat._sort; numpy argsort by contract. ' + INT),
    'C12': (P, 'sorter.sort and the comparison functions. ' + INT),
    'C13': (P, 'utils.complement and the parameters of the complement. ' + INT),
    'C14': (P, 'utils.eig and utils.determinant; floats are treated as reals, perfect-square domain. ' + INT),
    'C15': (P, 'database functions over symbolic names and numbers, Path/JSON files as uninterpreted store. ' + INT),
    'C16': (P, 'solver._seed and srg.vklu. ' + INT),
}


def main():
    checks = [dict(property=p, quick_cmd=f'{PY} check.py {p} --tier quick', thorough_cmd=f'{PY} check.py {p} --tier thorough', technique=T, level=l,
                   level_note=n) for p, (l, n) in sorted(LEVELS.items())]
    json.dump(dict(version=1, setup_cmd=f'{PY} -c "import z3, numpy"', checks=checks, not_applicable=[]),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


main()
