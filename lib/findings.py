"""The known findings: genuine defects recorded rather than repaired (see known_findings.txt)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = os.path.join(VERIF, 'known_findings.txt')


def load():
    """Lines "finding: property=<id> clause=<clause> what=<text> case=<json>"; "fixed:" lines and comments suppress nothing."""
    res = []
    if os.path.exists(FILE):
        with open(FILE) as f:
            for line in f:
                if line.startswith('finding: '):
                    head, _, case = line[len('finding: '):].partition(' case=')
                    head, _, what = head.partition(' what=')
                    fields = dict(kv.split('=', 1) for kv in head.split())
                    res.append((fields['property'], fields['clause'], json.loads(case), what))
    return res


def known(prop, case, clause):
    for p, c, k, what in load():
        if p == prop and c == clause and k == case:
            return what
    return None


def corpus(prop):
    return [k for p, _, k, _ in load() if p == prop]
