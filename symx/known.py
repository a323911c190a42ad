"""The committed list of known findings."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(prop=None):
    """known_findings.txt: `finding: property=C01 id=K1 harness=c01 func=f args=[..] inputs={..} what=...`"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                if line.startswith('finding: '):
                    d = json.loads(line[len('finding: '):])
                    if prop is None or d['property'] == prop:
                        out[d['id']] = d
    return out
