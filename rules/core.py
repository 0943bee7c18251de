"""Bookkeeping shared by all checks: obligations, verdicts, evidence."""
import json
import os
import re
import time

from engine.program import load, AnalysisError

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    """Collects the obligations of one property.

    ok        the obligation was discharged on the analysed source
    bad       the analysed construct breaks the rule; `key` names the construct (no line numbers)
    undecided the analysis has no verdict (construct outside the rule's recognised idioms)
    """

    def __init__(self, prop, tier, P):
        self.prop, self.tier, self.P = prop, tier, P
        self.oks, self.bads, self.unds = [], [], []
        self.counts = {}
        self.functions = set()
        self.assumptions = []
        self.rules = {}

    def rule(self, rid, text):
        self.rules[rid] = text

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, rid, where, text=''):
        self.oks.append((rid, where, text))

    def bad(self, rid, where, text, key):
        if (rid, key) not in [(b[0], b[3]) for b in self.bads]:
            self.bads.append((rid, where, text, key))

    def und(self, rid, where, text):
        self.unds.append((rid, where, text))

    def check(self, cond, rid, where, text, key):
        """cond: True / False / None (no verdict)"""
        if cond is None:
            self.und(rid, where, text)
        elif cond:
            self.ok(rid, where, text)
        else:
            self.bad(rid, where, text, key)
        return cond

    def saw(self, interp):
        self.functions |= set(interp.analysed)

    def need(self, n, what, minimum=1):
        if n < minimum:
            raise AnalysisError('%s: only %d instance(s) of %s found (at least %d expected): anchor lost' % (self.prop, n, what, minimum))


def short(path):
    i = path.find('/src/')
    if i >= 0:
        return path[i + 1:]
    i = path.find('/icp/')
    return path[i + 1:] if i >= 0 else path


def loc_of(fn):
    return '%s:%s' % (short(fn['file']), fn['l'])


def where(ev):
    return '%s:%s' % (short(ev.file), ev.line)


def units(*pats):
    """decorator: the translation units a property is decided on"""
    def d(f):
        f.only = lambda rel: any(re.search(p, rel) for p in pats)
        return f
    return d


TOOLS = (r'^drivers/tools', r'^src/tools/(Box|Radial)LookUpTable')
