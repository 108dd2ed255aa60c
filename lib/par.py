"""Run independent parts of a check in several processes and merge what they found, in order."""
import multiprocessing, os, traceback
from common import Result, AnalysisBroken
from build import AnalysisBroken as AB
_jobs = []


def _one(i):
    r = Result()
    try: _jobs[i](r)
    except AB as e: return r.__dict__, ('broken', str(e))
    except Exception: return r.__dict__, ('crash', traceback.format_exc())
    return r.__dict__, None


def par(res, jobs, procs=6):
    """jobs: callables taking a Result"""
    global _jobs
    _jobs = jobs; err = None
    with multiprocessing.get_context('fork').Pool(min(procs, len(jobs) or 1)) as pool:
        for d, e in pool.imap(_one, range(len(jobs)), 1):
            for v in d['viol']: res.bad(v['key'], v['where'], v['rule'], v['text'])
            for k, n in d['cov'].items(): res.count(k, n)
            res.assume += [a for a in d['assume'] if a not in res.assume]
            for x in d['samples']: res.sample(x)
            err = err or e
    if err and not res.viol: raise AnalysisBroken('%s in a part of the analysis: %s' % err)
