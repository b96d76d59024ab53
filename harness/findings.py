"""Known findings: the file known_findings.txt and how a violation is matched to an entry.

Lines of the file:
  known: property=<id> finding=<name> <what fails>     genuine defect, recorded not repaired
  fixed: property=<id> <commit> <what failed>          genuine defect, repaired; suppresses nothing
"""
import os
import re

FILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.txt')


def _tz_sign(what, detail):
    # exactly: a non-zero numeric offset is applied with the opposite sign
    return what == 'offset applied with the wrong sign'


def _clash(what, detail):
    # exactly: a resource whose path is a directory on the path of a file to be deleted, or the reverse, is not transferred
    if what != 'run breaks S01 (paths clash)' or not detail['seed'].endswith('/clash'):
        return False
    c, obs = detail['case'], detail['observed']
    gone = [{'v': 0, 't': 0}] * len(c['dst'])
    if obs['odd'] or obs['strange']:
        return False
    return obs['out'] == 'fatal' and obs['dst'] == c['dst'] or c['o']['ign'] and obs['dst'] in (c['dst'], gone)


MATCH = {('S01', 'path-clash'): _clash, ('D04', 'tz-sign'): _tz_sign}


def for_property(prop):
    """List of dicts with match function and text."""
    out = []
    if os.path.exists(FILE):
        for line in open(FILE):
            m = re.match(r'known: property=(\w+) finding=(\S+) (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append({'match': MATCH[(prop, m.group(2))], 'text': m.group(2) + ' ' + m.group(3)})
    return out
