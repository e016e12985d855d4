"""Loads the resolved-AST dump produced by imap-extract."""
import json
import re


class Prog:
    def __init__(self, path):
        self.fns = {}        # fid -> fn record
        self.records = {}    # full name -> record
        self.globals = {}    # qualified name -> list of decl
        self.decls = None
        for l in open(path, encoding='utf-8', errors='replace'):
            r = json.loads(l)
            k = r['rec']
            if k == 'fn':
                self.fns[r['fid']] = r
            elif k == 'record':
                self.records.setdefault(r['n'], r)
            elif k == 'global':
                self.globals.setdefault(r['qn'], []).append(r)
            elif k == 'decls':
                self.decls = r['fns']
                self.types = r['types']
        self.byqn = {}
        for fid, f in self.fns.items():
            d = self.decls[fid]
            f['decl'] = d
            self.byqn.setdefault(d['qn'], []).append(f)
        self.global_by_id = {}
        for qn, ds in self.globals.items():
            for d in ds:
                self.global_by_id[d['d']['id']] = d
        self._flat = {}

    def ty(self, n):
        return self.types[n] if n else ''

    # functions whose qualified name ends with suffix (component-wise)
    def find(self, suffix):
        out = []
        for qn, fs in self.byqn.items():
            if qn == suffix or qn.endswith('::' + suffix):
                out.extend(fs)
        return sorted(out, key=lambda f: f['fid'])

    def flat(self, rn):
        """flattened layout of a record: dict(fields=[(name, width|None)], view=(name,lo,hi)|None, alias={name:canon})"""
        if rn in self._flat:
            return self._flat[rn]
        r = self.records.get(rn)
        if r is None:
            self._flat[rn] = None
            return None
        fields, view, alias = [], None, {}

        def rec(tn):
            return self.records.get(tn)

        def addrec(rr):
            nonlocal view
            if rr.get('union'):
                sub = None
                plain = []
                for f in rr['fields']:
                    if f.get('anon'):
                        sub = rec(self.ty(f['t']))
                    else:
                        plain.append(f)
                if sub is not None and len(sub['fields']) == 2 and plain:
                    lo, hi = sub['fields'][0], sub['fields'][1]
                    fields.append((lo['n'], lo.get('bf'), lo['t']))
                    fields.append((hi['n'], hi.get('bf'), hi['t']))
                    view = (plain[0]['n'], lo['n'], hi['n'], lo.get('bf'))
                elif sub is None and plain:
                    c = plain[0]
                    fields.append((c['n'], None, c['t']))
                    for p in plain[1:]:
                        alias[p['n']] = c['n']
                else:
                    for f in rr['fields']:
                        if not f.get('anon'):
                            fields.append((f['n'], f.get('bf'), f['t']))
                return
            for f in rr['fields']:
                if f.get('anon'):
                    s = rec(self.ty(f['t']))
                    if s:
                        addrec(s)
                else:
                    fields.append((f['n'], f.get('bf'), f['t']))
        for b in r['bases']:
            fb = self.flat(b)
            if fb:
                fields.extend(fb['fields'])
                alias.update(fb['alias'])
                if fb['view'] and view is None:
                    view = fb['view']
        addrec(r)
        res = dict(fields=fields, view=view, alias=alias, rec=r)
        self._flat[rn] = res
        return res


def walk(n, f):
    """pre-order walk over JSON nodes (dicts with 'k' or 's'); f(node) -> False stops descent"""
    if isinstance(n, dict):
        if ('k' in n or 's' in n) and f(n) is False:
            return
        for k, v in n.items():
            if isinstance(v, (dict, list)) and k != 'decl':
                walk(v, f)
    elif isinstance(n, list):
        for x in n:
            if isinstance(x, (dict, list)):
                walk(x, f)


def strip_targs(s):
    prev = None
    while prev != s:
        prev = s
        s = re.sub(r'<[^<>]*>', '', s)
    return s
