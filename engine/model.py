"""The dumped program (library + shims): bodies, types, ADTs, impl lookup, loop heads."""
import json


class Program:
    def __init__(self, paths):
        self.types = []
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.raw = {}
        for p in paths:
            self._load(p)
        self._index()

    def _load(self, path):
        d = json.load(open(path))
        self.raw[d['crate']] = d
        off = len(self.types)

        def tshift(t):
            t = dict(t)
            for k in ('a', 'e', 'u'):
                if isinstance(t.get(k), int):
                    t[k] = t[k] + off
                elif isinstance(t.get(k), list):
                    t[k] = [x + off for x in t[k]]
            return t
        self.types.extend(tshift(t) for t in d['types'])
        self._off = off
        for k, b in d['bodies'].items():
            self.bodies[k] = self._body(b, k, d['crate'])
        for k, a in d['adts'].items():
            if k not in self.adts or a['local']:
                a['off'] = off
                self.adts[k] = a
        for im in d['impls']:
            im = dict(im)
            im['self'] += off
            im['crate'] = d['crate']
            im['preds'] = [(t + off, k) for t, k in im.get('preds') or []]
            im['trait_args'] = [x + off for x in im.get('trait_args') or []]
            self.impls.append(im)
        for t in d['traits']:
            self.traits[t['d']] = t

    def _body(self, b, key, crate):
        off = self._off
        b = dict(b)
        b['key'] = key
        b['crate'] = crate
        b['off'] = off
        b['locals'] = [x + off for x in b['locals']]
        b['promoted'] = [self._body(p, key + '#p%d' % i, crate) for i, p in enumerate(b.get('promoted') or [])]
        if b.get('impl_self') is not None:
            b['impl_self'] += off
        gens = b.get('generics') or []
        b['tgen'] = [g for g in gens if not g.startswith("'")]
        heads, back = loop_heads(b['blocks'])
        b['heads'] = heads
        b['back'] = back
        return b

    def _index(self):
        self.impl_ix = {}
        for im in self.impls:
            if not im.get('trait'):
                continue
            for name, key in im['methods'].items():
                t = self.types[im['self']]
                self.impl_ix.setdefault((im['trait'], name), []).append((t, key, im))
        self.trait_default = {}
        for d, t in self.traits.items():
            for name, (key, has, _m) in t['methods'].items():
                if has:
                    self.trait_default[(d, name)] = key

    def find_impl(self, trait, name, adtkey):
        """body keys of `trait::name` for self types with this ADT"""
        out = []
        for t, key, im in self.impl_ix.get((trait, name), []):
            if t['k'] == 'adt' and t['d'] == adtkey:
                out.append(key)
        return out

    def has_impl(self, trait, adtkey):
        for im in self.impls:
            if im.get('trait') == trait:
                t = self.types[im['self']]
                if t['k'] == 'adt' and t['d'] == adtkey:
                    return True
        return False


def succs(term):
    k = term[0]
    if k == 'goto':
        return [term[1]]
    if k == 'switch':
        return [b for _, b in term[2]] + ([term[3]] if term[3] is not None else [])
    if k == 'drop':
        return [term[2]]
    if k == 'call':
        return [term[4]] if term[4] is not None else []
    if k == 'assert':
        return [term[4]]
    return []


def loop_heads(blocks):
    heads, back = set(), set()
    color = {}
    stack = [(0, iter(succs(blocks[0]['t'])))]
    color[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            c = color.get(s, 0)
            if c == 0:
                color[s] = 1
                stack.append((s, iter(succs(blocks[s]['t']))))
                break
            elif c == 1:
                heads.add(s)
                back.add((b, s))
        else:
            color[b] = 2
            stack.pop()
    return heads, back
