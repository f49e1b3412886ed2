"""Front end for C++ member functions over std::vector: clang's AST of the current source is rewritten, node by node, into the
C subset the executor walks.  `this` and references become pointers, methods become functions with an explicit first argument,
std::vector<T> becomes a record {d: T[], n: size} whose operations ([], size, resize, construction with a size) are the models below,
a range-based for over a vector becomes a loop over its positions.  Anything else is left as it is, and is then undecided."""
import json, re, z3
from .cast import TU, Ty
VEC = re.compile(r'^(?:const )?(?:class )?(?:std::)?vector<([^<>]*)>(?: const)?$')
def vecof(q):
    q = re.sub(r'\s*&+$', '', q.strip()); m = VEC.match(q)
    return m.group(1).strip().split(',')[0] if m else None
def vecname(elt): return 'vec_' + re.sub(r'\W+', '_', elt.replace('std::', ''))
def isref(q): return q.rstrip().endswith('&')
class CxxTU(TU):
    def __init__(self, files, filt, cls, base=()):
        self.cls, self.basefields, self.vecs = cls, list(base), set()
        super().__init__(files, cxx=True, filt=filt)
        self.rewrite()
    def q(self, t):
        q = t.get('desugaredQualType', t['qualType']) if not vecof(t['qualType']) else t['qualType']
        if vecof(t['qualType']) is None and vecof(q) is None and '<' in q: q = t['qualType']
        e = vecof(q)
        if e:
            self.vecs.add(e); r = vecname(e)
            return 'struct ' + r + (' *' if isref(q) else '')
        q = re.sub(r'\bdragontooth::', '', q)
        if isref(q): q = re.sub(r'\s*&+$', '', q) + ' *'
        return q
    def rewrite(self):
        old, self.funcs0 = self.funcs, {}
        self.params = {}
        fs = {}
        for n, d in old.items():
            short = n.split('::')[-1]
            fs[short] = d
            self.params[short] = [isref(p['type']['qualType']) for p in d.get('inner', []) if p.get('kind') == 'ParmVarDecl']
        for f in self.records.get(self.cls, []): self.q({'qualType': f[1]})
        self.records = {k: [(f, self.q({'qualType': q}), u) for f, q, u in v] for k, v in self.records.items()}
        if self.cls in self.records: self.records[self.cls] = self.records[self.cls] + [(f, self.q({'qualType': q}), None) for f, q in self.basefields]
        self.funcs = {}
        for n, d in fs.items(): self.funcs[n] = self.method(n, d)
        for e in sorted(self.vecs): self.records[vecname(e)] = [('d', e + '[]', None), ('n', 'unsigned long', None)]
    def method(self, name, d):
        this = dict(id='this:' + name, kind='ParmVarDecl', name='this', type={'qualType': 'struct %s *' % self.cls})
        self.this = this; self.refs = {}
        inner = [this]
        for c in d.get('inner', []):
            if c.get('kind') == 'ParmVarDecl':
                c = dict(c); q = c['type']['qualType']
                if isref(q): self.refs[c['id']] = self.q(c['type'])
                c['type'] = {'qualType': self.q(c['type'])}; inner.append(c)
            elif c.get('kind') == 'CompoundStmt': inner.append(self.r(c))
        ret = d['type']['qualType'].split('(')[0].strip()
        if '(' in d['type'].get('desugaredQualType', ''): ret = d['type']['desugaredQualType'].split('(')[0].strip()
        return dict(d, kind='FunctionDecl', name=name, inner=inner, type={'qualType': '%s (...)' % ret})
    # ---- building blocks
    def rv(self, n, q): return dict(kind='ImplicitCastExpr', castKind='LValueToRValue', type={'qualType': q}, valueCategory='prvalue', inner=[n], id=n.get('id'))
    def addr(self, n, q): return dict(kind='UnaryOperator', opcode='&', type={'qualType': q + ' *'}, inner=[n], id=n.get('id'), isPostfix=False)
    def deref(self, n, q): return dict(kind='UnaryOperator', opcode='*', type={'qualType': q}, inner=[n], id=n.get('id'), isPostfix=False, valueCategory='lvalue')
    def call(self, name, args, q, n): return dict(kind='CallExpr', id=n.get('id'), type={'qualType': q}, inner=[dict(kind='ImplicitCastExpr', castKind='FunctionToPointerDecay', type={'qualType': 'fn'}, inner=[dict(kind='DeclRefExpr', id=n.get('id'), type={'qualType': 'fn'}, referencedDecl=dict(kind='FunctionDecl', name=name, id='fn:' + name, type={'qualType': 'fn'}))])] + args)
    def thisref(self): return self.rv(dict(kind='DeclRefExpr', id=self.this['id'], type=self.this['type'], valueCategory='lvalue', referencedDecl=dict(id=self.this['id'], kind='ParmVarDecl', name='this', type=self.this['type'])), self.this['type']['qualType'])
    def strip(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and (n.get('kind') == 'ParenExpr' or n.get('castKind') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase')): n = n['inner'][0]
        return n
    def vecaddr(self, n):
        """pointer to the vector an lvalue expression denotes"""
        n = self.strip(n); x = self.r(n); q = self.q(n['type'])
        return self.addr(x, q)
    def r(self, n):
        if not isinstance(n, dict): return n
        k = n.get('kind')
        if k == 'CXXThisExpr': return self.thisref()
        if k in ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'SubstNonTypeTemplateParmExpr'): return self.r(n['inner'][0])
        if k == 'CXXBoolLiteralExpr': return dict(n, kind='IntegerLiteral', value='1' if n['value'] else '0', type={'qualType': 'int'})
        if k == 'CXXDefaultArgExpr': return dict(kind='CXXDefaultArgExpr')
        if k == 'ImplicitCastExpr' and n.get('castKind') == 'LValueToRValue':      # the value of a?x:y, std::min and std::max
            i = self.strip(n['inner'][0]); q = self.q(n['type'])
            if i.get('kind') == 'ConditionalOperator':
                return dict(i, type={'qualType': q}, valueCategory='prvalue', inner=[self.r(i['inner'][0])] + [self.r(dict(n, inner=[x])) for x in i['inner'][1:]])
            if i.get('kind') == 'CallExpr' and len(i['inner']) == 3 and (self.strip2(i['inner'][0]).get('referencedDecl') or {}).get('name') in ('min', 'max'):
                a, b = [self.value(x, n) for x in i['inner'][1:]]
                lt = dict(kind='BinaryOperator', opcode='<', id=n.get('id'), type={'qualType': 'int'}, inner=[a, b] if self.strip2(i['inner'][0])['referencedDecl']['name'] == 'max' else [b, a])
                return dict(kind='ConditionalOperator', id=n.get('id'), type={'qualType': q}, valueCategory='prvalue', inner=[lt, b, a])
        if k == 'ImplicitCastExpr' and n.get('castKind') in ('UncheckedDerivedToBase', 'DerivedToBase'): return self.r(n['inner'][0])
        if k == 'CXXOperatorCallExpr':
            f = self.strip2(n['inner'][0]); nm = (f.get('referencedDecl') or {}).get('name')
            if nm == 'operator[]' and vecof(self.strip(n['inner'][1])['type']['qualType']):
                e = vecof(self.strip(n['inner'][1])['type']['qualType'])
                return self.deref(self.call('__vec_at', [self.vecaddr(n['inner'][1]), self.r(n['inner'][2])], e + ' *', n), e)
        if k == 'CXXMemberCallExpr':
            m = n['inner'][0]; obj = self.strip(m['inner'][0]); args = n['inner'][1:]
            if obj.get('kind') == 'CXXThisExpr':
                refs = self.params.get(m['name'], [False] * len(args))
                return self.call(m['name'], [self.thisref()] + [self.addr(self.r(self.strip(a)), self.q(self.strip(a)['type'])) if rf else self.r(a) for a, rf in zip(args, refs)], self.q(n['type']), n)
            if vecof(obj['type']['qualType']) and m['name'] in ('size', 'resize', 'push_back', 'empty'):
                a = [self.r(x) for x in args if x.get('kind') != 'CXXDefaultArgExpr']
                return self.call('__vec_' + m['name'], [self.vecaddr(obj)] + a, {'size': 'unsigned long'}.get(m['name'], 'void'), n)
        if k == 'DeclRefExpr':
            rd = n.get('referencedDecl', {})
            if rd.get('id') in self.refs:
                pq = self.refs[rd['id']]; e = pq[:-1].strip()
                return self.deref(self.rv(dict(n, type={'qualType': pq}, referencedDecl=dict(rd, type={'qualType': pq})), pq), e)
        if k == 'DeclStmt' and len(n.get('inner', [])) == 1 and vecof(n['inner'][0].get('type', {}).get('qualType', '')) and not isref(n['inner'][0]['type']['qualType']):
            v = n['inner'][0]; c = (v.get('inner') or [None])[0]
            while c and c.get('kind') in ('ExprWithCleanups', 'MaterializeTemporaryExpr'): c = c['inner'][0]
            q = self.q(v['type'])
            if c and c.get('kind') == 'CXXConstructExpr' and [x for x in c.get('inner', []) if x.get('kind') != 'CXXDefaultArgExpr']:
                a = [x for x in c['inner'] if x.get('kind') != 'CXXDefaultArgExpr']
                ref = dict(kind='DeclRefExpr', id=v['id'], type={'qualType': q}, valueCategory='lvalue', referencedDecl=dict(id=v['id'], kind='VarDecl', name=v['name'], type={'qualType': q}))
                if len(a) == 1:
                    return dict(kind='CompoundStmt', id=n['id'], flat=True, inner=[dict(n, inner=[dict(v, type={'qualType': q}, inner=[], init=None)]), self.call('__vec_init', [self.addr(ref, q), self.r(a[0])], 'void', n)])
        if k == 'CXXForRangeStmt':
            inn = n['inner']; lv, bd = inn[-2], inn[-1]; rng = inn[1]['inner'][0]['inner'][0] if inn[0] in ({}, None) or not inn[0].get('kind') else inn[0]['inner'][0]['inner'][0]
            rng = self.strip(rng)
            if vecof(rng['type']['qualType']):
                e = vecof(rng['type']['qualType']); iid = 'pos:' + n['id']; U = 'unsigned long'
                var = dict(kind='VarDecl', id=iid, name='__pos', type={'qualType': U}, init='c', inner=[dict(kind='IntegerLiteral', value='0', type={'qualType': U}, id=iid)])
                ref = lambda: dict(kind='DeclRefExpr', id=iid, type={'qualType': U}, valueCategory='lvalue', referencedDecl=dict(id=iid, kind='VarDecl', name='__pos', type={'qualType': U}))
                d = lv['inner'][0]
                elt = dict(d, type={'qualType': self.q(d['type'])}, init='c', inner=[self.rv(self.deref(self.call('__vec_at', [self.vecaddr(rng), self.rv(ref(), U)], e + ' *', n), e), e)])
                return dict(kind='ForStmt', id=n['id'], inner=[dict(kind='DeclStmt', id=n['id'], inner=[var]), None or {}, 
                    dict(kind='BinaryOperator', opcode='<', id=n['id'], type={'qualType': 'int'}, inner=[self.rv(ref(), U), self.call('__vec_size', [self.vecaddr(rng)], U, n)]),
                    dict(kind='UnaryOperator', opcode='++', isPostfix=False, id=n['id'], type={'qualType': U}, inner=[ref()]),
                    dict(kind='CompoundStmt', id=n['id'], inner=[dict(kind='DeclStmt', id=n['id'], inner=[elt]), self.r(bd)])])
        n = dict(n)
        if 'type' in n: n['type'] = {'qualType': self.q(n['type'])}
        if k == 'MemberExpr' and n['type']['qualType'].endswith('*') and False: pass
        if 'inner' in n: n['inner'] = self.flat([self.r(c) for c in n['inner']]) if k == 'CompoundStmt' else [self.r(c) for c in n['inner']]
        return n
    def value(self, x, n):
        while x.get('kind') in ('MaterializeTemporaryExpr', 'ParenExpr') or x.get('kind') == 'ImplicitCastExpr' and x.get('castKind') == 'NoOp': x = x['inner'][0]
        return self.r(x) if x.get('valueCategory') != 'lvalue' else self.r(dict(n, inner=[x]))
    def flat(self, l):
        out = []
        for c in l: out += c['inner'] if isinstance(c, dict) and c.get('flat') else [c]
        return out
    def strip2(self, n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): n = n['inner'][0]
        return n

# ---- models of std::vector
def m_at(ex, n, argn):
    from .core import Undecided, Ptr
    v = ex.ev(argn[0]); i = ex.asint(ex.ev(argn[1]))
    size = ex.load(v.fld('n'), check=False)
    ex.oblige('bounds', 'index within the vector', z3.And(i >= 0, i < size))
    return v.fld('d', i)
def m_size(ex, n, argn):
    return ex.load(ex.ev(argn[0]).fld('n'), check=False)
def fill(ex, v, k, keep):
    """contents after a resize to k: positions below the old size are kept (if keep), the new ones are 0"""
    key, idxs = ex.keyof(v.fld('d').path); key = key + ('[]',)
    old = ex.leafterm(v.root, key); size = ex.load(v.fld('n'), check=False)
    from .core import Undecided
    if idxs: raise Undecided('vector inside an array')
    base = old; new = ex.fresh('resized', base.sort()); j = z3.Int('?r')
    ex.assume(z3.ForAll([j], z3.Select(new, j) == (z3.If(j < size, z3.Select(base, j), 0) if keep else z3.IntVal(0)), patterns=[z3.Select(new, j)]))
    ex.setraw(v.root, key, new)
    ex.store(v.fld('n'), k, check=False)
def m_resize(ex, n, argn):
    v = ex.ev(argn[0]); k = ex.asint(ex.ev(argn[1]))
    if len(argn) > 2:
        from .core import is_num, Undecided
        z = ex.asint(ex.ev(argn[2]))
        if not (is_num(z) and z.as_long() == 0): raise Undecided('resize with a value other than 0')
    fill(ex, v, k, True); return None
def m_init(ex, n, argn):
    v = ex.ev(argn[0]); fill(ex, v, ex.asint(ex.ev(argn[1])), False); return None
VECOPS = {'__vec_at': m_at, '__vec_size': m_size, '__vec_resize': m_resize, '__vec_init': m_init}
