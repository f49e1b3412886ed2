"""Front end: clang's JSON AST of the current /repo sources -> types, records, functions.
Nothing is dropped from a function body: the symbolic executor walks clang's own AST of it."""
import hashlib, json, os, re, subprocess, tempfile

REPO = os.environ.get('REPO', '/repo')
INC = ['DFABuilder/include', 'DFABuilder/interface', 'JSONPathParser', 'JSONQuery']

class Ty:
    __slots__ = ('k', 'a', 'n')
    def __init__(self, k, a=None, n=None): self.k, self.a, self.n = k, a, n
    def __repr__(self):
        return {'int': lambda: 'i%s%d' % ('' if self.n else 'u', self.a), 'ptr': lambda: '%r*' % self.a,
                'arr': lambda: '%r[%s]' % (self.a, self.n)}.get(self.k, lambda: '%s%s' % (self.k, ':' + str(self.a) if self.a else ''))()
    def key(self): return repr(self)
    def __eq__(self, o): return isinstance(o, Ty) and repr(self) == repr(o)
    def __hash__(self): return hash(repr(self))

INTS = {'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0),
        'int': (32, 1), 'unsigned int': (32, 0), 'unsigned': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0),
        'long long': (64, 1), 'unsigned long long': (64, 0), 'int32_t': (32, 1), 'uint32_t': (32, 0), 'int64_t': (64, 1),
        'uint64_t': (64, 0), 'size_t': (64, 0), 'uint8_t': (8, 0), 'int8_t': (8, 1), 'uint16_t': (16, 0), 'int16_t': (16, 1),
        '_Bool': (1, 0), 'bool': (1, 0), '__off_t': (64, 1), 'off_t': (64, 1), 'ptrdiff_t': (64, 1), 'ssize_t': (64, 1),
        'time_t': (64, 1), '__time_t': (64, 1), '__suseconds_t': (64, 1), 'pthread_t': (64, 0), 'unsigned char': (8, 0),
        'int32': (32, 1)}

class TU:
    def __init__(self, files, extra='', cxx=False, filt=None):
        """files: list of paths relative to REPO that are #included into one translation unit"""
        self.records, self.typedefs, self.funcs, self.enums, self.enumtypes, self.globals = {}, {}, {}, {}, set(), {}
        key = hashlib.sha1(repr((files, extra, cxx, filt)).encode()).hexdigest()
        cache = os.environ.get('JPV_ASTDIR'); cache = cache and os.path.join(cache, key)
        src = extra + ''.join('#include "%s"\n' % os.path.join(REPO, f) for f in files)
        ext = '.cpp' if cxx else '.c'
        self.cxx = cxx; self.errors = ''
        if cache and os.path.exists(cache): return self.load(open(cache, 'rb').read(), filt)
        fd, path = tempfile.mkstemp(suffix=ext); os.write(fd, src.encode()); os.close(fd)
        cmd = ['clang++' if cxx else 'clang', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-D_GNU_SOURCE',
               '-std=c++11' if cxx else '-std=gnu99', '-Wno-implicit-function-declaration', '-Wno-return-type', '-Wno-return-mismatch',
               '-Wno-int-conversion']
        if filt: cmd += ['-Xclang', '-ast-dump-filter=' + filt]
        for i in INC: cmd += ['-I', os.path.join(REPO, i)]
        p = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        os.unlink(path)
        self.errors = p.stderr.decode()
        if p.returncode != 0: raise SyntaxError('clang: ' + self.errors[:2000])
        ids = {}     # clang's node ids are addresses: number them in order of appearance, so that every worker process names a loop alike
        raw = re.sub(rb'"0x[0-9a-f]+"', lambda m: ids.setdefault(m.group(0), b'"0x%08x"' % (len(ids) + 1)), p.stdout)
        if cache:
            open(cache + '.tmp%d' % os.getpid(), 'wb').write(raw); os.rename(cache + '.tmp%d' % os.getpid(), cache)
        self.load(raw, filt)
    def load(self, out, filt):
        if not filt:
            self.scan(json.loads(out))
        else:
            dec = json.JSONDecoder(); t = out.decode(); i = 0
            while True:
                i = t.find('{', i)
                if i < 0: break
                o, j = dec.raw_decode(t, i); i = j
                self.scan({'inner': [o]})
    def scan(self, node):
        pend = None
        for d in node.get('inner', []):
            k = d.get('kind')
            if k in ('RecordDecl', 'CXXRecordDecl'): self.record(d)
            elif k == 'TypedefDecl': self.typedefs[d['name']] = d['type'].get('desugaredQualType', d['type']['qualType'])
            elif k == 'EnumDecl': self.enum(d)
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                if any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', [])): self.funcs[d['name']] = d
            elif k in ('NamespaceDecl', 'LinkageSpecDecl'): self.scan(d)
            elif k == 'VarDecl': self.globals[d['id']] = d
    def enum(self, d):
        v = 0
        if d.get('name'): self.enumtypes.add(d['name'])
        for c in d.get('inner', []):
            if c.get('kind') == 'EnumConstantDecl':
                for e in c.get('inner', []):
                    if e.get('kind') == 'ConstantExpr' and 'value' in e: v = int(e['value'])
                self.enums[c['name']] = v; v += 1
    def record(self, d, into=None, union=None):
        if not d.get('completeDefinition'): return
        fields = [] if into is None else into
        anon = {}; last = None
        for c in d.get('inner', []):
            k = c.get('kind')
            if k in ('RecordDecl', 'CXXRecordDecl') and c.get('completeDefinition'):
                if not c.get('name'): anon[c['id']] = c; last = c
                else: self.record(c)
            elif k == 'FieldDecl':
                q = c['type'].get('desugaredQualType', c['type']['qualType'])
                if c.get('name') is None or (c.get('isImplicit') and 'name' not in c):
                    if last is not None: self.record(last, fields, union='u%s' % last['id'])
                else:
                    fields.append((c['name'], c['type']['qualType'], union or ('u' + d['id'] if d.get('tagUsed') == 'union' else None)))
            elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                if any(x.get('kind') == 'CompoundStmt' for x in c.get('inner', [])): self.funcs[d.get('name', '') + '::' + c['name']] = c
            elif k == 'EnumDecl': self.enum(c)
        if into is None and d.get('name'):
            self.records[d['name']] = fields
    def assigned(self, gid):
        """is a global ever written by a function of this unit"""
        if not hasattr(self, '_asg'):
            self._asg = set()
            def tgt(n):
                while n.get('kind') in ('ParenExpr', 'MemberExpr', 'ArraySubscriptExpr', 'ImplicitCastExpr'): n = n['inner'][0]
                if n.get('kind') == 'DeclRefExpr': self._asg.add(n['referencedDecl']['id'])
            def walk(n):
                if not isinstance(n, dict): return
                k = n.get('kind')
                if k == 'CompoundAssignOperator' or k == 'BinaryOperator' and n['opcode'] == '=' or k == 'UnaryOperator' and n['opcode'] in ('++', '--', '&'): tgt(n['inner'][0])
                for c in n.get('inner', []): walk(c)
            for d in self.funcs.values(): walk(d)
        return gid in self._asg
    def reach(self, fn, stop=()):
        """the functions whose text matters for fn: fn and what it calls, except calls that go by contract"""
        meth = {}
        for f in self.funcs: meth.setdefault(f.split('::')[-1], []).append(f)
        out, todo = set(), [fn]
        def walk(n):
            if not isinstance(n, dict): return
            for x in ((n.get('referencedDecl') or {}).get('name'), n.get('name') if n.get('kind') == 'MemberExpr' else None):
                todo.extend(f for f in meth.get((x or '').split('->')[-1], []) if f not in stop)
            for c in n.get('inner', []): walk(c)
        while todo:
            f = todo.pop()
            if f in out or f not in self.funcs: continue
            out.add(f); walk(self.funcs[f])
        return out
    def fingerprint(self, only=None):
        """hash of the functions, records and enums of the unit, without locations (comments and layout do not count)"""
        h = hashlib.sha1()
        def walk(n):
            if not isinstance(n, dict): return
            t = n.get('type') or {}
            h.update(repr((n.get('kind'), n.get('name'), n.get('opcode'), n.get('value'), re.sub(r' at [^()]*', '', t.get('qualType') or ''), n.get('isPostfix'), n.get('storageClass'), (n.get('referencedDecl') or {}).get('name'))).encode())
            for c in n.get('inner', []): walk(c)
            h.update(b')')
        for f in sorted(self.funcs if only is None else only): h.update(f.encode()); walk(self.funcs[f])
        h.update(re.sub(r' at [^()]*', '', repr(sorted((k, [x[:2] for x in v]) for k, v in self.records.items()))).encode())
        return h.hexdigest()
    # ---- types
    def ty(self, q):
        q = q.strip()
        m = re.match(r'^(.*?)((?:\[\w*\])+)$', q)
        if m and not m.group(1).rstrip().endswith(')'):
            t = self.ty(m.group(1))
            for n in reversed(re.findall(r'\[(\w*)\]', m.group(2))): t = Ty('arr', t, int(n) if n else None)
            return t
        q = re.sub(r'\b(const|volatile|static|restrict|__restrict|register)\b', '', q).strip()
        if q.endswith('*'): return Ty('ptr', self.ty(q[:-1]))
        if q.endswith('&'): return Ty('ptr', self.ty(q[:-1]))
        if '(' in q: return Ty('fn', q)
        q = re.sub(r'^(struct|enum|class|union)\s+', '', q).strip()
        q = re.sub(r'^dragontooth::|^std::(?=size_t|int32_t|uint32_t)', '', q)
        if q in INTS: b, s = INTS[q]; return Ty('int', b, s)
        if q in ('double', 'float', 'long double'): return Ty('dbl')
        if q == 'void': return Ty('void')
        if q in self.enumtypes: return Ty('int', 32, 0)
        if q in self.records: return Ty('struct', q)
        if q in self.typedefs and self.typedefs[q] != q: return self.ty(self.typedefs[q])
        return Ty('opaque', q)
    def tyof(self, node):
        t = node['type']
        return self.ty(t.get('desugaredQualType', t['qualType'])) if not self._known(t['qualType']) else self.ty(t['qualType'])
    def _known(self, q):
        return False if 'typeof' in q else True
    def fields(self, name):
        return [(f, self.ty(q), u) for f, q, u in self.records[name]]
