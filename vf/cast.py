"""Front end: clang's AST of the real sources -> pruned function dictionaries.

Nothing is re-typed by hand: each run calls clang on the current /repo file with the
flags of the library build, and keeps every function body as clang prints it.
What is dropped: attributes, system-header function bodies, source ranges (only the
begin offset is kept, for reporting).
"""
import json, os, re, subprocess, hashlib, sys

CLANG = '/usr/bin/clang'
REPO = os.environ.get('VF_REPO', '/repo')


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ types
class CT(object):
    __slots__ = ('k', 'name', 'to', 'n', 'rec', 'signed', 'bits')

    def __init__(self, k, name=None, to=None, n=None, rec=None, signed=True, bits=64):
        self.k, self.name, self.to, self.n, self.rec = k, name, to, n, rec
        self.signed, self.bits = signed, bits

    def __repr__(self):
        if self.k == 'ptr':
            return repr(self.to) + '*'
        if self.k == 'arr':
            return '%r[%s]' % (self.to, self.n)
        return '%s:%s' % (self.k, self.name or self.rec)


_INTS = {
    'int': (True, 32), 'signed int': (True, 32), 'unsigned int': (False, 32), 'unsigned': (False, 32),
    'char': (True, 8), 'signed char': (True, 8), 'unsigned char': (False, 8),
    'short': (True, 16), 'unsigned short': (False, 16),
    'long': (True, 64), 'unsigned long': (False, 64), 'long int': (True, 64), 'unsigned long int': (False, 64),
    'long long': (True, 64), 'unsigned long long': (False, 64), '__int128': (True, 128),
    'unsigned __int128': (False, 128),
}


class TU(object):
    """One translation unit, pruned."""

    def __init__(self):
        self.funcs = {}      # name -> dict(params=[(id,name,type)], body, ret, file, static)
        self.protos = {}     # name -> qualType
        self.typedefs = {}   # name -> (qualtype, recid or None)
        self.records = {}    # key -> dict(name, tag, fields=[(name,type str, recid or None)])
        self.recname = {}    # tag name -> key
        self.fields = {}     # decl id -> (record key, field name, qualtype, recid)
        self.enums = {}      # constant decl id -> value
        self.enumnames = {}  # constant name -> value
        self.constglobals = {}   # name -> int value
        self.globals = {}    # decl id -> (name, qualtype)
        self.src = None
        self._tc = {}

    # -- type strings
    def ty(self, s, recid=None):
        key = (s, recid)
        if key in self._tc:
            return self._tc[key]
        t = self._parse(s, recid)
        self._tc[key] = t
        return t

    def _parse(self, s, recid):
        s = s.strip()
        m = re.match(r'^(.*)\(\*(?:const|restrict|volatile|\s)*\)\s*((?:\[\d*\])+)$', s)
        if m:   # pointer to array
            return CT('ptr', to=self.ty(m.group(1) + m.group(2), recid))
        if '(*' in s:
            m = re.match(r'^(.*)\(\*\s*\[(\d+)\]\)\s*\(.*\)$', s)
            if m:
                return CT('arr', to=CT('ptr', to=CT('func', name=s)), n=int(m.group(2)))
            return CT('ptr', to=CT('func', name=s))
        m = re.match(r'^(.*?)((?:\[\d*\])+)$', s)
        if m:
            dims = re.findall(r'\[(\d*)\]', m.group(2))
            t = self.ty(m.group(1), recid)
            for d in reversed(dims):
                t = CT('arr', to=t, n=int(d) if d else None)
            return t
        s2 = re.sub(r'\b(const|volatile|restrict|__restrict|_Nonnull|register)\b', ' ', s)
        s2 = re.sub(r'\s+', ' ', s2).strip()
        if s2.endswith('*'):
            return CT('ptr', to=self.ty(s2[:-1], recid))
        if s2.endswith(')') and '(' in s2 and not re.match(r'^(struct|union|enum)? ?.*\((unnamed|anonymous)', s2):
            return CT('func', name=s2)
        s2 = s2.strip()
        if s2 == 'void':
            return CT('void')
        if s2 in ('_Bool', 'bool'):
            return CT('bool', name='_Bool', signed=False, bits=8)
        if s2 in _INTS:
            sg, b = _INTS[s2]
            return CT('int', name=s2, signed=sg, bits=b)
        if s2 in ('float', 'double', 'long double'):
            return CT('float', name=s2)
        if s2.startswith('enum '):
            return CT('enum', name=s2[5:])
        if s2.startswith('struct ') or s2.startswith('union '):
            nm = s2.split(' ', 1)[1]
            if nm in self.recname:
                return CT('rec', rec=self.recname[nm], name=nm)
            if recid is not None and recid in self.records:
                return CT('rec', rec=recid, name=nm)
            return CT('rec', rec=None, name=nm)
        if recid is not None and ('unnamed' in s2 or 'anonymous' in s2) and recid in self.records:
            return CT('rec', rec=recid, name=s2)
        if s2 in self.typedefs:
            q, rid = self.typedefs[s2]
            if rid is not None and rid in self.records:
                if self.records[rid]['tag'] == 'enum':
                    return CT('enum', name=s2)
                return CT('rec', rec=rid, name=self.records[rid]['name'] or s2)
            if q == s2 or q == 'struct ' + s2 and s2 not in self.recname:
                return CT('rec', rec=None, name=s2)
            if q.startswith('enum '):
                return CT('enum', name=s2)
            return self.ty(q, rid)
        if s2 in self.recname:
            return CT('rec', rec=self.recname[s2], name=s2)
        if s2 == '__va_list_tag' or s2 == '__builtin_va_list':
            return CT('rec', rec=None, name=s2)
        raise Unsupported('type %r' % s)


_DROP = ('range', 'isUsed', 'isReferenced', 'previousDecl', 'mangledName', 'valueCategory', 'parentDeclContextId')


def _strip(n):
    """Prune an AST subtree in place."""
    loc = n.get('range')
    off = None
    if loc:
        b = loc.get('begin', {})
        if 'offset' in b:
            off = b['offset']
        elif 'expansionLoc' in b:
            off = b['expansionLoc'].get('offset')
    for k in _DROP:
        n.pop(k, None)
    n.pop('loc', None)
    if off is not None:
        n['off'] = off
    inner = n.get('inner')
    if inner:
        for c in inner:
            if c:
                _strip(c)
    return n


def _intval(n):
    """Value of a constant expression node carrying a 'value'."""
    if 'value' in n and n['kind'] in ('ConstantExpr', 'IntegerLiteral'):
        return int(n['value'])
    for c in n.get('inner', []):
        v = _intval(c)
        if v is not None:
            return v
    return None


def load_tu(path, flags):
    cmd = [CLANG, '-std=gnu99', '-w', '-fsyntax-only', '-fno-builtin', '-Xclang', '-ast-dump=json'] + flags + [path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise Unsupported('clang failed on %s: %s' % (path, p.stderr.decode()[-800:]))
    root = json.loads(p.stdout)
    tu = TU()
    tu.src = path
    cur_file = [None]

    def rec_decl(d, parent=None):
        rid = d['id']
        if d.get('completeDefinition'):
            fl = []
            last_anon = None
            for c in d.get('inner', []):
                if c['kind'] == 'RecordDecl':
                    rec_decl(c)
                    if 'name' not in c:
                        last_anon = c['id']
                elif c['kind'] == 'EnumDecl':
                    enum_decl(c)
                elif c['kind'] == 'FieldDecl':
                    q = c['type']['qualType']
                    r = last_anon if ('unnamed' in q or 'anonymous' in q) else None
                    nm = c.get('name', '')
                    fl.append((nm, q, r))
                    tu.fields[c['id']] = (rid, nm, q, r)
            nm = d.get('name')
            tu.records[rid] = dict(name=nm, tag=d.get('tagUsed', 'struct'), fields=fl)
            if nm:
                tu.recname[nm] = rid

    def enum_decl(d):
        v = -1
        tu.records[d['id']] = dict(name=d.get('name'), tag='enum', fields=[])
        for c in d.get('inner', []):
            if c['kind'] == 'EnumConstantDecl':
                x = _intval(c) if c.get('inner') else None
                v = x if x is not None else v + 1
                tu.enums[c['id']] = v
                tu.enumnames[c['name']] = v

    for d in root['inner']:
        k = d['kind']
        loc = d.get('loc', {})
        if k == 'RecordDecl':
            rec_decl(d)
        elif k == 'EnumDecl':
            enum_decl(d)
        elif k == 'TypedefDecl':
            rid = None

            def find(n):
                if 'decl' in n and n['decl'].get('kind') in ('RecordDecl', 'EnumDecl'):
                    return n['decl']['id']
                if n.get('kind') in ('PointerType', 'ConstantArrayType', 'TypedefType', 'ParenType'):
                    return None
                for c in n.get('inner', []):
                    r = find(c)
                    if r:
                        return r
                return None
            for c in d.get('inner', []):
                rid = find(c)
                if rid:
                    break
            tu.typedefs[d['name']] = (d['type']['qualType'], rid)
        elif k == 'VarDecl':
            tu.globals[d['id']] = (d['name'], d['type']['qualType'])
            if 'const' in d['type']['qualType'].split() and d.get('inner'):
                v = _intval(d)
                if v is not None and '*' not in d['type']['qualType'] and '[' not in d['type']['qualType']:
                    tu.constglobals[d['name']] = v
        elif k == 'FunctionDecl':
            tu.protos.setdefault(d['name'], d['type']['qualType'])
            body = None
            params = []
            for c in d.get('inner', []):
                if c['kind'] == 'ParmVarDecl':
                    params.append((c['id'], c.get('name', ''), c['type']['qualType']))
                elif c['kind'] == 'CompoundStmt':
                    body = c
            if body is not None:
                q = d['type']['qualType']
                off = loc.get('offset')
                if off is None:
                    off = loc.get('expansionLoc', {}).get('offset')
                tu.funcs[d['name']] = dict(name=d['name'], params=params, body=_strip(body),
                                           ret=q[:q.index('(')].strip() if not q.startswith('void (*') else q,
                                           static=d.get('storageClass') == 'static', off=off, tu=path)
    # struct tags used before definition may have several RecordDecls: resolve by name only
    return tu


def src_lines(tu, fn, offs):
    """Best effort mapping of offsets to (file, line): find the file that has the function's name at its offset."""
    f = tu.funcs.get(fn)
    if not f or f['off'] is None:
        return None
    cands = [tu.src]
    for d in ('num', 'itv', 'apron', 'box', 'octagons', 'newpolka', 'avoct'):
        dd = os.path.join(REPO, d)
        if os.path.isdir(dd):
            cands += [os.path.join(dd, x) for x in sorted(os.listdir(dd)) if x.endswith('.h')]
    for c in cands:
        try:
            t = open(c, 'rb').read()
        except OSError:
            continue
        if t[f['off']:f['off'] + len(fn)] == fn.encode():
            return c, [t.count(b'\n', 0, o) + 1 if o is not None else None for o in offs]
    return None
