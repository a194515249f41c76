#!/usr/bin/env python3
"""Translate textual LLVM-18 IR (opaque pointers) to C that CBMC executes symbolically.

The IR comes from clang++ run on a harness that instantiates /repo's real headers, so the
C file is regenerated from the current source on every run.  Only the IR subset those
programs use is supported; anything else raises Unsupported (an error of the check, never
a silent pass).

Representation:
  iN (N<=64)  -> uint8/16/32/64 (i1 -> _Bool)      ptr -> unsigned char *
  i128        -> struct vf_i128 {u64 lo,hi}  (the library's 128-bit {pointer,counter} page)
  memory      -> C structs with LLVM's layout; loads/stores are typed dereferences
With --thread F the function F is emitted as a resumable step function: all its locals are
static, and before every access to shared memory it may return to the scheduler.
"""
import re, sys, json

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'n', 'el', 'name', 'packed')
    def __init__(s, k, n=0, el=None, name=None, packed=False):
        s.k, s.n, s.el, s.name, s.packed = k, n, el, name, packed
    def key(s):
        if s.k in ('arr', 'vec'): return (s.k, s.n, s.el.key())
        if s.k == 'struct': return (s.k, s.packed, tuple(e.key() for e in s.el))
        return (s.k, s.n, s.name)

class Lex:
    TOK = re.compile(r'\s*(?:(c"(?:[^"\\]|\\..)*")|([%@]"(?:[^"\\]|\\..)*")|([%@$][-\w.$]+)|(![-\w.]*)|("(?:[^"\\]|\\..)*")|(-?\d+\.\d+(?:e[+-]?\d+)?)|(-?\d+)|([A-Za-z_][-\w.]*)|(\.\.\.)|(#\d+)|(.))')
    def __init__(s, text):
        s.t = []
        i = 0
        text = text.strip()
        while i < len(text):
            m = Lex.TOK.match(text, i)
            if not m: break
            s.t.append(m.group(0).strip())
            i = m.end()
        s.i = 0
    def peek(s, o=0):
        return s.t[s.i + o] if s.i + o < len(s.t) else ''
    def next(s):
        v = s.peek(); s.i += 1; return v
    def accept(s, v):
        if s.peek() == v:
            s.i += 1; return True
        return False
    def expect(s, v):
        if not s.accept(v):
            raise Unsupported('expected %r got %r in %r' % (v, s.peek(), ' '.join(s.t)))
    def eof(s): return s.i >= len(s.t)

def parse_type(lx):
    t = lx.next()
    if re.fullmatch(r'i\d+', t): r = T('int', int(t[1:]))
    elif t == 'ptr': r = T('ptr')
    elif t == 'void': r = T('void')
    elif t in ('float', 'double'): r = T(t)
    elif t in ('label', 'metadata', 'token'): r = T(t)
    elif t.startswith('%'): r = T('named', name=t)
    elif t == '[':
        n = int(lx.next()); lx.expect('x'); e = parse_type(lx); lx.expect(']'); r = T('arr', n, e)
    elif t == '{':
        r = T('struct', el=[])
        if not lx.accept('}'):
            while True:
                r.el.append(parse_type(lx))
                if lx.accept('}'): break
                lx.expect(',')
    elif t == '<':
        if lx.peek() == '{':
            lx.next(); r = T('struct', el=[], packed=True)
            if not lx.accept('}'):
                while True:
                    r.el.append(parse_type(lx))
                    if lx.accept('}'): break
                    lx.expect(',')
            lx.expect('>')
        else:
            raise Unsupported('vector type')
    elif t == 'opaque': r = T('opaque')
    else: raise Unsupported('type %r in %r' % (t, ' '.join(lx.t)))
    # function type  R (A, B)
    if lx.peek() == '(' and r.k != 'label':
        depth = 0
        save = lx.i
        # only treat as function type when followed later by a callee; caller handles
        lx.i = save
    return r

ATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'inalloca',
            'preallocated', 'memory', 'allocsize', 'allockind', 'vscale_range', 'nofpclass', 'byref', 'captures', 'range'}
ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly',
         'immarg', 'returned', 'nest', 'swiftself', 'swifterror', 'noreturn', 'nounwind', 'writable', 'nofree', 'nosync',
         'dead_on_unwind', 'allocptr', 'allocalign', 'noinline', 'mustprogress', 'uwtable', 'local_unnamed_addr',
         'unnamed_addr', 'dso_local', 'linkonce_odr', 'internal', 'private', 'weak', 'weak_odr', 'external', 'hidden',
         'available_externally', 'linkonce', 'extern_weak', 'common', 'appending', 'dllimport', 'protected', 'default',
         'fastcc', 'ccc', 'coldcc', 'comdat', 'thread_local', 'constant', 'global', 'willreturn', 'speculatable', 'cold', 'hot'}

def skip_attrs(lx):
    d = {}
    while True:
        p = lx.peek()
        if p in ATTR_ARG:
            lx.next()
            if lx.accept('('):
                if p in ('byval', 'sret', 'byref', 'elementtype', 'inalloca', 'preallocated'):
                    d[p] = parse_type(lx); lx.expect(')')
                else:
                    dep = 1
                    while dep:
                        x = lx.next()
                        if x == '(': dep += 1
                        elif x == ')': dep -= 1
                        elif x == '': raise Unsupported('attr')
            else:
                lx.next()
        elif p in ATTRS: lx.next()
        elif p.startswith('#') : lx.next()
        elif p.startswith('"'):
            lx.next()
            if lx.accept('='): lx.next()
        else: return d

# ---------------------------------------------------------------- values
class V:
    """A typed operand. kind: reg, glob, int, null, undef, zero, agg, str, cexpr"""
    __slots__ = ('k', 't', 'v')
    def __init__(s, k, t, v=None): s.k, s.t, s.v = k, t, v

def parse_value(lx, t):
    p = lx.next()
    if p.startswith('%'): return V('reg', t, p)
    if p.startswith('@'): return V('glob', t, p)
    if p in ('true', 'false'): return V('int', t, 1 if p == 'true' else 0)
    if re.fullmatch(r'-?\d+', p): return V('int', t, int(p))
    if p == 'null': return V('null', t)
    if p in ('undef', 'poison'): return V('undef', t)
    if p == 'zeroinitializer': return V('zero', t)
    if p.startswith('c"'): return V('str', t, p[2:-1])
    if p in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[p]
        if p == '<' and lx.peek() == '{':
            lx.next(); close = '}'
        els = []
        if not lx.accept(close):
            while True:
                et = parse_type(lx); skip_attrs(lx); els.append(parse_value(lx, et))
                if lx.accept(close): break
                lx.expect(',')
        if p == '<' and lx.peek() == '>': lx.next()
        return V('agg', t, els)
    if p == 'getelementptr':
        while lx.peek() in ('inbounds', 'nusw', 'nuw', 'inrange'): lx.next()
        lx.expect('(')
        bt = parse_type(lx); lx.expect(',')
        ops = []
        while True:
            while lx.peek() in ('inrange',): lx.next()
            ot = parse_type(lx); ops.append(parse_value(lx, ot))
            if lx.accept(')'): break
            lx.expect(',')
        return V('cexpr', t, ('gep', bt, ops))
    if p in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext'):
        lx.expect('('); ot = parse_type(lx); o = parse_value(lx, ot); lx.expect('to'); tt = parse_type(lx); lx.expect(')')
        return V('cexpr', tt, (p, o))
    if p == 'blockaddress': raise Unsupported('blockaddress')
    if p == 'asm': raise Unsupported('inline asm')
    raise Unsupported('value %r in %r' % (p, ' '.join(lx.t)))

def parse_tv(lx):
    t = parse_type(lx); a = skip_attrs(lx)
    if t.k == 'metadata':
        # swallow
        while lx.peek() not in (',', ')') and not lx.eof(): lx.next()
        return V('undef', t)
    return parse_value(lx, t)

# ---------------------------------------------------------------- module
class Fn: pass

class Module:
    def __init__(m, text):
        m.types = {}
        m.globals = {}
        m.fns = {}
        m.decls = {}
        m.tbaa_struct = {}
        m.order = []
        lines = text.split('\n')
        i = 0
        meta = {}
        while i < len(lines):
            L = lines[i]
            s = L.strip()
            if s.startswith('%') and ' = type ' in s:
                nm, r = s.split(' = type ', 1)
                m.types[nm] = parse_type(Lex(r))
            elif s.startswith('@'):
                m.parse_global(s)
            elif s.startswith('define '):
                body = []
                i += 1
                while lines[i].strip() != '}':
                    body.append(lines[i]); i += 1
                m.parse_fn(s, body)
            elif s.startswith('declare '):
                m.parse_decl(s)
            elif re.match(r'!\d+ = ', s):
                k, r = s.split(' = ', 1); meta[k] = r
            i += 1
        for k, r in meta.items():
            mm = re.findall(r'i64 (\d+), i64 (\d+), !\d+', r)
            if mm and re.fullmatch(r'!\{(?:i64 \d+, i64 \d+, !\d+(?:, )?)+\}', r):
                m.tbaa_struct[k] = [(int(a), int(b)) for a, b in mm]

    def parse_global(m, s):
        nm, r = s.split(' = ', 1)
        lx = Lex(r)
        ext = False; const = False; alias = False; tl = False
        while True:
            p = lx.peek()
            if p in ('external', 'extern_weak'): ext = True; lx.next()
            elif p == 'alias' or p == 'ifunc': alias = True; lx.next(); break
            elif p in ('global', 'constant'):
                const = p == 'constant'; lx.next(); break
            elif p == 'thread_local':
                lx.next()
                if lx.accept('('):
                    lx.next(); lx.expect(')')
            elif p in ATTRS or p.startswith('#'): lx.next()
            elif p == 'addrspace': raise Unsupported('addrspace')
            else: raise Unsupported('global ' + s)
        if alias:
            t = parse_type(lx); lx.expect(','); v = parse_tv(lx)
            m.globals[nm] = ('alias', v, None); return
        t = parse_type(lx)
        init = None
        if not ext: init = parse_value(lx, t)
        m.globals[nm] = (t, init, const)

    def parse_sig(m, lx):
        skip_attrs(lx)
        rt = parse_type(lx)
        skip_attrs(lx)
        nm = lx.next()
        lx.expect('(')
        ps = []; va = False
        if not lx.accept(')'):
            while True:
                if lx.accept('...'): va = True
                else:
                    t = parse_type(lx); a = skip_attrs(lx)
                    pn = lx.next() if lx.peek().startswith('%') else None
                    ps.append((t, pn, a))
                if lx.accept(')'): break
                lx.expect(',')
        return rt, nm, ps, va

    def parse_decl(m, s):
        lx = Lex(s); lx.next()
        rt, nm, ps, va = m.parse_sig(lx)
        m.decls[nm] = (rt, ps, va)

    def parse_fn(m, head, body):
        f = Fn()
        lx = Lex(head); lx.next()
        f.rt, f.name, f.params, f.va = m.parse_sig(lx)
        # unnamed params / entry block take consecutive numbers
        n = 0
        ps = []
        for t, pn, a in f.params:
            if pn is None: pn = '%%%d' % n
            if re.fullmatch(r'%\d+', pn): n = int(pn[1:]) + 1
            ps.append((t, pn, a))
        f.params = ps
        f.blocks = []
        cur = None
        # join multi-line instructions (switch)
        joined = []
        acc = ''
        for L in body:
            if not L.strip(): continue
            if acc:
                acc += ' ' + L.strip()
                if L.strip().startswith(']') or L.rstrip().endswith(']') or ' ]' in L and L.strip()[0] == ']':
                    joined.append(acc); acc = ''
                continue
            st = L.strip()
            if st.startswith('switch ') and ']' not in st.split('[', 1)[-1]:
                acc = st; continue
            if st.startswith(';'): continue
            joined.append(L if L[0] not in ' \t' else '  ' + st)
        for L in joined:
            if not L.startswith(' ') and not L.startswith('\t') and not L.startswith('switch '):
                mm = re.match(r'("(?:[^"\\]|\\..)*"|[-\w.$]+):', L)
                if not mm: raise Unsupported('label ' + L)
                cur = ['%' + mm.group(1), []]
                f.blocks.append(cur)
            else:
                if cur is None:
                    cur = ['%%%d' % n, []]; f.blocks.append(cur)
                cur[1].append(L.strip())
        m.fns[f.name] = f
        m.order.append(f.name)

    # layout
    def res(m, t):
        while t.k == 'named':
            if t.name not in m.types: raise Unsupported('type ' + t.name)
            t = m.types[t.name]
        return t
    def align(m, t):
        t = m.res(t)
        if t.k == 'int':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.n) or (1 if t.n <= 8 else 2 if t.n <= 16 else 4 if t.n <= 32 else 8)
        if t.k == 'ptr' or t.k == 'double': return 8
        if t.k == 'float': return 4
        if t.k == 'arr': return m.align(t.el)
        if t.k == 'struct':
            return 1 if t.packed else max([m.align(e) for e in t.el] or [1])
        raise Unsupported('align ' + t.k)
    def size(m, t):
        t = m.res(t)
        if t.k == 'int':
            a = m.align(t); return max(a, (t.n + 7) // 8)
        if t.k in ('ptr', 'double'): return 8
        if t.k == 'float': return 4
        if t.k == 'arr': return t.n * m.size(t.el)
        if t.k == 'struct':
            o = 0
            for e in t.el:
                if not t.packed:
                    a = m.align(e); o = (o + a - 1) // a * a
                o += m.size(e)
            a = m.align(t)
            return (o + a - 1) // a * a
        raise Unsupported('size ' + t.k)
    def offset(m, t, idx):
        t = m.res(t); o = 0
        for i, e in enumerate(t.el):
            if not t.packed:
                a = m.align(e); o = (o + a - 1) // a * a
            if i == idx: return o
            o += m.size(e)

# ---------------------------------------------------------------- C emission
PRELUDE = r'''
#include <stddef.h>
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long u64;
typedef signed char s8; typedef short s16; typedef int s32; typedef long s64;
typedef unsigned char *vptr;
typedef struct vf_i128 { u64 lo; u64 hi; } __attribute__((aligned(16))) vf_i128;
u64 vf_undef_u64(void) { u64 v; return v; }
extern void __CPROVER_assume(_Bool); 
u64 vf_log_val; u64 vf_obs_val; u64 vf_sched_val;
u64 vf_nd_u64(u32 a0) { u64 v; vf_log_val = v; return v; }
void vf_obs(u64 a0) { vf_obs_val = a0; }
vptr vf_i2p(u64 x);
#ifdef VF_I2P_RAW
#define VF_PIN(c) (c)
#else
#define VF_PIN(c) 1
#endif
'''

GEPBASE = re.compile(r'(%[-\w.$]+) = getelementptr (?:inbounds )?(%"[^"]*"|%[-\w.:$]+), ptr (%[-\w.$]+), (i\d+ 0, i\d+ \d+)$')
GEPRX = re.compile(r'(%[-\w.$]+) = getelementptr (?:inbounds )?(%"[^"]*"|%[-\w.:$]+), ptr [%@][-\w.$]+, i\d+ 0, i\d+ (\d+)$')
MEMOP = re.compile(r'(?:%\S+ = )?(load|store|cmpxchg|atomicrmw)\b|.*call .*@(llvm\.mem(?:cpy|move)|sched_yield)')
def th_fixed(g, p):
    if not g.th: return False
    if p.k == 'glob': return p.v not in g.frozen[0]
    return g.is_frozen(p) or (p.k == 'reg' and p.v in g.fixedaddr)

class CGen:
    def __init__(g, m, threads=(), stubs=None, roots=(), shared_filter=None):
        g.m = m
        g.threads = set(threads)
        g.tnames = {}
        g.anon = {}
        g.tdefs = []
        g.names = {}
        g.used = set()
        g.out = []
        g.roots = list(roots)
        g.encoded = []
        g.nyield = {}; g.linear = {}
        g.plan = {}     # thread function -> {(block, n-th memory instruction): [('pt', kind, k)] or [('cp', offset, size, k_read, k_write)...]}
        g.frozen = g.scan_frozen()
        g.i2p_types = g.scan_i2p()
        g.i2p_vars = []; g.i2p_glob = []; g.i2p_ty = []; g.i2p_gty = []; g.i2pfields = {}

    # Pointers kept in integers (the page word).  Casting such an integer back gives one of the sub-objects of
    # the type it is used as: emit the choice among them explicitly, so that the solver keeps exact objects
    # instead of byte arithmetic.  An integer that matches none of them fails an assertion.
    def scan_i2p(g):
        ts = {}
        for f in g.m.fns.values():
            regs = set()
            for bn, ins in f.blocks:
                for L in ins:
                    mm = re.match(r'(%\S+) = inttoptr i64 \S+ to ptr', L)
                    if mm: regs.add(mm.group(1))
            if not regs: continue
            for bn, ins in f.blocks:
                for L in ins:
                    mm = re.match(r'%\S+ = getelementptr .*?(%[^,\s]+|%"[^"]*"), ptr (%[-\w.$]+), i32 0', L)
                    if mm and mm.group(2) in regs: ts[mm.group(1)] = T('named', name=mm.group(1))
        return list(ts.values())

    # Memory the thread functions only read needs no scheduling points: harness globals and struct fields nobody stores to.
    # A field is named by its innermost struct (type, index); a store whose target type is unknown makes every scalar of
    # that kind stored.
    def leaf(g, t, idx):
        """innermost (struct name, field) that the first scalar of field idx of t belongs to"""
        while True:
            key = (t.name, str(idx)) if t.k == 'named' else None
            e = g.m.res(t).el[idx]; r = g.m.res(e)
            while r.k == 'arr' and r.n: e = r.el; r = g.m.res(e)
            if r.k != 'struct' or not r.el: return key
            t, idx = e, 0

    def leaves(g, t):
        """every innermost field of t"""
        r = g.m.res(t)
        if r.k == 'arr': return g.leaves(r.el)
        if r.k != 'struct': return set()
        return {x for i, e in enumerate(r.el) for x in ([g.leaf(t, i)] + list(g.leaves(e)))}

    def ptypes(g, f):
        """register -> types it is used to point to"""
        ty = {}
        def walk(bt, ix):
            for x in ix:
                r = g.m.res(bt)
                if r.k == 'struct': bt = r.el[x]
                elif r.k == 'arr': bt = r.el
                else: return None
            return bt
        for bn, ins in f.blocks:
            for L in ins:
                mm = re.match(r'(%\S+) = getelementptr ', L)
                if not mm: continue
                lx = Lex(L); lx.next(); lx.next(); lx.next()
                while lx.peek() in ('inbounds', 'nusw', 'nuw'): lx.next()
                bt = parse_type(lx); ops = []
                while lx.accept(','): ops.append(parse_tv(lx))
                if ops[0].k == 'reg' and not (bt.k == 'int'): ty.setdefault(ops[0].v, []).append(bt)
                if bt.k == 'int':
                    if len(ops) == 2: ty.setdefault(mm.group(1), []).append(('off', ops[0].v, ops[1].v if ops[1].k == 'int' else None))
                else:
                    t = walk(bt, [x.v if x.k == 'int' else 0 for x in ops[2:]])
                    ty.setdefault(mm.group(1), []).append((bt, [x.v if x.k == 'int' else 0 for x in ops[2:]]) if t is not None else None)
        # pointers loaded from one pointer field have the types any of them is used with
        gp = {}; ld = {}
        for bn, ins in f.blocks:
            for L in ins:
                mm = GEPRX.match(L)
                if mm: gp[mm.group(1)] = (mm.group(2), mm.group(3))
                mm = re.match(r'(%\S+) = load ptr, ptr (%[-\w.$]+)', L)
                if mm and mm.group(2) in gp: ld.setdefault(gp[mm.group(2)], []).append(mm.group(1))
        for rs in ld.values():
            ts = [x for r in rs for x in ty.get(r, []) if isinstance(x, T)]
            for r in rs:
                if ts and r not in ty: ty[r] = ts
        return ty

    def targets(g, ty, reg, seen=()):
        """innermost fields a scalar access through reg may address, None if unknown"""
        out = set()
        if reg not in ty or reg in seen: return None
        for x in ty[reg]:
            if x is None: return None
            if isinstance(x, T):
                if g.m.res(x).k == 'struct' and g.m.res(x).el: out.add(g.leaf(x, 0))
                elif g.m.res(x).k == 'arr' and g.m.res(g.m.res(x).el).k == 'struct': out.add(g.leaf(g.m.res(x).el, 0))
            elif x[0] == 'off':
                bs = [y for y in ty.get(x[1], []) if y is not None]
                if not bs or x[2] is None: return None
                for y in bs:
                    if isinstance(y, tuple) and y[0] == 'off': return None
                    q = ('', [], y, y) if isinstance(y, T) else None
                    if q is None:
                        t = y[0]
                        for i in y[1]: t = g.m.res(t).el[i] if g.m.res(t).k == 'struct' else g.m.res(t).el
                        q = ('', [], t, t)
                    z = g.byte_off(q, x[2])
                    if not z: return None
                    t = q[2]; last = None
                    for k, i in z[1]:
                        r = g.m.res(t)
                        if k == 'f': last = g.leaf(t, i); t = r.el[i]
                        elif k == 'i': t = r.el
                    if last: out.add(last)
                    elif z[1]: return None
            else:
                t = x[0]; last = None
                for i in x[1]:
                    r = g.m.res(t)
                    if r.k == 'struct': last = g.leaf(t, i); t = r.el[i]
                    else: t = r.el
                r = g.m.res(t)
                if r.k == 'struct' and r.el: out.add(g.leaf(t, 0))
                elif last: out.add(last)
        return out

    def scan_frozen(g):
        stored = set(); g.dirty = set()
        for n in g.threads:
            f = g.m.fns.get('@' + n)
            if not f: continue
            ty = g.ptypes(f); al = {}
            for bn, ins in f.blocks:
                for L in ins:
                    mm = re.match(r'(%\S+) = alloca (%"[^"]*"|[^,]+)', L)
                    if mm: al[mm.group(1)] = mm.group(2)
            for bn, ins in f.blocks:
                for L in ins:
                    mm = re.match(r'store (?:atomic |volatile )*(i\d+|ptr)\b.*, ptr ([%@][-\w.$]+)', L) or re.match(r'(?:%\S+ = )?(?:cmpxchg|atomicrmw)\b.*?ptr ([%@][-\w.$]+), (i\d+)', L)
                    if mm and not L.startswith('store') or mm and not re.match(r'store \S+ (undef|poison),', L):
                        a, b = mm.groups()
                        k, r = (a, b) if a[0] not in '%@' else (b, a)
                        if r[0] == '@': stored.add(r); continue
                        if r in al: continue
                        t = g.targets(ty, r)
                        if t is None: g.dirty.add(k)
                        else: stored |= t
                    elif re.match(r'store ', L) and not re.match(r'store \S+ (undef|poison),', L) and not re.search(r'ptr @', L): g.dirty |= {'i8', 'i16', 'i32', 'i64', 'ptr'}
                    mm = re.search(r'@llvm\.mem(?:cpy|move|set)[^(]*\(ptr [^%@]*([%@][-\w.$]+)', L)
                    if mm:
                        r = mm.group(1); ts = ty.get(r)
                        if r[0] == '@': stored.add(r); continue
                        if r in al: continue
                        if not ts or any(x is None or (isinstance(x, tuple) and x[0] == 'off') for x in ts): g.dirty |= {'i8', 'i16', 'i32', 'i64', 'ptr'}; continue
                        for x in ts:
                            if isinstance(x, T): stored |= g.leaves(x)
                            else:
                                t = x[0]
                                for i in x[1]: r2 = g.m.res(t); t = r2.el[i] if r2.k == 'struct' else r2.el
                                stored |= g.leaves(t) | g.targets(ty, r)
        return stored, set()

    def is_frozen(g, v):
        if v.k == 'glob': return v.v not in g.frozen[0] or v.v in g.own
        if v.k == 'reg' and v.v in g.gtext:
            n, i = g.gtext[v.v]; t = T('named', name=n)
            e = g.m.res(t).el[int(i)]; r = g.m.res(e)
            while r.k in ('struct', 'arr'): e = r.el[0] if r.k == 'struct' else r.el; r = g.m.res(e)
            if (r.k if r.k == 'ptr' else 'i%s' % r.n) in g.dirty: return False
            return g.leaf(t, int(i)) not in g.frozen[0]
        return False

    def i2p_tyof(g, t, path):
        for x in re.findall(r'\.f(\d+)|\[', path):
            r = g.m.res(t); t = r.el[int(x)] if x else r.el
        return g.ctype(t)

    # Accesses through a pointer to a state block, with threads: one case per block instead of a pointer with unknown offset.
    def split(g, t, p):
        """(register, struct type, field text) for an access through a pointer to a type of i2p_types"""
        if not g.i2p_types: return None
        if p.k == 'reg' and p.v in g.i2pregs and p.v not in g.allocas:
            q = g.descend(('@R', [], g.i2pregs[p.v], g.i2pregs[p.v]), t); r = g.val(p)
        else:
            q = g.path(p)
            if not q: return None
            q = g.descend(g.normal(q) or q, t)
            if not q or not any(g.teq(q[3], x) for x in g.i2p_types): return None
            mm = re.match(r'\(\*\(\(%s\*\)(r\w+)\)\)$' % re.escape(g.ctype(q[3])), q[0])
            if not mm: return None
            r = mm.group(1)
        if not q: return None
        suf = ''
        for k, x in q[1]:
            if k == 'f': suf += '.f%d' % x
            elif k == 'i': suf += '[%s]' % x
            elif k == 'x': suf += x
            else: return None
        return r, g.ctype(q[3]), suf

    def expand_split(g, body):
        cand = list(zip(g.i2p_vars + g.i2p_glob, g.i2p_ty + g.i2p_gty))
        def ex(mm):
            kind, r, ct, suf, x, plain = mm.group(1).split('|', 5)
            cs = [c for c, y in cand if y == ct]
            ok = ' || '.join('%s == %s' % (r, c) for c in cs) or '0'
            a = '__CPROVER_assert(%s, "vf_i2p"); ' % ok
            if kind == 'LD':
                e = '((%s*)%s)->%s' % (ct, cs[-1], suf[1:]) if cs else '0'
                for c in cs[-2::-1]: e = '%s == %s ? ((%s*)%s)->%s : %s' % (r, c, ct, c, suf[1:], e)
                a += '%s = %s;' % (x, e)
            else:
                a += ' '.join('((%s*)%s)->%s = %s == %s ? %s : ((%s*)%s)->%s;' % (ct, c, suf[1:], r, c, x, ct, c, suf[1:]) for c in cs)
            return '\n#ifdef VF_I2P_RAW\n%s\n#else\n%s\n#endif\n' % (plain, a)
        return re.sub(r'@@(.*?)@@', ex, body)

    def i2p_paths(g, t, lv):
        if any(g.teq(t, x) for x in g.i2p_types): return [lv]
        r = g.m.res(t)
        if r.k == 'struct':
            return [p for i, e in enumerate(r.el) for p in g.i2p_paths(e, '%s.f%d' % (lv, i))]
        if r.k == 'arr' and r.n <= 8 and g.i2p_paths(r.el, lv):
            return [p for i in range(r.n) for p in g.i2p_paths(r.el, '%s[%d]' % (lv, i))]
        return []

    # names
    def cname(g, n, pre=''):
        k = (pre, n)
        if k in g.names: return g.names[k]
        b = n[1:]
        if b.startswith('"'): b = b[1:-1]
        c = pre + re.sub(r'\W', '_', b)
        if not pre and not re.match(r'[A-Za-z_]', c): c = 'g_' + c
        while c in g.used: c += '_x'
        g.used.add(c)
        g.names[k] = c
        return c

    def ctype(g, t):
        """C type usable for a declaration without array suffix."""
        if t.k == 'int':
            if t.n == 1: return '_Bool'
            if t.n <= 8: return 'u8'
            if t.n <= 16: return 'u16'
            if t.n <= 32: return 'u32'
            if t.n <= 64: return 'u64'
            if t.n == 128: return 'vf_i128'
            raise Unsupported('i%d' % t.n)
        if t.k == 'ptr': return 'vptr'
        if t.k == 'void': return 'void'
        if t.k == 'double': return 'double'
        if t.k == 'float': return 'float'
        if t.k == 'named':
            if t.name in g.tnames: return g.tnames[t.name]
            r = g.m.types.get(t.name)
            if r is None or r.k == 'opaque': raise Unsupported('opaque type ' + t.name)
            nm = 'struct S%d' % len(g.tnames)
            g.tnames[t.name] = nm
            g.defstruct(nm, r)
            return nm
        if t.k == 'struct':
            k = t.key()
            if k in g.anon: return g.anon[k]
            nm = 'struct A%d' % len(g.anon)
            g.anon[k] = nm
            g.defstruct(nm, t)
            return nm
        if t.k == 'arr':
            k = t.key()
            if k in g.anon: return g.anon[k]
            nm = 'struct A%d' % len(g.anon)
            g.anon[k] = nm
            g.tdefs.append('%s { %s; };' % (nm, g.decl(t.el, 'e[%d]' % max(t.n, 1))))
            return nm
        raise Unsupported('ctype ' + t.k)

    def decl(g, t, n):
        if t.k == 'arr':
            if t.n == 0: return g.decl(t.el, n + '[0]')
            return g.decl(t.el, n + '[%d]' % t.n)
        if t.k == 'int' and t.n == 1: return 'u8 ' + n      # i1 in memory
        return g.ctype(t) + ' ' + n

    def defstruct(g, nm, t):
        if t.k != 'struct': raise Unsupported('named non-struct')
        fs = []
        for i, e in enumerate(t.el):
            fs.append(g.decl(e, 'f%d' % i) + ';')
        if not fs: fs = ['u8 f0;']
        g.tdefs.append('%s { %s }%s;' % (nm, ' '.join(fs), ' __attribute__((packed))' if t.packed else ''))

    def const(g, v, mem=False):
        t = v.t
        if v.k == 'int':
            if t.k == 'int' and t.n == 128:
                x = v.v & ((1 << 128) - 1)
                return '((vf_i128){%dUL,%dUL})' % (x & (2**64 - 1), x >> 64)
            if t.n == 1: return '1' if v.v else '0'
            x = v.v & ((1 << t.n) - 1)
            return '((%s)%dUL)' % (g.ctype(t), x)
        if v.k == 'null': return '((vptr)0)'
        if v.k == 'glob': return '((vptr)%s%s)' % ('&' if v.v in g.m.globals else '', g.gname(v.v))
        if v.k == 'undef':
            if t.k == 'int' and t.n <= 64: return '((%s)vf_undef_u64())' % g.ctype(t)
            if t.k == 'ptr': return '((vptr)0)'
            return g.zero(t)
        if v.k == 'zero': return g.zero(t)
        if v.k == 'cexpr':
            op = v.v
            if op[0] == 'gep': return g.gep(op[1], op[2], None)
            if op[0] == 'ptrtoint': return '((%s)%s)' % (g.ctype(t), g.const(op[1]))
            if op[0] == 'inttoptr': return '((vptr)%s)' % g.const(op[1])
            if op[0] == 'bitcast': return g.const(op[1])
        if v.k == 'agg':
            return '((%s){%s})' % (g.ctype(t), ','.join(g.const(e) for e in v.v))
        raise Unsupported('const ' + v.k)

    def zero(g, t):
        if t.k == 'int':
            if t.n == 128: return '((vf_i128){0,0})'
            return '((%s)0)' % g.ctype(t)
        if t.k == 'ptr': return '((vptr)0)'
        return '((%s){0})' % g.ctype(t)

    def ginit(g, v):
        """initialiser text for a global"""
        t = g.m.res(v.t)
        if v.k in ('zero', 'undef'):
            return '{0}' if t.k in ('arr', 'struct') or (t.k == 'int' and t.n == 128) else '0'
        if v.k == 'str':
            b = []
            s = v.v; i = 0
            while i < len(s):
                if s[i] == '\\':
                    b.append(int(s[i+1:i+3], 16)); i += 3
                else:
                    b.append(ord(s[i])); i += 1
            return '{' + ','.join(map(str, b)) + '}'
        if v.k == 'agg': return '{' + ','.join(g.ginit(e) for e in v.v) + '}'
        if v.k == 'int' and t.k == 'int' and t.n == 128:
            x = v.v & ((1 << 128) - 1)
            return '{%dUL,%dUL}' % (x & (2**64-1), x >> 64)
        return g.const(v)

    def gname(g, n):
        if n in g.m.globals and g.m.globals[n][0] == 'alias':
            v = g.m.globals[n][1]
            return g.gname(v.v)
        g.need(n)
        return g.cname(n)

    def need(g, n):
        if n not in g.needed:
            g.needed.add(n); g.work.append(n)

    # ---- operands inside a function
    def val(g, v):
        if v.k == 'reg': return g.reg(v.v)
        return g.const(v)
    def reg(g, n):
        return g.cname(n, g.fpre)

    def gep(g, bt, ops, _):
        base = g.val(ops[0])
        cur = bt
        idx = ops[1:]
        first = idx[0]
        ct = g.ctype(cur) if cur.k != 'arr' else g.ctype(cur)
        if cur.k == 'arr':
            # pointer to array: use the wrapper struct only for pointer stepping
            e = '((%s*)%s)' % (ct, base)
        else:
            e = '((%s*)%s)' % (ct, base)
        if not (first.k == 'int' and first.v == 0):
            e = '(%s + %s)' % (e, g.sidx(first))
        if len(idx) == 1:
            return '((vptr)%s)' % e
        lv = '(*%s)' % e
        wrapped = cur.k == 'arr'
        for ix in idx[1:]:
            r = g.m.res(cur)
            if r.k == 'struct':
                lv = '%s.f%d' % (lv, ix.v)
                cur = r.el[ix.v]
                wrapped = False
            elif r.k == 'arr':
                lv = '%s%s[%s]' % (lv, '.e' if wrapped else '', g.sidx(ix))
                cur = r.el
                wrapped = False
            else: raise Unsupported('gep into ' + r.k)
        if g.m.res(cur).k == 'arr':
            # address of an array member
            return '((vptr)&%s)' % lv
        return '((vptr)&%s)' % lv

    def sidx(g, v):
        if v.k == 'int': return str(v.v)
        n = v.t.n
        return '(%s)%s' % ({8: 's8', 16: 's16', 32: 's32', 64: 's64'}[n], g.val(v))

    def sgn(g, v):
        n = v.t.n
        c = {8: 's8', 16: 's16', 32: 's32', 64: 's64'}.get(n)
        if n == 1: return '(%s?-1:0)' % g.val(v)
        if c is None: raise Unsupported('signed i%d' % n)
        return '((%s)%s)' % (c, g.val(v))

    # Typed access paths.  A load/store through a chain of GEPs rooted at an alloca (or any pointer)
    # is emitted as one typed lvalue, so CBMC sees array indexing instead of byte arithmetic.
    # Sound in SSA: operands of a GEP keep their values wherever the GEP dominates.
    def teq(g, a, b):
        if a.k != b.k: return False
        if a.k == 'named': return a.name == b.name
        if a.k == 'arr': return a.n == b.n and g.teq(a.el, b.el)
        if a.k == 'struct': return len(a.el) == len(b.el) and all(g.teq(x, y) for x, y in zip(a.el, b.el))
        return a.n == b.n

    def path(g, v):
        """-> (root lvalue text, steps [['f',i]|['i',text]], current type, root type) or None"""
        if v.k != 'reg': return None
        if v.v in g.allocas:
            nm, t = g.allocas[v.v]
            return (nm, [], t, t)
        if v.v not in g.geps: return None
        bt, ops = g.geps[v.v]
        return g.extend(ops[0], bt, ops[1:])

    def extend(g, base, bt, idx):
        zero = idx[0].k == 'int' and idx[0].v == 0
        p = g.path(base)
        if p and bt.k == 'int' and bt.n == 8 and len(idx) == 1 and idx[0].k == 'int':
            q = g.byte_off(p, idx[0].v)
            if q: return q
        if p:
            p = g.descend(p, bt)
        if p and not zero:
            root, st, cur, rt = p
            if st and st[-1][0] == 'i' and g.f_elem_step(p):
                st = st[:-1] + [['i', '(%s + %s)' % (st[-1][1], g.sidx(idx[0]))]]
                p = (root, st, cur, rt)
            else: p = None
        if not p:
            b = g.val(base)
            if bt.k == 'arr':
                if not zero: return None
                p = ('((%s*)%s)' % (g.ctype(bt), b), [['w', None]], bt, bt)
            else:
                off = '' if zero else ' + %s' % g.sidx(idx[0])
                p = ('(*((%s*)%s%s))' % (g.ctype(bt), b, off), [], bt, bt)
        root, st, cur, rt = p
        st = [list(x) for x in st]
        for ix in idx[1:]:
            r = g.m.res(cur)
            if r.k == 'struct': st.append(['f', ix.v]); cur = r.el[ix.v]
            elif r.k == 'arr': st.append(['i', g.sidx(ix)]); cur = r.el
            else: return None
        return (root, st, cur, rt)

    def f_elem_step(g, p): return True

    def normal(g, q):
        """A constant index past the end of a member array addresses the members after it: re-resolve by byte offset."""
        root, st, cur, rt = q
        t = rt; chain = []            # (type before step, step)
        for k, x in st:
            chain.append((t, k, x)); r = g.m.res(t)
            if k == 'f': t = r.el[x]
            elif k == 'i': t = r.el if r.k == 'arr' else t
            elif k == 'w': pass
            else: return None
        for j, (ty, k, x) in enumerate(chain):
            r = g.m.res(ty)
            if k != 'i' or r.k != 'arr' or not re.match(r'^[-0-9+() ]+$', str(x)): continue
            c = eval(str(x))
            if 0 <= c < r.n or j == 0 or chain[j - 1][1] != 'f': continue
            off = c * g.m.size(r.el)
            for ty2, k2, x2 in chain[j + 1:]:
                if k2 == 'f': off += g.m.offset(ty2, x2)
                elif k2 == 'i' and re.match(r'^[-0-9+() ]+$', str(x2)): off += eval(str(x2)) * g.m.size(g.m.res(ty2).el)
                else: return None
            pt = chain[j - 1][0]
            off += g.m.offset(pt, chain[j - 1][2])
            if not 0 <= off < g.m.size(pt): return None
            return g.byte_off((root, st[:j - 1], pt, rt), off)
        return None

    def byte_off(g, p, k):
        root, st, cur, rt = p
        st = [list(x) for x in st]
        try:
            if k < 0 or k >= g.m.size(cur): 
                if st and st[-1][0] == 'i' and g.m.size(cur):
                    st[-1][1] = '(%s + %d)' % (st[-1][1], k // g.m.size(cur)); k %= g.m.size(cur)
                else: return None
            while k:
                r = g.m.res(cur)
                if r.k == 'struct':
                    for i, e in enumerate(r.el):
                        o = g.m.offset(cur, i)
                        if o <= k < o + g.m.size(e): break
                    else: return None
                    st.append(['f', i]); cur = e; k -= o
                elif r.k == 'arr':
                    z = g.m.size(r.el); st.append(['i', str(k // z)]); cur = r.el; k %= z
                elif r.k == 'int' and r.n == 128 and k == 8:
                    st.append(['x', '.hi']); cur = T('int', 64); k = 0
                else: return None
        except Unsupported: return None
        return (root, st, cur, rt)

    def descend(g, p, want):
        root, st, cur, rt = p
        st = [list(x) for x in st]
        for _ in range(12):
            if g.teq(cur, want): return (root, st, cur, rt)
            r = g.m.res(cur)
            if r.k == 'struct' and r.el: st.append(['f', 0]); cur = r.el[0]
            elif r.k == 'arr' and r.n: st.append(['i', '0']); cur = r.el
            elif r.k == 'int' and r.n == 128: st.append(['x', '.lo']); cur = T('int', 64)
            else: return None
        return None

    def lval(g, t, p):
        """typed lvalue for an access of type t through pointer value p, or None"""
        q = g.path(p)
        if not q: return None
        n = g.normal(q)
        q = g.descend(n or q, t)
        if not q: return None
        root, st, cur, rt = q
        for k, x in st:
            if k == 'f': root += '.f%d' % x
            elif k == 'i': root += '[%s]' % x
            elif k == 'x': root += x
            elif k == 'w': root = '%s->e' % root
        return root

    def mem(g, t, p):
        l = g.lval(t, p)
        return l if l else '*(%s*)%s' % (g.memt(t), g.val(p))

    # memory access
    def memt(g, t):
        if t.k == 'int' and t.n == 1: return 'u8'
        return g.ctype(t)
    def load(g, t, p):
        if t.k == 'int' and t.n == 1: return '((%s)&1)' % (g.lval(t, p) or g.lval(T('int', 8), p) or '*(u8*)%s' % g.val(p))
        return g.mem(t, p)

    def inside(g, p):
        """the array indices on the way to an accessed address are within the arrays (also inside an object, where CBMC does not look)"""
        if g.th: return
        for _ in range(8):
            if p.k != 'reg' or p.v not in g.geps: return
            bt, ops = g.geps[p.v]
            t = bt
            for o in ops[2:]:
                r = g.m.res(t)
                if r.k == 'struct': t = r.el[o.v]
                elif r.k == 'arr':
                    t = r.el
                    if o.k == 'int':
                        if r.n and not 0 <= o.v < r.n: g.lines.append('__CPROVER_assert(0, "vf_bounds");')
                    elif r.n: g.lines.append('__CPROVER_assert((u64)%s < %dUL, "vf_bounds");' % (g.sgn(o) if o.t.n < 64 else g.val(o), r.n))
                else: return
            p = ops[0]

    # ---- whole program
    def run(g):
        g.needed = set(); g.work = []
        for r in g.roots: g.need(r)
        protos = []; bodies = []; gdefs = []; seen_ext = set()
        while g.work:
            n = g.work.pop()
            if n in g.m.fns:
                f = g.m.fns[n]
                p, b = g.fn(f)
                protos.append(p); bodies.append(b)
                g.encoded.append(n[1:])
            elif n in g.m.globals:
                t, init, const = g.m.globals[n]
                if t == 'alias': g.gname(n); continue
                gdefs.append((n, t, init))
            elif n in g.m.decls:
                if g.is_builtin(n): continue
                rt, ps, va = g.m.decls[n]
                protos.append(g.proto(n, rt, ps, va) + ';')
            else: raise Unsupported('symbol ' + n)
        g1 = []; g2 = []
        for n, t, init in gdefs:
            d = g.decl(t, g.cname(n))
            if g.i2p_types and init is not None:
                for p in g.i2p_paths(t, g.cname(n)): g.i2p_glob.append('(vptr)&' + p); g.i2p_gty.append(g.i2p_tyof(t, p[len(g.cname(n)):]))
            if init is None:
                g1.append('extern %s;' % d)
            else:
                g1.append('extern %s;' % d)
                g2.append('%s = %s;' % (d, g.ginit(init)))
        # ginit may have requested more symbols
        if g.work:
            return g.run_again()
        cand = g.i2p_vars + g.i2p_glob
        i2p = ''.join('vptr %s;\n' % v for v in g.i2p_vars) + 'vptr vf_i2p(u64 x) {\n#ifdef VF_I2P_RAW\nreturn (vptr)x;\n#else\n' + \
            ''.join('if (x == (u64)%s) return %s;\n' % (c, c) for c in cand) + 'if (x == 0) return (vptr)0;\n__CPROVER_assert(0, "vf_i2p"); return (vptr)0;\n#endif\n}\n'
        decls_i2p = ''.join('extern vptr %s;\n' % v for v in g.i2p_vars)
        bodies = [decls_i2p] + [g.expand_split(b) for b in bodies] + [i2p]
        return PRELUDE + '\n'.join(g.tdefs) + '\n' + '\n'.join(protos) + '\n' + '\n'.join(g1) + '\n' + '\n'.join(g2) + '\n' + '\n'.join(bodies) + '\n'

    def run_again(g):
        extra = list(g.needed)
        roots = list(dict.fromkeys(g.roots + sorted(extra)))
        h = CGen(g.m, g.threads, roots=roots)
        r = h.run(); g.linear = h.linear
        g.encoded = h.encoded; g.nyield = h.nyield; g.plan = h.plan
        return r

    BUILTIN = ('@llvm.', '@vf_nd_u64', '@vf_obs', '@vf_assert', '@vf_assume', '@vf_reach', '@vf_pin', '@vf_cover', '@memcpy', '@memset', '@memmove', '@__assert_fail', '@__cxa_pure_virtual_x')
    def is_builtin(g, n): return n.startswith(g.BUILTIN)

    def proto(g, n, rt, ps, va):
        a = ', '.join('%s a%d' % (g.ctype(t), i) for i, (t, _, _) in enumerate(ps))
        if va: a = (a + ', ...') if a else ''
        return '%s %s(%s)' % (g.ctype(rt), g.gname(n), a or 'void')

    def fn(g, f):
        g.f = f
        th = f.name[1:] in g.threads
        cn = g.gname(f.name)
        g.fpre = 'r%d_' % len(g.encoded)
        g.decls = []
        g.lines = []
        g.yields = 0
        g.th = th
        stat = 'static ' if th else ''
        pa = []
        for t, pn, a in f.params:
            pa.append('%s %s' % (g.ctype(t), g.reg(pn)))
        head = '%s %s(%s)' % (g.ctype(f.rt) if not th else 'void', cn, ', '.join(pa) or 'void')
        if th and (f.params or f.rt.k != 'void'): raise Unsupported('thread function with params')
        for t, pn, a in f.params:
            if 'byval' in a:
                bt = a['byval']
                nm = g.reg(pn) + '_bv'
                g.decls.append('%s;' % g.decl(bt, nm))
                g.lines.append('%s = *(%s*)%s; %s = (vptr)&%s;' % (nm, g.ctype(bt), g.reg(pn), g.reg(pn), nm))
        g.i2pregs = {}
        if g.i2p_types:
            for bn, ins in f.blocks:
                for L in ins:
                    mm = re.match(r'%\S+ = getelementptr .*?(%[^,\s"]+|%"[^"]*"), ptr (%[-\w.$]+), i32 0', L)
                    if mm and any(x.name == mm.group(1) for x in g.i2p_types): g.i2pregs[mm.group(2)] = T('named', name=mm.group(1))
                    mm = re.match(r'(%\S+) = inttoptr i64 \S+ to ptr', L)
                    if mm and len(g.i2p_types) == 1: g.i2pregs[mm.group(1)] = g.i2p_types[0]
            # every load of a pointer field that is used as such a pointer somewhere
            gx = {}; lf = {}
            for bn, ins in f.blocks:
                for L in ins:
                    mm = GEPBASE.match(L)
                    if mm: gx[mm.group(1)] = (mm.group(2), mm.group(4))
                    mm = re.match(r'(%\S+) = load ptr, ptr (%[-\w.$]+)', L)
                    if mm and mm.group(2) in gx: lf[mm.group(1)] = gx[mm.group(2)]
            for r in list(g.i2pregs):
                if r in lf: g.i2pfields[lf[r]] = g.i2pregs[r]
            for r, x in lf.items():
                if x in g.i2pfields: g.i2pregs[r] = g.i2pfields[x]
        # phis
        preds_phi = {}
        g.geps = {}; g.allocas = {}; g.narrow = {}
        g.local_ptrs = set()
        g.gtext = {}; g.own = set(); g.private = set(); g.fixedaddr = set(); g.fixed = set()
        if th:
            g.escape_analysis(f)
            g.private_fields(f)
            g.plan[f.name[1:]] = {}
            for bn, ins in f.blocks:
                for L in ins:
                    mm = GEPRX.match(L)
                    if mm: g.gtext[mm.group(1)] = (mm.group(2), mm.group(3))
        for bn, ins in f.blocks:
            preds_phi[bn] = []
            for L in ins:
                mm = re.match(r'(%\S+|%"[^"]*") = phi ', L)
                if mm:
                    lx = Lex(L); d = lx.next(); lx.next(); lx.next()
                    t = parse_type(lx)
                    inc = []
                    while lx.accept('['):
                        v = parse_value(lx, t); lx.expect(','); b = lx.next(); lx.expect(']')
                        inc.append((v, b))
                        if not lx.accept(','): break
                    preds_phi[bn].append((d, t, inc))
                    g.decls.append('%s%s %s;' % (stat, g.ctype(t), g.reg(d)))
                    g.decls.append('%s%s %s_t;' % (stat, g.ctype(t), g.reg(d)))
        g.preds_phi = preds_phi
        # order blocks: keep given order (LLVM emits roughly RPO); reorder by RPO so that only loops go back
        order = g.rpo(f)
        blocks = {b[0]: b for b in f.blocks}
        front = []
        for bn in order:
            g.lines.append('%s:;' % g.lab(bn))
            g.cur = bn
            nmem = 0; main = None
            for L in blocks[bn][1]:
                if ' = phi ' in L: continue
                if th and MEMOP.match(L): g.slot = g.plan[f.name[1:]].setdefault((bn, nmem), []); nmem += 1
                g.ins(L)
                if th and g.is_forced(L): # what follows is reached from the scheduler only: placed in front, spinning is no loop
                    if main is None: main = g.lines
                    k = g.lines.index('@FORCED')
                    rest = g.lines[k + 1:]; del g.lines[k:]
                    if g.lines is not main: front.append(g.lines)
                    g.lines = rest
            if main is not None: front.append(g.lines); g.lines = main
        body = g.lines
        pro = []
        if th:
            g.nyield[f.name[1:]] = g.yields
            pcn = 'vf_pc_%s' % f.name[1:]
            sw = ''.join('case %d: goto Y%d;' % (i, i) for i in range(1, g.yields + 1))
            pro = ['int %s;' % pcn, '#define VF_PC %s' % pcn]
            front = [x for fr in front for x in fr]
            g.linear[f.name[1:]] = lin = g.forward_only(front, body)
            if not lin: body = ['switch(VF_PC){case 0: goto START; %s default: return;}' % sw] + front + ['START:;'] + body
            else: body = front + ['START:;'] + body
            # registers that never live across a scheduling point are locals
            # (constants of the run - pointers to the objects, the buffer size - are read again in every region)
            remat = {}
            for ln in body:
                mm = re.match(r'(r\d+_\w+) = (.*);$', ln)
                if mm and (mm.group(1) in g.fixed or re.match(r'\(\(vptr\)&\(\*\(\(struct \w+\*\)(r\d+_\w+)\)\)[.\w]*\)$', mm.group(2))):
                    dep = re.findall(r'\br\d+_\w+', mm.group(2))
                    if all(x in remat for x in dep): remat[mm.group(1)] = (mm.group(2), dep)
            if remat:
                nb = []; cur = []; used = []
                def flush():
                    need = []
                    def add(r):
                        if r in need: return
                        for x in remat[r][1]: add(x)
                        need.append(r)
                    for r in used: add(r)
                    nb.extend('%s = %s;' % (r, remat[r][0]) for r in need); nb.extend(cur); cur.clear(); used.clear()
                for ln in body:
                    if re.match(r'(B_\w+|Y\d+|START):;', ln) or 'vf_yield(' in ln: flush(); nb.append(ln); continue
                    mm = re.match(r'(r\d+_\w+) = ', ln)
                    if mm and mm.group(1) in remat: continue
                    used += [r for r in re.findall(r'\br\d+_\w+', ln) if r in remat]
                    cur.append(ln)
                flush(); body = nb
            reg_of = {}; region = 0; multi = set()
            for ln in body:
                if re.match(r'(B_\w+|Y\d+|START):;', ln) or 'vf_yield(' in ln: region += 1
                for r in set(re.findall(r'\br\d+_\w+', ln)):
                    if reg_of.setdefault(r, region) != region: multi.add(r)
            loc = []
            for i, dl in enumerate(g.decls):
                mm = re.match(r'static (\w[\w ]*?\*?) (r\d+_\w+);$', dl)
                if mm and mm.group(2) in reg_of and (mm.group(2) not in multi or mm.group(2) in remat) and not mm.group(2).endswith('_m'): loc.append(dl[7:]); g.decls[i] = ''
            if lin: body = g.linearize(body)
            text = '\n'.join(pro) + '\n' + '\n'.join(g.decls) + '\n' + head + ' {\n' + ' '.join(loc) + '\n'.join(body) + '\n}\n#undef VF_PC\n'
            return head + ';\nextern int %s;' % pcn, text
        return head + ';', head + ' {\n' + '\n'.join(g.decls) + '\n' + '\n'.join(body) + '\n}\n'

    def forward_only(g, front, body):
        seen = set()
        for ln in body:
            mm = re.match(r'(B_\w+):;', ln)
            if mm: seen.add(mm.group(1))
            elif any(x in seen for x in re.findall(r'goto (B_\w+)', ln)): return False
        return not any(re.match(r'B_\w+:;', ln) for ln in front)

    def linearize(g, body):
        """A segment is [pc, cs): the code between two cuts (labels and scheduling points, numbered in code order) runs
        iff pc <= cut < cs; cs is chosen when the segment starts.  Jumps go forward only and never across cs."""
        num = {}; ynum = {}; n = 0; s = body.index('START:;')
        for ln in body[s + 1:]:
            mm = re.match(r'(B_\w+):;', ln)
            if mm: n += 1; num[mm.group(1)] = n; continue
            mm = re.match(r'if \(vf_yield\(\d+,(\d+)\)\)', ln)
            if mm: n += 1; ynum[int(mm.group(1))] = n
        end = n + 1
        out = ['int pc = VF_PC, cs, k = vf_cs();', 'switch(k){ case 0: cs = %d; break; %s default: cs = 0; __CPROVER_assume(0); }' %
               (end, ' '.join('case %d: cs = %d; break;' % x for x in ynum.items()))]
        out += ['if (pc == %d) return;' % end, '__CPROVER_assume(cs >= pc);', 'VF_PC = cs;']
        def jumps(ln): return re.sub(r'goto (B_\w+);', lambda m: '__CPROVER_assume(cs > %d); goto %s;' % (num[m.group(1)], m.group(1)), ln)
        fr = body[:s]; i = 0
        while i < len(fr):
            k = int(re.match(r'Y(\d+):;', fr[i]).group(1)); j = i + 1
            while j < len(fr) and not re.match(r'Y\d+:;', fr[j]): j += 1
            out.append('if (pc == -%d) { pc = 0;' % k); out += [jumps(x) for x in fr[i + 1:j]]; out.append('}'); i = j
        n = 0
        for ln in body[s + 1:]:
            if re.match(r'B_\w+:;', ln) or 'vf_yield(' in ln:
                n += 1
                out.append('%s C%d:; if (!(pc <= %d && %d < cs)) goto C%d;' % (ln if ln.startswith('B_') else '', n, n, n, n + 1)); continue
            ln = re.sub(r'^\{ VF_PC=(\d+); return; \}', lambda m: 'VF_PC = -%s; cs = 0; goto C%d;' % (m.group(1), n + 1), ln)
            ln = ln.replace('VF_PC=-1; return;', 'VF_PC = %d; cs = 0; goto C%d;' % (end, n + 1))
            if 'return' in ln: raise Unsupported('return in a thread')
            out.append(jumps(ln))
        out.append('C%d:;' % end)
        return out

    def is_forced(g, L): return bool(re.match(r'(%\S+ = )?(tail |notail |musttail )?call .*@sched_yield\(', L))

    def lab(g, b):
        return 'B_' + g.cname(b, g.fpre + 'L')

    def succs(g, f, ins):
        L = ins[-1]
        return re.findall(r'label (%"[^"]*"|%[-\w.$]+)', L)

    def rpo(g, f):
        """Topological order in which the blocks of every loop are contiguous: code after a loop placed before
        the loop's latch would be executed once per unwound iteration."""
        succ = {b: g.succs(f, i) for b, i in f.blocks}
        entry = f.blocks[0][0]
        if g.th:
            for b, i in f.blocks:
                if any(g.is_forced(L) for L in i):
                    if b == entry: raise Unsupported('sched_yield in the entry block')
                    succ[entry] = succ[entry] + succ[b]; succ[b] = []
        def dfs(nodes, roots, edge):
            seen = set(); post = []
            for r in roots:
                if r in seen: continue
                seen.add(r); st = [(r, iter(succ[r]))]
                while st:
                    b, it = st[-1]
                    for s in it:
                        if s in nodes and s not in seen and edge(b, s):
                            seen.add(s); st.append((s, iter(succ[s]))); break
                    else:
                        post.append(b); st.pop()
            return post[::-1]
        def order(nodes, entry, banned):
            # nodes reachable from entry without the edges into banned headers
            ok = lambda a, b: b not in banned
            rp = dfs(nodes, [entry], ok)
            nodes = set(rp)
            # strongly connected components (Kosaraju)
            pred = {b: [] for b in nodes}
            for a in rp:
                for b in succ[a]:
                    if b in nodes and ok(a, b): pred[b].append(a)
            comp = {}; comps = []
            for r in rp:
                if r in comp: continue
                c = []; st = [r]; comp[r] = len(comps)
                while st:
                    x = st.pop(); c.append(x)
                    for y in pred[x]:
                        if y not in comp: comp[y] = len(comps); st.append(y)
                comps.append(c)
            # topological order of the components: DFS over the condensation, first successor first
            csucc = [[] for _ in comps]
            for a in rp:
                for b in succ[a]:
                    if b in nodes and ok(a, b) and comp[a] != comp[b] and comp[b] not in csucc[comp[a]]: csucc[comp[a]].append(comp[b])
            seen = {comp[entry]}; post = []; st = [(comp[entry], iter(csucc[comp[entry]]))]
            while st:
                c, it = st[-1]
                for d in it:
                    if d not in seen: seen.add(d); st.append((d, iter(csucc[d]))); break
                else: post.append(c); st.pop()
            out = []
            for c in post[::-1]:
                blk = comps[c]
                if len(blk) == 1 and not any(s == blk[0] for s in succ[blk[0]]): out += blk; continue
                hs = [b for b in rp if comp[b] == c and (b == entry or any(comp.get(a) != c for a in pred[b]))]
                h = hs[0] if hs else blk[0]
                if len(blk) == 1: out += blk
                else: out += order(set(blk), h, banned | {h})
            return out
        return order(set(succ), entry, set())

    def escape_analysis(g, f):
        """Pointers derived from allocas that never escape are thread-local."""
        allocas = set(); derived = {}
        esc = set()
        for b, ins in f.blocks:
            for L in ins:
                mm = re.match(r'(%\S+) = alloca ', L)
                if mm: allocas.add(mm.group(1)); derived[mm.group(1)] = mm.group(1); continue
                mm = re.match(r'(%\S+) = getelementptr (?:inbounds )?.*?, ptr (%[-\w.$]+)', L)
                if mm and mm.group(2) in derived: derived[mm.group(1)] = derived[mm.group(2)]; continue
        for b, ins in f.blocks:
            for L in ins:
                if re.match(r'%\S+ = (alloca|getelementptr|load|icmp)', L) : continue
                if 'llvm.lifetime' in L or 'llvm.memcpy' in L or 'llvm.memset' in L: continue
                mm = re.match(r'store (.*), ptr (%[-\w.$]+)', L)
                if mm:
                    for r in re.findall(r'ptr (%[-\w.$]+)', mm.group(1)):
                        if r in derived: esc.add(derived[r])
                    continue
                for r in re.findall(r'(%[-\w.$]+)', L):
                    if r in derived and not L.startswith(r + ' ='): esc.add(derived[r])
        # pointers passed to external stubs (clock etc.) stay local: treat calls to declared fns as non-escaping
        g.local_ptrs = {r for r, a in derived.items() if a not in esc}

    def private_fields(g, f):
        """Fields of an object only this thread gets a pointer to (loaded from a global no other thread function mentions)
        whose address is used for nothing but loads and stores."""
        g.private = set(); g.own = set()
        if not g.th: return
        others = ' '.join(L for n in g.threads if '@' + n != f.name and '@' + n in g.m.fns for _, ins in g.m.fns['@' + n].blocks for L in ins)
        # scalar globals no other thread function mentions
        g.own = {n for b, ins in f.blocks for L in ins for n in re.findall(r'(?:load|store) .*ptr (@[-\w.$]+), align', L) if not re.search(re.escape(n) + r'(?![-\w.$])', others)}
        for b, ins in f.blocks:
            for L in ins:
                use = re.sub(r'ptr @[-\w.$]+, align', '', L) if re.match(r'(%\S+ = load|store) ', L) else L
                g.own -= set(re.findall(r'@[-\w.$]+', use))
        base = {}; addr = {}
        for b, ins in f.blocks:
            for L in ins:
                mm = re.match(r'(%\S+) = load ptr, ptr (@[-\w.$]+)', L)
                if mm and not re.search(re.escape(mm.group(2)) + r'(?![-\w.$])', others):
                    base[mm.group(1)] = mm.group(2); addr[mm.group(1)] = (mm.group(2),)
                mm = GEPBASE.match(L)
                if mm and mm.group(3) in base: addr[mm.group(1)] = (base[mm.group(3)],) if mm.group(4).endswith(', i32 0') else (base[mm.group(3)], mm.group(2), mm.group(4))
        bad = set()
        for b, ins in f.blocks:
            for L in ins:
                use = L.split(' = ', 1)[1] if re.match(r'%\S+ = ', L) else L
                if re.match(r'getelementptr', use):
                    mm = re.search(r', ptr (%[-\w.$]+)', use)
                    if mm and mm.group(1) in addr and not (mm.group(1) in base and GEPBASE.match(L)): bad.add(addr[mm.group(1)])
                    continue
                am = re.match(r'(?:load|store) .*ptr (%[-\w.$]+), align', use)
                for r in re.findall(r'%[-\w.$]+', use):
                    if r in addr and not (am and am.group(1) == r and use.count(r + ',') == 1): bad.add(addr[r])
        g.private = {r for r, a in addr.items() if a not in bad}
        stored = {addr[r] for b, ins in f.blocks for L in ins for r in re.findall(r'^store .*ptr (%[-\w.$]+), align', L) if r in addr}
        g.fixedaddr = {r for r in g.private if addr[r] not in stored}

    def is_shared(g, v):
        return not (v.k == 'reg' and (v.v in g.local_ptrs or v.v in g.private))

    def yieldpt(g, kind):
        if not g.th: return
        g.yields += 1
        k = g.yields
        if kind < 9: g.lines.append('if (vf_yield(%d,%d)) { VF_PC=%d; return; } Y%d:;' % (kind, k, k, k))
        else: g.lines += ['{ VF_PC=%d; return; }' % k, '@FORCED', 'Y%d:;' % k]
        g.slot.append(('pt', kind, k))
        return k

    def edge(g, to):
        ph = g.preds_phi[to]
        if ph:
            a = []; b = []
            for d, t, inc in ph:
                for v, blk in inc:
                    if blk == g.cur:
                        if v.k == 'undef' and (t.k in ('int', 'ptr')) and not (t.k == 'int' and t.n > 64):
                            a.append('%s_t = %s;' % (g.reg(d), g.const(v)))
                        else:
                            a.append('%s_t = %s;' % (g.reg(d), g.val(v)))
                        b.append('%s = %s_t;' % (g.reg(d), g.reg(d)))
                        break
                else: raise Unsupported('phi edge')
            if len(a) == 1:
                a = [a[0].replace('_t = ', ' = ', 1)]; b = []
            return ' '.join(a + b) + ' goto %s;' % g.lab(to)
        return 'goto %s;' % g.lab(to)

    def set(g, d, t, e):
        g.decls.append('%s%s %s;' % ('static ' if g.th else '', g.ctype(t), g.reg(d)))
        g.lines.append('%s = %s;' % (g.reg(d), e))

    def ins(g, L):
        # strip metadata
        meta = dict(re.findall(r', !([\w.]+) (!\d+)', L))
        L = re.sub(r'(, ![\w.]+ !\d+)+\s*$', '', L)
        L = re.sub(r' #\d+\s*$', '', L)
        lx = Lex(L)
        d = None
        if lx.peek().startswith('%') and lx.peek(1) == '=':
            d = lx.next(); lx.next()
        op = lx.next()
        m = g.m
        if op == 'ret':
            if g.th:
                g.lines.append('VF_PC=-1; return;'); return
            if lx.peek() == 'void': g.lines.append('return;'); return
            v = parse_tv(lx)
            if v.k == 'undef' and v.t.k not in ('int', 'ptr'):
                g.lines.append('{ %s z; return z; }' % g.ctype(v.t))
            else: g.lines.append('return %s;' % g.val(v))
            return
        if op == 'br':
            if lx.peek() == 'label':
                lx.next(); g.lines.append(g.edge(lx.next())); return
            c = parse_tv(lx); lx.expect(','); lx.expect('label'); a = lx.next(); lx.expect(','); lx.expect('label'); b = lx.next()
            g.lines.append('if (%s) { %s } else { %s }' % (g.val(c), g.edge(a), g.edge(b))); return
        if op == 'switch':
            v = parse_tv(lx); lx.expect(','); lx.expect('label'); dflt = lx.next(); lx.expect('[')
            s = []
            while not lx.accept(']'):
                c = parse_tv(lx); lx.expect(','); lx.expect('label'); b = lx.next()
                s.append('if (%s == %s) { %s }' % (g.val(v), g.val(c), g.edge(b)))
            s.append('{ %s }' % g.edge(dflt))
            g.lines.append(' else '.join(s)); return
        if op == 'unreachable':
            g.lines.append('__CPROVER_assume(0);'); 
            if g.f.rt.k != 'void' and not g.th:
                g.lines.append('{ %s z; return z; }' % g.ctype(g.f.rt))
            else: g.lines.append('return;')
            return
        if op == 'alloca':
            lx.accept('inalloca')
            t = parse_type(lx)
            n = None
            while lx.accept(','):
                if lx.peek() == 'align': break
                c = parse_tv(lx)
                if c.k != 'int': raise Unsupported('VLA')
                n = c.v
            nm = g.reg(d) + '_m'
            if n and n != 1: g.decls.append('%s%s;' % ('static ' if g.th else '', g.decl(t, nm + '[%d]' % n)))
            else: g.decls.append('%s%s;' % ('static ' if g.th else '', g.decl(t, nm)))
            g.set(d, T('ptr'), '(vptr)&' + nm)
            for p in g.i2p_paths(t if not (n and n != 1) else T('arr', n, t), nm) if g.i2p_types else ():
                v = 'vf_c%d' % len(g.i2p_vars); g.i2p_vars.append(v); g.i2p_ty.append(g.i2p_tyof(T('arr', n, t) if n and n != 1 else t, p[len(nm):]))
                g.lines.append('%s = (vptr)&%s;' % (v, p))
            if not (n and n != 1): g.allocas[d] = (nm, t)
            return
        if op == 'load':
            at = lx.accept('atomic'); lx.accept('volatile')
            t = parse_type(lx); lx.expect(','); p = parse_tv(lx)
            if at or (g.is_shared(p) and not g.is_frozen(p)): g.yieldpt(2 if at else 0)
            if not at and th_fixed(g, p): g.fixed.add(g.reg(d))
            g.inside(p)
            sp = g.split(t, p)
            if sp and not (t.k == 'int' and t.n == 1):
                g.set(d, t, '0'); l = g.lines.pop(); x = l.split(' = ')[0]
                g.lines.append('@@LD|%s|%s|%s|%s|%s@@' % (sp + (x, '%s = %s;' % (x, g.load(t, p))))); return
            g.set(d, t, g.load(t, p)); return
        if op == 'store':
            at = lx.accept('atomic'); lx.accept('volatile')
            v = parse_tv(lx); lx.expect(','); p = parse_tv(lx)
            if v.k == 'undef': return
            if at or (g.is_shared(p) and not (p.k == 'glob' and p.v in g.own)): g.yieldpt(3 if at else 1)
            g.inside(p)
            sp = g.split(v.t, p)
            if sp:
                g.lines.append('@@ST|%s|%s|%s|%s|%s@@' % (sp + (g.val(v), '%s = %s;' % (g.mem(v.t, p), g.val(v))))); return
            g.lines.append('%s = %s;' % (g.mem(v.t, p), g.val(v))); return
        if op == 'getelementptr':
            while lx.peek() in ('inbounds', 'nusw', 'nuw'): lx.next()
            bt = parse_type(lx); ops = []
            while lx.accept(','): ops.append(parse_tv(lx))
            g.set(d, T('ptr'), g.gep(bt, ops, None)); g.geps[d] = (bt, ops); return
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            while lx.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): lx.next()
            t = parse_type(lx); a = parse_value(lx, t); lx.expect(','); b = parse_value(lx, t)
            g.set(d, t, g.arith(op, t, a, b)); return
        if op == 'icmp':
            p = lx.next(); t = parse_type(lx); a = parse_value(lx, t); lx.expect(','); b = parse_value(lx, t)
            g.set(d, T('int', 1), g.icmp(p, t, a, b)); return
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            while lx.peek() in ('nneg', 'nuw', 'nsw'): lx.next()
            v = parse_tv(lx); lx.expect('to'); t = parse_type(lx)
            if op == 'zext': g.narrow[d] = v.t.n
            g.set(d, t, g.cast(op, v, t)); return
        if op == 'select':
            c = parse_tv(lx); lx.expect(','); a = parse_tv(lx); lx.expect(','); b = parse_tv(lx)
            g.set(d, a.t, '%s ? %s : %s' % (g.val(c), g.val(a), g.val(b))); return
        if op == 'freeze':
            v = parse_tv(lx); g.set(d, v.t, g.val(v)); return
        if op == 'extractvalue':
            v = parse_tv(lx); t = v.t; e = g.val(v)
            while lx.accept(','):
                i = int(lx.next()); r = m.res(t)
                if r.k == 'struct': e += '.f%d' % i; t = r.el[i]
                else: e += '.e[%d]' % i; t = r.el
            g.set(d, t, e); return
        if op == 'insertvalue':
            v = parse_tv(lx); lx.expect(','); x = parse_tv(lx); path = ''; t = v.t
            while lx.accept(','):
                i = int(lx.next()); r = m.res(t)
                if r.k == 'struct': path += '.f%d' % i; t = r.el[i]
                else: path += '.e[%d]' % i; t = r.el
            g.decls.append('%s%s %s;' % ('static ' if g.th else '', g.ctype(v.t), g.reg(d)))
            if v.k != 'undef': g.lines.append('%s = %s;' % (g.reg(d), g.val(v)))
            if x.k != 'undef': g.lines.append('%s%s = %s;' % (g.reg(d), path, g.val(x)))
            return
        if op == 'cmpxchg':
            lx.accept('weak'); lx.accept('volatile')
            p = parse_tv(lx); lx.expect(','); c = parse_tv(lx); lx.expect(','); n = parse_tv(lx)
            if g.is_shared(p): g.yieldpt(3)
            rt = T('struct', el=[c.t, T('int', 1)])
            g.decls.append('%s%s %s;' % ('static ' if g.th else '', g.ctype(rt), g.reg(d)))
            R = g.reg(d)
            ct = g.memt(c.t)
            P = g.mem(c.t, p)
            g.lines.append('%s.f0 = %s;' % (R, P))
            if c.t.k == 'int' and c.t.n == 128:
                g.lines.append('%s.f1 = %s.f0.lo == %s.lo && %s.f0.hi == %s.hi;' % (R, R, g.val(c), R, g.val(c)))
            else:
                g.lines.append('%s.f1 = %s.f0 == %s;' % (R, R, g.val(c)))
            g.lines.append('if (%s.f1) %s = %s;' % (R, P, g.val(n))); return
        if op == 'atomicrmw':
            lx.accept('volatile')
            o = lx.next(); p = parse_tv(lx); lx.expect(','); x = parse_tv(lx)
            if g.is_shared(p): g.yieldpt(3)
            P = g.mem(x.t, p)
            g.set(d, x.t, P)
            R = g.reg(d); X = g.val(x)
            e = {'add': '%s + %s', 'sub': '%s - %s', 'and': '%s & %s', 'or': '%s | %s', 'xor': '%s ^ %s', 'xchg': None}.get(o, 0)
            if e == 0: raise Unsupported('atomicrmw ' + o)
            g.lines.append('%s = %s;' % (P, X if e is None else e % (R, X))); return
        if op == 'fence': return
        if op in ('tail', 'musttail', 'notail'):
            op = lx.next()
        if op == 'call':
            return g.call(d, lx, meta)
        raise Unsupported('instruction ' + L)

    def arith(g, op, t, a, b):
        A, B = g.val(a), g.val(b)
        if t.n == 128:
            if op == 'lshr' and b.k == 'int' and b.v == 64: return '(vf_i128){%s.hi,0}' % A
            if op == 'shl' and b.k == 'int' and b.v == 64: return '(vf_i128){0,%s.lo}' % A
            if op in ('or', 'and', 'xor'):
                o = {'or': '|', 'and': '&', 'xor': '^'}[op]
                # keep pointer tracking through "zext(lo) | hi<<64": drop literal-zero halves
                return '(vf_i128){%s.lo %s %s.lo, %s.hi %s %s.hi}' % (A, o, B, A, o, B)
            raise Unsupported('i128 ' + op)
        c = g.ctype(t)
        if t.n == 1:
            o = {'add': '^', 'sub': '^', 'mul': '&', 'and': '&', 'or': '|', 'xor': '^'}.get(op)
            if not o: raise Unsupported('i1 ' + op)
            return '(_Bool)(%s %s %s)' % (A, o, B)
        mask = '' if t.n in (8, 16, 32, 64) else ' & %dUL' % ((1 << t.n) - 1)
        if op in ('udiv', 'urem') and b.k == 'int' and b.v > 0 and not mask: # narrow divider, one circuit for / and %
            n = c
            if t.n == 64 and a.k == 'reg' and g.narrow.get(a.v, 64) <= 32 and b.v < 1 << 32:
                n, A, B = 'u32', '((u32)%s)' % A, '((u32)%dU)' % b.v
            return '(%s)(%s / %s)' % (c, A, B) if op == 'udiv' else '(%s)(%s)(%s - (%s / %s) * %s)' % (c, n, A, A, B, B)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'udiv', 'urem'):
            o = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^', 'udiv': '/', 'urem': '%'}[op]
            return '(%s)((%s %s %s)%s)' % (c, A, o, B, mask)
        if mask: raise Unsupported('odd width ' + op)
        if op == 'srem' and b.k == 'int' and b.v not in (0, -1, (1 << t.n) - 1): # one divider circuit for / and %
            return '(%s)(%s - (%s / %s) * %s)' % (c, g.sgn(a), g.sgn(a), g.sgn(b), g.sgn(b))
        if op == 'shl': return '(%s)(%s << %s)' % (c, A, B)
        if op == 'lshr': return '(%s)(%s >> %s)' % (c, A, B)
        if op == 'ashr': return '(%s)(%s >> %s)' % (c, g.sgn(a), B)
        if op == 'sdiv': return '(%s)(%s / %s)' % (c, g.sgn(a), g.sgn(b))
        if op == 'srem': return '(%s)(%s %% %s)' % (c, g.sgn(a), g.sgn(b))

    def icmp(g, p, t, a, b):
        A, B = g.val(a), g.val(b)
        if t.k == 'int' and t.n == 128:
            if p == 'eq': return '%s.lo == %s.lo && %s.hi == %s.hi' % (A, B, A, B)
            if p == 'ne': return '!(%s.lo == %s.lo && %s.hi == %s.hi)' % (A, B, A, B)
            raise Unsupported('i128 icmp')
        o = {'eq': '==', 'ne': '!=', 'ugt': '>', 'uge': '>=', 'ult': '<', 'ule': '<=', 'sgt': '>', 'sge': '>=', 'slt': '<', 'sle': '<='}[p]
        if p[0] == 's' :
            if t.n not in (8, 16, 32, 64): raise Unsupported('odd signed cmp')
            return '%s %s %s' % (g.sgn(a), o, g.sgn(b))
        return '%s %s %s' % (A, o, B)

    def cast(g, op, v, t):
        A = g.val(v)
        f = v.t
        if f.k == 'int' and f.n == 128:
            if op == 'trunc' and t.n <= 64: return '(%s)%s.lo' % (g.ctype(t), A)
            raise Unsupported('cast from i128')
        if t.k == 'int' and t.n == 128:
            if op == 'zext': return '(vf_i128){(u64)%s,0}' % A
            raise Unsupported('cast to i128')
        if op == 'trunc':
            if t.n == 1: return '(_Bool)(%s & 1)' % A
            if t.n not in (8, 16, 32, 64): return '(%s)(%s & %dUL)' % (g.ctype(t), A, (1 << t.n) - 1)
            return '(%s)%s' % (g.ctype(t), A)
        if op == 'zext': return '(%s)%s' % (g.ctype(t), A)
        if op == 'sext':
            if f.n == 1: return '%s ? (%s)-1 : (%s)0' % (A, g.ctype(t), g.ctype(t))
            return '(%s)%s' % (g.ctype(t), g.sgn(v))
        if op == 'ptrtoint': return '(%s)(u64)%s' % (g.ctype(t), A)
        if op == 'inttoptr': return ('vf_i2p(%s)' if g.i2p_types and f.n == 64 else '(vptr)%s') % A
        if op == 'bitcast': return A
        raise Unsupported(op)

    def call(g, d, lx, meta):
        skip_attrs(lx)
        rt = parse_type(lx); skip_attrs(lx)
        va = False
        if lx.peek() == '(' :
            # function type: R (A...) callee
            dep = 0
            while True:
                x = lx.next()
                if x == '(': dep += 1
                elif x == ')':
                    dep -= 1
                    if dep == 0: break
            va = True
        callee = lx.next()
        if callee == 'asm':
            rest = ' '.join(lx.t[lx.i:])
            if re.match(r'sideeffect "" ?', rest) or '""' in rest[:20]: return
            raise Unsupported('inline asm')
        lx.expect('(')
        args = []
        if not lx.accept(')'):
            while True:
                args.append(parse_tv(lx))
                if lx.accept(')'): break
                lx.expect(',')
        if callee.startswith('@llvm.'):
            return g.intrinsic(d, callee, rt, args, meta)
        if callee.startswith('%'):
            ft = '%s(*)(%s)' % (g.ctype(rt), ','.join(g.ctype(a.t) for a in args) or 'void')
            e = '((%s)%s)(%s)' % (ft, g.reg(callee), ', '.join(g.val(a) for a in args))
            if rt.k == 'void' or d is None: g.lines.append(e + ';')
            else: g.set(d, rt, e)
            return
        n = callee[1:]
        if n == 'vf_assert':
            tag = args[1].v if args[1].k == 'int' else 'dyn'
            g.lines.append('__CPROVER_assert(%s, "vf:%s");' % (g.val(args[0]), tag)); return
        if n == 'vf_assume':
            g.lines.append('__CPROVER_assume(%s);' % g.val(args[0])); return
        if n == 'vf_pin':
            c = g.val(args[0])
            g.lines.append('\n#ifndef VF_I2P_RAW\n__CPROVER_assert(%s, "vf_i2p"); __CPROVER_assume(%s);\n#endif\n' % (c, c))
            g.set(d, rt, 'VF_PIN(%s)' % c)
            return
        if n == 'vf_reach':
            tag = args[0].v if args[0].k == 'int' else 'dyn'
            g.lines.append('__CPROVER_assert(0, "reach:%s");' % tag); return
        if n == '__assert_fail':
            g.lines.append('__CPROVER_assert(0, "assert_fail"); __CPROVER_assume(0);'); return
        if n == 'sched_yield' and g.th: # the scheduler decides
            g.yieldpt(9)
            if d: g.set(d, rt, '0')
            return
        if n in ('memcpy', 'memmove'):
            if g.th: raise Unsupported('memcpy call in a thread')
            g.inside(args[0]); g.inside(args[1])
            g.mc_s = g.is_shared(args[1]); g.mc_d = g.is_shared(args[0])
            if g.typed_copy(args[0], args[1], args[2]):
                if d: g.set(d, rt, g.val(args[0]))
                return
            g.memcpy(g.val(args[0]), g.val(args[1]), args[2], None)
            if d: g.set(d, rt, g.val(args[0]))
            return
        if n == 'memset':
            g.memset(g.val(args[0]), args[1], args[2])
            if d: g.set(d, rt, g.val(args[0]))
            return
        e = '%s(%s)' % (g.gname(callee), ', '.join(g.val(a) for a in args))
        if rt.k == 'void' or d is None: g.lines.append(e + ';')
        else: g.set(d, rt, e)

    def memset(g, dst, val, size):
        if size.k != 'int': raise Unsupported('memset of symbolic size')
        o = 0; n = size.v
        b = '((u64)%s)' % g.val(val)
        rep = '(%s * 0x0101010101010101UL)' % b
        if n > 4096: raise Unsupported('memset too large')
        while o < n:
            for sz, ct in ((8, 'u64'), (4, 'u32'), (2, 'u16'), (1, 'u8')):
                if o + sz <= n and o % sz == 0: break
            g.lines.append('*(%s*)(%s + %d) = (%s)%s;' % (ct, dst, o, ct, rep))
            o += sz

    def sized(g, v, n):
        """access path of v descended to a struct of n bytes -> (path, type)"""
        p = g.path(v)
        if not p: return None
        root, st, cur, rt = p
        st = [list(x) for x in st]
        for _ in range(12):
            try: sz = g.m.size(cur)
            except Exception: return None
            r = g.m.res(cur)
            if sz == n and r.k != 'arr': return ((root, st, cur, rt), cur)
            if sz < n: return None
            if r.k == 'struct' and r.el: st.append(['f', 0]); cur = r.el[0]
            elif r.k == 'arr' and r.n: st.append(['i', '0']); cur = r.el
            else: return None
        return None

    def scalars(g, t):
        r = g.m.res(t)
        if r.k == 'struct':
            return [('.f%d%s' % (i, x), y) for i, e in enumerate(r.el) for x, y in g.scalars(e)]
        if r.k == 'arr':
            return [('[%d]%s' % (i, x), y) for i in range(r.n) for x, y in g.scalars(r.el)]
        return [('', t)]

    def typed_copy(g, d, s, size):
        if size.k != 'int' or size.v == 0: return False
        a, b = g.sized(d, size.v), g.sized(s, size.v)
        t = (a or b)
        if not t: return False
        t = t[1]
        if a and b and not g.teq(a[1], b[1]):
            return False
        if g.m.res(t).k not in ('struct', 'int', 'ptr'): return False
        dl = g.lval(t, d) if a else '(*(%s*)%s)' % (g.ctype(t), g.val(d))
        sl = g.lval(t, s) if b else '(*(%s*)%s)' % (g.ctype(t), g.val(s))
        sd, ss = g.split_lv(dl), g.split_lv(sl)
        def ld(x, p):
            y = '%s = %s%s;' % (x, sl, p)
            return '@@LD|%s|%s|%s|%s|%s@@' % (ss[0], ss[1], ss[2] + p, x, y) if ss else y
        def st_(x, p):
            y = '%s%s = %s;' % (dl, p, x)
            return '@@ST|%s|%s|%s|%s|%s@@' % (sd[0], sd[1], sd[2] + p, x, y) if sd else y
        if not g.th:
            if not sd and not ss: g.lines.append('%s = %s;' % (dl, sl)); return True
            names = []
            for p, st in g.scalars(t):
                nm = 'mc%s_%d' % (g.fpre, len(g.decls)); names.append((nm, p))
                g.decls.append('%s %s;' % (g.memt(st), nm)); g.lines.append(ld(nm, p))
            for nm, p in names: g.lines.append(st_(nm, p))
            return True
        off = 0
        for p, st in g.scalars(t):
            ct = g.memt(st)
            nm = 'mc%s_%d' % (g.fpre, len(g.decls))
            g.decls.append('static %s %s;' % (ct, nm))
            al = g.m.align(st); off = (off + al - 1) // al * al; z = g.m.size(st)
            g.slot.append(('cp', off, z)); off += z
            if g.mc_s: g.yieldpt(0)
            g.lines.append(ld(nm, p))
            g.slot.append(('wr',))
            if g.mc_d: g.yieldpt(1)
            g.lines.append(st_(nm, p))
        return True

    def split_lv(g, l):
        mm = re.match(r'\(\*\(\((struct \w+)\*\)(r\w+)\)\)(\..*)$', l)
        return (mm.group(2), mm.group(1), mm.group(3)) if mm and any(g.ctype(x) == mm.group(1) for x in g.i2p_types) else None

    def memcpy(g, dst, src, size, layout):
        if size.k != 'int': raise Unsupported('memcpy of symbolic size')
        n = size.v
        chunks = []
        if layout:
            for o, s in layout:
                if s in (1, 2, 4, 8): chunks.append((o, s))
                else:
                    p = o
                    while p < o + s:
                        for sz in (8, 4, 2, 1):
                            if p + sz <= o + s and p % sz == 0: break
                        chunks.append((p, sz)); p += sz
        else:
            o = 0
            if n > 8192: raise Unsupported('memcpy too large')
            while o < n:
                for sz in (8, 4, 2, 1):
                    if o + sz <= n and o % sz == 0: break
                chunks.append((o, sz)); o += sz
        ct = {1: 'u8', 2: 'u16', 4: 'u32', 8: 'u64'}
        if not g.th:
            # read everything first (memmove semantics)
            names = []
            for i, (o, s) in enumerate(chunks):
                if len(chunks) == 1:
                    g.lines.append('*(%s*)(%s + %d) = *(%s*)(%s + %d);' % (ct[s], dst, o, ct[s], src, o))
                    return
            g.lines.append('{ ' + ' '.join('%s mc%d = *(%s*)(%s + %d);' % (ct[s], i, ct[s], src, o) for i, (o, s) in enumerate(chunks))
                           + ' ' + ' '.join('*(%s*)(%s + %d) = mc%d;' % (ct[s], dst, o, i) for i, (o, s) in enumerate(chunks)) + ' }')
        else:
            for o, s in chunks:
                nm = 'mc%s_%d' % (g.fpre, len(g.decls))
                g.decls.append('static %s %s;' % (ct[s], nm))
                g.slot.append(('cp', o, s))
                if g.mc_s: g.yieldpt(0)
                g.lines.append('%s = *(%s*)(%s + %d);' % (nm, ct[s], src, o))
                g.slot.append(('wr',))
                if g.mc_d: g.yieldpt(1)
                g.lines.append('*(%s*)(%s + %d) = %s;' % (ct[s], dst, o, nm))

    def intrinsic(g, d, callee, rt, args, meta):
        n = callee[6:]
        if n.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'donothing', 'prefetch', 'stacksave', 'stackrestore', 'invariant')): 
            if d: g.set(d, rt, '0')
            return
        if n.startswith(('memcpy', 'memmove')):
            lay = g.m.tbaa_struct.get(meta.get('tbaa.struct', ''))
            g.inside(args[0]); g.inside(args[1])
            g.mc_s = g.is_shared(args[1]); g.mc_d = g.is_shared(args[0])
            if g.typed_copy(args[0], args[1], args[2]): return
            g.memcpy(g.val(args[0]), g.val(args[1]), args[2], lay); return
        if n.startswith('memset'):
            g.memset(g.val(args[0]), args[1], args[2]); return
        A = [g.val(a) for a in args if a.t.k != 'metadata']
        if n.startswith('expect'): g.set(d, rt, A[0]); return
        if n.startswith(('umax', 'umin')):
            o = '>' if 'umax' in n else '<'
            g.set(d, rt, '%s %s %s ? %s : %s' % (A[0], o, A[1], A[0], A[1])); return
        if n.startswith(('smax', 'smin')):
            o = '>' if 'smax' in n else '<'
            g.set(d, rt, '%s %s %s ? %s : %s' % (g.sgn(args[0]), o, g.sgn(args[1]), A[0], A[1])); return
        if n.startswith('abs'):
            g.set(d, rt, '%s < 0 ? (%s)(0-%s) : %s' % (g.sgn(args[0]), g.ctype(rt), A[0], A[0])); return
        if n.startswith('usub.sat'):
            g.set(d, rt, '%s > %s ? (%s)(%s - %s) : (%s)0' % (A[0], A[1], g.ctype(rt), A[0], A[1], g.ctype(rt))); return
        if n.startswith(('trap', 'debugtrap', 'ubsantrap')):
            g.lines.append('__CPROVER_assert(0, "trap"); __CPROVER_assume(0);'); return
        if n.startswith('uadd.with.overflow'):
            c = g.ctype(args[0].t)
            g.decls.append('%s%s %s;' % ('static ' if g.th else '', g.ctype(rt), g.reg(d)))
            g.lines.append('%s.f0 = (%s)(%s + %s); %s.f1 = %s.f0 < %s;' % (g.reg(d), c, A[0], A[1], g.reg(d), g.reg(d), A[0])); return
        if n.startswith('is.constant'): g.set(d, rt, '0'); return
        if n.startswith('objectsize'): g.set(d, rt, '((u64)-1)'); return
        raise Unsupported('intrinsic ' + callee)

def split_backedges(text, threads):
    """A call of sched_yield on every back edge of the thread functions that has none: waiting is no loop in the encoding."""
    m = Module(text); lines = text.split('\n'); out = []; i = 0; n = 0
    forced = lambda ins: any(re.match(r'(%\S+ = )?(tail |notail |musttail )?call .*@sched_yield\(', L) for L in ins)
    while i < len(lines):
        mm = re.match(r'define .*@("[^"]*"|[-\w.$]+)\(', lines[i])
        if not mm or mm.group(1) not in threads: out.append(lines[i]); i += 1; continue
        e = next(k for k in range(i, len(lines)) if lines[k] == '}')
        f = m.fns['@' + mm.group(1)]; body = lines[i:e]; i = e
        succ = {b: re.findall(r'label (%"[^"]*"|%[-\w.$]+)', ins[-1]) for b, ins in f.blocks}
        roots = [f.blocks[0][0]]
        for b, ins in f.blocks:
            if forced(ins): roots += succ[b]; succ[b] = []
        back = set(); state = {}
        for r in roots:
            if r in state: continue
            st = [(r, iter(succ[r]))]; state[r] = 1
            while st:
                b, it = st[-1]
                for t in it:
                    if t not in state: state[t] = 1; st.append((t, iter(succ[t]))); break
                    if state[t] == 1: back.add((b, t))
                else: state[b] = 2; st.pop()
        new = []
        cur = roots[0]
        lab = {}
        for k, L in enumerate(body[1:], 1):
            mm = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', L)
            if mm: cur = '%' + mm.group(1)
            lab[k] = cur
        for a, h in sorted(back):
            n += 1; nb = 'vfbe.%d' % n
            seen_term = [k for k in lab if lab[k] == a and body[k].strip()][-1]
            ks = [k for k in lab if lab[k] == a and ('label ' + h) in body[k]]
            for k in ks: body[k] = re.sub(r'label %s(?![-\w.$"])' % re.escape(h), 'label %' + nb, body[k])
            for k in lab:
                if lab[k] == h and ' = phi ' in body[k]: body[k] = re.sub(r', %s \]' % re.escape(a), ', %%%s ]' % nb, body[k])
            new += ['', nb + ':', '  %%vfy.%d = call i32 @sched_yield()' % n, '  br label ' + h]
        out += body + new
    text = '\n'.join(out)
    if n and '@sched_yield()' in text and not re.search(r'^(declare|define) .*@sched_yield\(', text, re.M): text += '\ndeclare i32 @sched_yield()\n'
    return text

def instrument(text, threads, plan, linear):
    """The same IR with calls of the scheduler where the encoding has its scheduling points (for native replay)."""
    out = []; fn = None; uid = 0
    for L in text.split('\n'):
        st = L.strip()
        if st.startswith('define '):
            mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', st); nm = mm.group(1)
            fn = nm if nm in threads else None
            bn = None; nmem = 0
        elif st == '}': fn = None
        elif fn is None:
            for t in threads: L = re.sub(r'call void @%s\(\)' % t, 'call void @vf_resume(ptr @%s, i32 %d)' % (t, linear[t]), L)
        elif st and not L[0].isspace() and not st.startswith(';'):
            mm = re.match(r'("(?:[^"\\]|\\..)*"|[-\w.$]+):', L)
            if mm: bn = '%' + mm.group(1); nmem = 0
        elif MEMOP.match(st) and ' = phi ' not in st:
            pl = plan[fn].get((bn or '%0', nmem), []); nmem += 1
            if any(x[0] == 'cp' for x in pl):
                mm = re.search(r'@llvm\.mem(?:cpy|move)[^(]*\(ptr (.*?)([%@][-\w.$]+), ptr (.*?)([%@][-\w.$]+), i64', st)
                d, s_ = mm.group(2), mm.group(4); wr = False
                for x in pl:
                    if x[0] == 'pt': out.append('  call void @vf_pt(i32 %d, i32 %d)' % x[1:])
                    elif x[0] == 'cp':
                        uid += 1; off, z = x[1:]
                        cur = (off, z)
                        out.append(('SRC', uid))
                    else: out.append(('DST', uid))
                # loads come after their point, stores after theirs
                fin = []; pend = None
                k = len(out)
                seg = []
                while out and (isinstance(out[-1], tuple) or '@vf_pt(' in out[-1]) and len(seg) < len(pl): seg.append(out.pop())
                seg.reverse()
                offs = [x[1:] for x in pl if x[0] == 'cp']; ci = -1; mode = None
                def flush():
                    if mode == 'SRC':
                        o, z = offs[ci]
                        out.append('  %%vfs%d = getelementptr i8, ptr %s, i64 %d' % (u, s_, o)); out.append('  %%vfv%d = load i%d, ptr %%vfs%d, align 1' % (u, z * 8, u))
                    elif mode == 'DST':
                        o, z = offs[ci]
                        out.append('  %%vfd%d = getelementptr i8, ptr %s, i64 %d' % (u, d, o)); out.append('  store i%d %%vfv%d, ptr %%vfd%d, align 1' % (z * 8, u, u))
                for x in seg:
                    if isinstance(x, tuple):
                        flush(); mode, u = x
                        if mode == 'SRC': ci += 1
                    else: out.append(x)
                flush()
                continue
            for x in pl:
                if x[0] == 'pt': out.append('  call void @vf_pt(i32 %d, i32 %d)' % x[1:])
        out.append(L)
    return '\n'.join(out) + '\ndeclare void @vf_pt(i32, i32)\ndeclare void @vf_resume(ptr, i32)\n'

def translate(text, roots, threads=()):
    m = Module(text)
    g = CGen(m, threads, roots=['@' + r for r in roots] + (['@vf_yield', '@vf_cs'] if threads else []))
    c = g.run()
    return c, g.encoded, g.nyield, (g.plan, g.linear)

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('ll'); ap.add_argument('out'); ap.add_argument('--root', action='append', default=[])
    ap.add_argument('--thread', action='append', default=[])
    a = ap.parse_args()
    c, enc, ny, _ = translate(open(a.ll).read(), a.root, a.thread)
    open(a.out, 'w').write(c)
    print(json.dumps({'encoded': enc, 'yields': ny}))

def index_checks(text):
    """The same IR with a call of vf_inside(index, array length) before every access (for native replay of a bounds violation)."""
    m = Module(text); out = []; geps = {}; uid = 0
    for L in text.split('\n'):
        st = L.strip()
        if st.startswith('define '): geps = {}
        mm = re.match(r'(%[-\w.$]+) = getelementptr (?:(?:inbounds|nusw|nuw) )*(.*)', st)
        if mm:
            lx = Lex(mm.group(2)); bt = parse_type(lx); ops = []
            while lx.accept(','):
                if lx.peek() and lx.peek().startswith('!'): break
                ops.append(parse_tv(lx))
            geps[mm.group(1)] = (bt, ops)
        elif re.match(r'(%\S+ = )?(tail )?(load|store|call .*@llvm\.mem)', st):
            for r in re.findall(r'ptr (?:[a-z]+(?:\(\d+\))? |align \d+ )*(%[-\w.$]+)', st):
                for _ in range(8):
                    if r not in geps: break
                    t, ops = geps[r]
                    for o in ops[2:]:
                        x = m.res(t)
                        if x.k == 'struct': t = x.el[o.v]; continue
                        if x.k != 'arr': break
                        t = x.el
                        if o.k == 'int': v = str(o.v)
                        elif o.t.n < 64: uid += 1; v = '%%vfix%d' % uid; out.append('  %s = sext i%d %s to i64' % (v, o.t.n, o.v))
                        else: v = o.v
                        if x.n: out.append('  call void @vf_inside(i64 %s, i64 %d)' % (v, x.n))
                    if ops[0].k != 'reg': break
                    r = ops[0].v
        out.append(L)
    return '\n'.join(out) + '\ndeclare void @vf_inside(i64, i64)\n'
