"""Loop heads: havoc what the body can change, Houdini over candidate invariants."""
import z3
from . import theory as T
from .theory import bv
from .engine import simp2, Ptr, PInt, UNDEF, Undef, OC, same, Unsupported, Terminal, isc, FP, NULL


def is_dead(v):
    return v is None or v is UNDEF or getattr(v, 'dead', False)


class LoopCtx:
    def __init__(self, E, entry, depth, head, blocks, phi_ids, phi_ty):
        self.E = E
        self.entry = entry
        self.depth = depth
        self.head = head
        self.blocks = blocks
        self.phi_ids = phi_ids
        self.phi_ty = phi_ty
        self.fn = entry.frames[-1].fn
        self.mods = set()
        self.pobjs = {}

    # ----------------------------------------------------------- modified locations
    def diff(self, H, B):
        """locations of H (state at head) that differ in B (state at a back edge, phis evaluated)"""
        out = set()
        for o, oc in H.mem.items():
            bc = B.mem.get(o)
            if bc is oc or bc is None:
                continue
            if bc.freed and not oc.freed:
                if not self.E.objs[o].local:
                    raise Unsupported('object freed inside loop: ' + self.E.objs[o].name)
            for off in set(oc.cells) | set(bc.cells):
                a, b = oc.cells.get(off), bc.cells.get(off)
                if a is not None and b is not None and a[0] == b[0] and same(a[1], b[1]):
                    continue
                if is_dead(a and a[1]) and is_dead(b and b[1]):
                    continue
                if a is None and self.E.objs[o].init != 'undef' and b is not None:
                    out.add(('cell', o, off, b[0]))
                elif a is None:
                    out.add(('cell', o, off, b[0]))
                else:
                    out.add(('cell', o, off, a[0]))
            for k, (ra, rb) in enumerate(zip(oc.regs, bc.regs)):
                if not ra[2].eq(rb[2]):
                    out.add(('reg', o, k))
        for k in set(H.ghost) | set(B.ghost):
            if isinstance(k, tuple) and k and k[0] in ('iter', 'old'):
                continue
            if not same(H.ghost.get(k), B.ghost.get(k)):
                out.add(('ghost', k))
        # registers defined before the loop keep their value (SSA)
        return out

    def fresh_like(self, st, v, name, size=None, others=()):
        E = self.E
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return E.fresh('i1', name)
        if isinstance(v, (int, z3.BitVecRef)):
            w = v.size() if isinstance(v, z3.BitVecRef) else size * 8
            return E.fresh('i%d' % w, name)
        if isinstance(v, z3.ExprRef):
            return z3.Const('%s!%d' % (name, next(E.ctr)), v.sort())
        if isinstance(v, Ptr):
            obs = {v.obj} | {x.obj for x in others if isinstance(x, Ptr)}
            if len(obs) > 1:
                raise Unsupported('pointer changes object inside loop (%s)' % name)
            return Ptr(v.obj, E.fresh('i64', name))
        if v is UNDEF or v is None:
            return UNDEF
        if hasattr(v, 'havoc'):
            return v.havoc(E, st, name, others)
        if isinstance(v, list):
            return [self.fresh_like(st, x, name) for x in v]
        raise Unsupported('cannot havoc %r' % (v,))

    def havoc(self, backs):
        """a fresh state at the loop head: modified locations arbitrary"""
        E = self.E
        H = self.entry.copy()
        H.hv = True
        f = H.frames[-1]
        for i in self.phi_ids:
            ev = f.regs[i]
            others = [b.frames[-1].regs[i] for b in backs]
            if backs and all(same(ev, o) for o in others):
                continue
            ty = self.phi_ty[i]
            if ty[0] == 'i' and isinstance(ev, PInt):
                raise Unsupported('integer view of pointer in loop')
            if ev is UNDEF:
                f.regs[i] = UNDEF if ty == 'ptr' else E.fresh(ty, 'phi')
                continue
            w = None
            if isinstance(ev, int) and not isinstance(ev, bool):
                f.regs[i] = E.fresh(ty, 'phi%d' % i)
            else:
                f.regs[i] = self.fresh_like(H, ev, 'phi%d' % i, others=others)
        for m in self.mods:
            if m[0] == 'cell':
                _, o, off, size = m
                c = self.entry.mem[o].cells.get(off)
                inf = E.objs[o]
                nm = '%s+%s' % (inf.name, off)
                others = []
                for b in backs:
                    bc = b.mem[o].cells.get(off)
                    others.append(bc[1] if bc else None)
                if c is None:
                    ref = next((x for x in others if x is not None), None)
                    if inf.init == 'undef' or ref is None:
                        nv = UNDEF
                    elif isinstance(ref, (int, z3.BitVecRef, z3.BoolRef, z3.FPRef)):
                        nv = self.fresh_like(H, ref, nm, size)
                    else:
                        nv = UNDEF
                elif is_dead(c[1]):
                    nv = UNDEF
                elif any(is_dead(x) for x in others):
                    nv = UNDEF
                else:
                    nv = self.fresh_like(H, c[1], nm, size, others)
                if c is not None and c[0] != size:
                    size = c[0]
                oc = H.mem[o].copy()
                oc.cells[off] = (size, nv)
                H.mem[o] = oc
            elif m[0] == 'reg':
                _, o, k = m
                oc = H.mem[o].copy()
                regs = list(oc.regs)
                s, n, a = regs[k]
                regs[k] = (s, n, z3.Const('%s_arr!%d' % (E.objs[o].name, next(E.ctr)), T.ARR))
                oc.regs = tuple(regs)
                H.mem[o] = oc
            elif m[0] == 'ghost':
                k = m[1]
                v = self.entry.ghost.get(k)
                others = [b.ghost.get(k) for b in backs]
                H.ghost[k] = self.fresh_like(H, v, 'ghost_%s' % (k if isinstance(k, str) else '_'.join(map(str, k))), 8, others)
        return H

    # ----------------------------------------------------------- terms for templates
    def locs(self):
        """[(label, width, getter)] integer-valued locations that the loop changes"""
        E = self.E
        out = []
        f = self.entry.frames[-1]
        d = self.depth - 1
        for i in self.phi_ids:
            ty = self.phi_ty[i]
            v = f.regs[i]
            if ty[0] == 'i' and ty != 'i1' and not isinstance(v, (PInt, Undef)):
                out.append(('phi%d' % i, int(ty[1:]), lambda s, i=i: bv(s.frames[d].regs[i], int(self.phi_ty[i][1:]))))
            elif ty == 'ptr' and isinstance(v, Ptr):
                out.append(('phi%d.off' % i, 64, lambda s, i=i: bv(s.frames[d].regs[i].off)))
        for m in sorted(self.mods, key=str):
            if m[0] == 'cell':
                _, o, off, size = m
                c = self.entry.mem[o].cells.get(off)
                if c is None:
                    continue
                if isinstance(c[1], (int, z3.BitVecRef)) and not isinstance(c[1], bool):
                    out.append(('%s+%s' % (E.objs[o].name, off), size * 8, lambda s, o=o, off=off, w=size * 8: bv(s.mem[o].cells[off][1], w)))
                elif isinstance(c[1], Ptr):
                    out.append(('%s+%s.off' % (E.objs[o].name, off), 64, lambda s, o=o, off=off: bv(s.mem[o].cells[off][1].off)))
        return out

    def consts(self):
        """[(label,width,term)] integer terms fixed during the loop: entry values of the changing locations, sizes, arguments"""
        out = []
        seen = set()

        def add(l, w, t):
            if isinstance(t, bool) or t is None:
                return
            t = bv(t, w)
            if t.get_id() not in seen:
                seen.add(t.get_id())
                out.append((l, w, t))
        for l, w, g in self.locs():
            try:
                add(l + '@entry', w, g(self.entry))
            except Exception:
                pass
        for fr in self.entry.frames[-1:]:
            for a in fr.fn.args:
                v = fr.regs.get(a['id'])
                if a['t'][0] == 'i' and a['t'] != 'i1' and isinstance(v, (int, z3.BitVecRef)) and not isinstance(v, bool):
                    add('arg%d' % a['id'], int(a['t'][1:]), v)
                elif isinstance(v, Ptr):
                    add('arg%d.off' % a['id'], 64, v.off)
                    if v.obj and not isinstance(v.obj, tuple):
                        s = self.E.objs[v.obj].size
                        if s is not None:
                            add('size', 64, s)
        # values compared against inside the loop that are defined outside of it
        defs = set()
        for b in self.blocks:
            for i in self.fn.blocks[b]['insts']:
                defs.add(i['id'])
        for b in self.blocks:
            for i in self.fn.blocks[b]['insts']:
                if i['op'] == 'icmp':
                    for o in i['ops']:
                        if o['k'] == 'r' and o['v'] not in defs:
                            v = self.entry.frames[-1].regs.get(o['v'])
                            if isinstance(v, (int, z3.BitVecRef)) and not isinstance(v, bool) and o['t'][0] == 'i' and o['t'] != 'i1':
                                add('reg%d' % o['v'], int(o['t'][1:]), v)
                            elif isinstance(v, Ptr):
                                add('reg%d.off' % o['v'], 64, v.off)
                        elif o['k'] == 'i' and o['t'] != 'i1':
                            add('c%s' % o['v'], int(o['t'][1:]), int(o['v']))
        return out

    def candidates(self):
        E = self.E
        cs = []
        locs = self.locs()
        consts = self.consts()
        for l, w, g in locs:
            if w == 8:
                cs.append(('%s is a truth value' % l, lambda s, g=g: z3.ULE(g(s), 1)))
            for cl, cw, c in consts:
                if cw == w:
                    cs.append(('%s<=%s' % (l, cl), lambda s, g=g, c=c: z3.ULE(g(s), c)))
                    if not (z3.is_bv_value(c) and c.as_long() == 0):
                        cs.append(('%s>=%s' % (l, cl), lambda s, g=g, c=c: z3.UGE(g(s), c)))
        for (l1, w1, g1), (l2, w2, g2) in [(a, b) for i, a in enumerate(locs) for b in locs[i + 1:]]:
            if w1 == w2:
                cs.append(('%s<=%s' % (l1, l2), lambda s, a=g1, b=g2: z3.ULE(a(s), b(s))))
                cs.append(('%s>=%s' % (l1, l2), lambda s, a=g1, b=g2: z3.UGE(a(s), b(s))))
                e1, e2 = g1(self.entry), g2(self.entry)
                cs.append(('%s-%s const' % (l1, l2), lambda s, a=g1, b=g2, d=e1 - e2: a(s) - b(s) == d))
                cs.append(('%s+%s const' % (l1, l2), lambda s, a=g1, b=g2, d=e1 + e2: a(s) + b(s) == d))
            elif {w1, w2} == {32, 64}:
                a, b = (g1, g2) if w1 == 64 else (g2, g1)
                e1, e2 = a(self.entry), b(self.entry)
                cs.append(('%s-%s const' % (l1, l2), lambda s, a=a, b=b, d=e1 - z3.ZeroExt(32, e2): a(s) - z3.ZeroExt(32, b(s)) == d))
        cs.extend(self.text_candidates())
        for t in E.loop_templates:
            for lab, g in t(E, self):
                cs.append((lab, g))
        return cs

    def text_candidates(self):
        """ghost text g grows by exactly the bytes a cursor has passed: g == cat(g@entry, array, cursor@entry, cursor - cursor@entry)"""
        E = self.E
        cs = []
        d = self.depth - 1
        gs = [(m[1], self.entry.ghost.get(m[1])) for m in self.mods if m[0] == 'ghost']
        gs = [(k, v) for k, v in gs if isinstance(v, z3.ExprRef) and v.sort() == T.Bytes]
        if not gs:
            return cs
        cur = []
        f = self.entry.frames[-1]
        for i in self.phi_ids:
            v = f.regs[i]
            if isinstance(v, Ptr) and v.obj in self.entry.mem and self.entry.mem[v.obj].regs:
                for k, (s0, n, a) in enumerate(self.entry.mem[v.obj].regs):
                    if ('reg', v.obj, k) not in self.mods:
                        cur.append(('phi%d' % i, a, bv(v.off) - s0, lambda s, i=i, s0=s0: bv(s.frames[d].regs[i].off) - s0))
            elif self.phi_ty[i] in ('i64', 'i32') and isinstance(v, (int, z3.BitVecRef)):
                w = int(self.phi_ty[i][1:])
                for o, oc in self.entry.mem.items():
                    if len(oc.regs) == 1 and not isc(oc.regs[0][1]) and ('reg', o, 0) not in self.mods:
                        def g(s, i=i, w=w):
                            t = bv(s.frames[d].regs[i], w)
                            return t if w == 64 else z3.ZeroExt(32, t)
                        cur.append(('phi%d of %s' % (i, E.objs[o].name), oc.regs[0][2], g(self.entry), g))
        for k, v in gs:
            for lab, a, c0, g in cur:
                cs.append(('%s follows %s' % (k, lab), lambda s, k=k, v=v, a=a, c0=c0, g=g: s.ghost[k] == T.cat(v, a, simp2(c0), simp2(g(s) - c0))))
        return cs

    # ----------------------------------------------------------- solve
    def filter_valid(self, st, cands):
        """Houdini filter: drop the candidates not valid in st; returns the kept list"""
        E = self.E
        live = []
        for lab, g in cands:
            try:
                live.append((lab, g, g(st)))
            except (KeyError, AttributeError, Unsupported, TypeError):
                continue
        base = list(st.pc)
        while live:
            conj = [c for _, _, c in live if c is not True]
            if not conj:
                break
            r, m = E._solve(base + [z3.Not(z3.And(*conj))], 20000)
            if r == 'unsat':
                break
            if r == 'sat':
                keep = []
                dropped = 0
                for x in live:
                    if x[2] is True:
                        keep.append(x)
                        continue
                    v = m.eval(x[2], model_completion=True)
                    if z3.is_true(v):
                        keep.append(x)
                    else:
                        dropped += 1
                if dropped == 0:
                    # model does not decide: fall back to one by one
                    keep = [x for x in live if E._solve(base + [z3.Not(x[2])], 10000)[0] == 'unsat']
                    live = keep
                    break
                live = keep
            else:
                live = [x for x in live if x[2] is True or E._solve(base + [z3.Not(x[2])], 10000)[0] == 'unsat']
                break
        return [(l, g) for l, g, _ in live]

    def at_head(self, B):
        """evaluate the phis of a back-edge state"""
        B = B.copy()
        self.E.phis(B, B.frames[-1])
        return B

    def define(self, H):
        """definitions to use at the loop head (instances of definitions, true in every state)"""
        for f in self.E.loop_facts:
            for c in f(self.E, self, H):
                H.assume(c)
        return H

    def goes_on(self, B):
        """the contract may divide the iterations into modes: the invariant is of one mode, another mode enters anew"""
        return B.ghost.get('mode') == self.entry.ghost.get('mode')

    def start(self, H):
        S = H.copy()
        f = S.frames[-1]
        f.entered = self.head if not self.phi_ids else None
        return S

    def solve(self, outer):
        E = self.E
        loop = (self.depth, self.head, self.blocks)
        saved_obls = E.obls
        saved_havoc = E.havoced
        cands = None
        backs = []
        E.havoced = True
        try:
            # phase 1: modified locations, invariants unknown
            E.mute += 1
            try:
                rounds = 0
                while True:
                    rounds += 1
                    if rounds > 12:
                        raise Unsupported('loop modifies set does not stabilise')
                    H = self.define(self.havoc(backs))
                    res = E.explore([self.start(H)], loop)
                    bs = [self.at_head(s) for k, s, v in res if k == 'back' and self.goes_on(s)]
                    new = set()
                    for b in bs:
                        new |= self.diff(H, b)
                    backs = bs
                    if new <= self.mods and rounds > 1:
                        break
                    self.mods |= new
            finally:
                E.mute -= 1
            cands = self.filter_valid(self.define(self.entry.copy()) if E.loop_facts else self.entry, self.candidates())
            ncand = len(cands)
            while True:
                H = self.define(self.havoc(backs))
                for lab, g in cands:
                    H.assume(g(H))
                E.obls = []
                res = E.explore([self.start(H)], loop)
                bs = [self.at_head(s) for k, s, v in res if k == 'back' and self.goes_on(s)]
                new = set()
                for b in bs:
                    new |= self.diff(H, b)
                if not new <= self.mods:
                    self.mods |= new
                    backs = bs
                    continue
                kept = cands
                for b in bs:
                    kept = self.filter_valid(b, kept)
                if len(kept) == len(cands):
                    break
                cands = kept
                backs = bs
        finally:
            got = E.obls
            E.obls = saved_obls
            E.havoced = saved_havoc
        E.obls.extend(got)
        E.loop_log = getattr(E, 'loop_log', [])
        if not E.mute:
            E.loop_log.append((self.fn.dem, self.head, [l for l, _ in cands]))
        out = []
        for k, s, v in res:
            if k == 'exit':
                out.append(s)
            elif k in ('ret', 'exc'):
                out.append(Terminal(k, s, v))
            elif not self.goes_on(s):
                out += E.do_loop(s, self.head, self.blocks, outer)
        return out
