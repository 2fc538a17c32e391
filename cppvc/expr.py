"""Expression evaluation (mixin of Exec)."""
import re, z3
from .sorts import *
from . import sorts as S
from .exec import *


class ExprMixin:
    def ev(self, e, st):
        """list of (state, value); lvalues are returned as LV"""
        m = getattr(self, "e_" + e["kind"], None)
        if m is None:
            raise Unsupported("expression " + e["kind"])
        return m(e, st)

    def evs(self, es, st):
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def sub1(self, e): return e["inner"][0]

    # -------- wrappers
    def e_ParenExpr(self, e, st): return self.ev(e["inner"][0], st)
    def e_ExprWithCleanups(self, e, st): return self.ev(e["inner"][0], st)
    def e_CXXBindTemporaryExpr(self, e, st): return self.ev(e["inner"][0], st)
    def e_ConstantExpr(self, e, st): return self.ev(e["inner"][0], st)
    def e_MaterializeTemporaryExpr(self, e, st): return self.ev(e["inner"][0], st)
    def e_SubstNonTypeTemplateParmExpr(self, e, st): return self.ev(e["inner"][-1], st)
    def e_CXXStdInitializerListExpr(self, e, st): return self.ev(e["inner"][0], st)

    # -------- literals
    def e_IntegerLiteral(self, e, st): return [(st, z3.IntVal(int(e["value"])))]
    def e_CharacterLiteral(self, e, st): return [(st, z3.IntVal(int(e["value"])))]
    def e_CXXBoolLiteralExpr(self, e, st): return [(st, z3.BoolVal(bool(e["value"])))]
    def e_CXXNullPtrLiteralExpr(self, e, st): return [(st, z3.IntVal(0))]
    def e_GNUNullExpr(self, e, st): return [(st, z3.IntVal(0))]

    def e_FloatingLiteral(self, e, st):
        import struct
        return [(st, z3.IntVal(struct.unpack("<Q", struct.pack("<d", float(e["value"])))[0]))]

    def e_StringLiteral(self, e, st):
        import ast as pyast
        v = cstring(e["value"])
        return [(st, slit(v))]     # converted to a pointer by ArrayToPointerDecay

    def e_PredefinedExpr(self, e, st): return [(st, slit("fn"))]

    def e_UnaryExprOrTypeTraitExpr(self, e, st):
        if e.get("name") == "sizeof":
            t = e.get("argType") or (e["inner"][0]["type"] if e.get("inner") else None)
            if t:
                if not e.get("argType"):
                    inner = e["inner"][0]
                    while inner["kind"] == "ParenExpr": inner = inner["inner"][0]
                    if inner["kind"] == "StringLiteral":
                        return [(st, z3.IntVal(len(cstring(inner["value"])) + 1))]
                m = re.match(r"^(?:const )?(?:unsigned )?char ?\[(\d+)\]$", t["qualType"])
                if m: return [(st, z3.IntVal(int(m.group(1))))]
                ct = self.T.parse(t)
                if ct.kind == "int": return [(st, z3.IntVal(ct.bits // 8))]
                if ct.kind == "dbl": return [(st, z3.IntVal(8))]
        raise Unsupported("sizeof")

    def e_CXXThisExpr(self, e, st):
        if self.fr.this is None:
            raise Unsupported("this")
        return [(st, PtrLV(self.fr.this))]

    # -------- references to declarations
    def e_DeclRefExpr(self, e, st):
        d = e["referencedDecl"]
        k = d["kind"]
        if k in ("VarDecl", "ParmVarDecl"):
            r = self.fr.vars.get(d["id"])
            if r is None:
                for fr in self.enclosing_frames():
                    r = fr.vars.get(d["id"])
                    if r: break
            if r is None:
                return self.global_var(d, st)
            v = st.store.get(r)
            if isinstance(v, LVRef):
                return [(st, v.lv)]
            if isinstance(v, MapElem):
                return [(st, v)]
            return [(st, LV(r, (), self.roots[r]))]
        if k == "EnumConstantDecl":
            v = self.prog.enum_value(self.fr.tu, d)
            return [(st, z3.IntVal(v))]
        if k in ("FunctionDecl", "CXXMethodDecl"):
            return [(st, ("fn", d))]
        raise Unsupported("ref to " + k)

    def enclosing_frames(self):
        return self.closure_frames if hasattr(self, "closure_frames") else []

    def global_var(self, d, st):
        g = self.prog.global_decl(self.fr.tu, d)
        name = d["name"]
        root = "g:" + name
        if root in st.store:
            return [(st, LV(root, (), self.roots[root]))]
        ct = self.T.parse(d["type"])
        self.roots[root] = ct
        if name == "npos" and g is None:
            st.store[root] = z3.IntVal(2**64 - 1)
            return [(st, LV(root, (), ct))]
        isconst = "const" in d["type"]["qualType"].split("*")[-1] or "const" in d["type"]["qualType"].split(" ")[0]
        init = None
        if g is not None:
            init = [x for x in g.get("inner", []) if x.get("kind") not in ("FullComment",)]
        if isconst and init:
            rs = self.ev(init[0], st)
            st, v = rs[0]
            st.store[root] = self.rv(st, v)
        else:
            st.store[root] = z3.Const("glob_" + name, self.T.sort(ct))
        return [(st, LV(root, (), ct))]

    def e_MemberExpr(self, e, st):
        name = e["name"]
        base = e["inner"][0]
        res = []
        t = e["type"]["qualType"]
        for s, b in self.ev(base, st):
            if t == "<bound member function type>":
                res.append((s, ("bound", b, e)))
                continue
            res.append((s, self.member(s, b, name, e)))
        return res

    def member(self, s, b, name, e):
        if e.get("isArrow"):
            if isinstance(b, LV) and b.ct.kind == "ptr":
                b = self.load(s, b)
            if isinstance(b, PtrLV):
                lv = b.lv
            elif isinstance(b, Iter):
                return self.iter_member(s, b, name)
            elif isinstance(b, LV) and b.ct.kind == "iter":
                return self.iter_member(s, self.load(s, b), name)
            elif z3.is_expr(b):
                bt = self.T.parse(e["inner"][0]["type"])
                if bt.kind != "ptr": raise Unsupported("arrow on %r" % bt)
                lv = self.deref(s, b, bt.args[0], e)
            else:
                raise Unsupported("arrow on %s" % type(b).__name__)
        elif isinstance(b, MapElem):
            if name == "first":
                return b.key
            return b.cont.m(b.key, b.cont.ct.args[1])
        elif isinstance(b, LV):
            lv = b
        elif isinstance(b, tuple) and b[0] == "pairvals":
            return b[1 if name == "first" else 2]
        elif z3.is_expr(b):
            bt = self.T.parse(e["inner"][0]["type"])
            root = self.new_root("tmp", bt)
            s.store[root] = b
            lv = LV(root, (), bt)
        else:
            raise Unsupported("member of %s" % type(b).__name__)
        return self.field_lv(lv, name)

    def field_lv(self, lv, name):
        ct = lv.ct
        if ct.kind == "ref": ct = ct.args[0]
        if ct.kind == "pair":
            k = 0 if name == "first" else 1
            return lv.p(k, ct.args[k])
        if ct.kind == "struct":
            _, fct = self.T.field_index(ct.name, name)
            if fct.kind == "ref": raise Unsupported("reference member")
            return lv.f(name, fct)
        raise Unsupported("field %s of %r" % (name, ct))

    def iter_member(self, s, it, name):
        self.ob(s, "iterator dereferenced at end()", z3.Not(it.end), None, "safety")
        s.assume(z3.Not(it.end))
        if it.lv.ct.kind == "map":
            return it.pos if name == "first" else it.lv.m(it.pos, it.lv.ct.args[1])
        if it.lv.ct.kind == "vec":
            return self.field_lv(it.lv.i(it.pos, it.lv.ct.args[0]), name)
        raise Unsupported("iter member")

    # -------- casts
    def e_ImplicitCastExpr(self, e, st): return self.cast(e, st)
    def e_CStyleCastExpr(self, e, st): return self.cast(e, st)
    def e_CXXStaticCastExpr(self, e, st): return self.cast(e, st)
    def e_CXXReinterpretCastExpr(self, e, st): return self.cast(e, st)
    def e_CXXConstCastExpr(self, e, st): return self.cast(e, st)
    def e_CXXFunctionalCastExpr(self, e, st): return self.cast(e, st)
    def e_CXXDynamicCastExpr(self, e, st): return self.cast(e, st)

    def cast(self, e, st):
        ck = e.get("castKind")
        sub = e["inner"][0]
        if ck == "LValueToRValue":
            return [(s, self.rv(s, v)) for s, v in self.ev(sub, st)]
        if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "BaseToDerived"):
            return self.ev(sub, st)
        if ck == "ToVoid":
            return [(s, None) for s, _ in self.ev(sub, st)]
        if ck == "ArrayToPointerDecay":
            res = []
            for s, v in self.ev(sub, st):
                if z3.is_expr(v) and v.sort() == Str:
                    res.append((s, self.cptr(v)))
                elif isinstance(v, LV):
                    if v.ct.kind == "str" or (v.ct.kind == "arr" and v.ct.args[0].kind == "int" and v.ct.args[0].bits == 8):
                        res.append((s, PtrLV(v)))
                    else:
                        res.append((s, PtrLV(v)))
                else:
                    res.append((s, v))
            return res
        if ck == "NullToPointer":
            ct = self.T.parse(e["type"])
            return [(s, self.null_cptr() if ct.kind == "cptr" else z3.IntVal(0)) for s, _ in self.ev(sub, st)]
        if ck in ("BitCast",):
            ct = self.T.parse(e["type"])
            res = []
            for s, v in self.ev(sub, st):
                v = self.rv(s, v) if isinstance(v, LV) and v.ct.kind != "arr" else v
                res.append((s, v))
            return res
        if ck in ("IntegralCast",):
            return [(s, self.iconv(s, self.rv(s, v), sub["type"], e["type"], e)) for s, v in self.ev(sub, st)]
        if ck in ("IntegralToBoolean", "PointerToBoolean", "MemberPointerToBoolean", "FloatingToBoolean"):
            return [(s, self.tobool(s, v)) for s, v in self.ev(sub, st)]
        if ck == "FloatingCast":
            return self.ev(sub, st)
        if ck in ("IntegralToFloating", "FloatingToIntegral"):
            f = z3.Function(ck, I, I)
            ct = self.T.parse(e["type"])
            res = []
            for s, v in self.ev(sub, st):
                x = self.toint(self.rv(s, v))
                if ck == "IntegralToFloating" and isnum(x) and x.as_long() == 0:
                    res.append((s, z3.IntVal(0))); continue       # the bits of 0.0
                t = f(x)
                self.assume_type(s, t, ct)
                res.append((s, t))
            return res
        if ck == "IntegralToPointer":
            # only constants such as SQLITE_TRANSIENT
            res = [(s, self.toint(self.rv(s, v))) for s, v in self.ev(sub, st)]
            if all(isnum(z3.simplify(v)) for s, v in res): return [(s, z3.simplify(v)) for s, v in res]
        if ck == "Dynamic":
            raise Unsupported("dynamic_cast")
        if ck is None:
            return self.ev(sub, st)
        raise Unsupported("cast " + str(ck))

    def toint(self, v):
        if z3.is_bool(v):
            v = z3.simplify(v)
            if z3.is_true(v): return z3.IntVal(1)
            if z3.is_false(v): return z3.IntVal(0)
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def iconv(self, st, v, tfrom, tto, node):
        a, b = self.T.parse(tfrom), self.T.parse(tto)
        if a.kind == "ref": a = a.args[0]
        if b.kind == "ref": b = b.args[0]
        v = self.toint(v)
        if b.kind == "bool":
            return v != 0
        if b.kind != "int":
            return v
        return self.wrap(st, v, b, a)

    def wrap(self, st, v, ct, frm=None):
        lo, hi = self.rng(ct)
        if isnum(v):
            n = v.as_long()
            n = (n - lo) % (hi - lo + 1) + lo
            return z3.IntVal(n)
        if frm is not None and frm.kind == "bool": return v
        if frm is not None and frm.kind == "int":
            l2, h2 = self.rng(frm)
            if l2 >= lo and h2 <= hi:
                return v
        if ct.bits == 8 and S.isbyte(v):
            return v if not ct.signed else S.sbyte(v)
        # signed char <-> unsigned char of a byte
        if ct.bits == 8 and not ct.signed and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            a = v.arg(2)
            if z3.simplify(v.arg(1) - a).eq(z3.IntVal(-256)):
                return a
        if ct.bits == 64 and z3.is_app(v) and v.decl().name() == ("s64" if lo == 0 else "u64"):
            return v.arg(0)
        if self.proves(st, z3.And(v >= lo, v <= hi)):
            return v
        if ct.bits == 64 and frm is not None and frm.kind == "int":
            from .models import U64F, S64F
            return U64F(v) if lo == 0 else S64F(v)
        if lo == 0:
            return v % (hi + 1)
        m = hi - lo + 1
        w = v % m
        return z3.If(w > hi, w - m, w)

    # -------- operators
    def e_UnaryOperator(self, e, st):
        op = e["opcode"]
        sub = e["inner"][0]
        res = []
        for s, v in self.ev(sub, st):
            if op == "!":
                res.append((s, z3.Not(self.tobool(s, v))))
            elif op == "-":
                x = self.rv(s, v)
                if self.T.parse(e["type"]).kind == "dbl":
                    res.append((s, z3.Function("fneg", I, I)(x)))
                else:
                    res.append((s, self.arith(s, "-", z3.IntVal(0), x, self.T.parse(e["type"]), e)))
            elif op == "+":
                res.append((s, self.rv(s, v)))
            elif op == "~":
                ct = self.T.parse(e["type"])
                x = self.toint(self.rv(s, v))
                res.append((s, -x - 1 if ct.signed else z3.IntVal(2**ct.bits - 1) - x))
            elif op == "&":
                if isinstance(v, LV): res.append((s, PtrLV(self.resolve(s, v))))
                elif isinstance(v, tuple) and v[0] == "fn": res.append((s, v))
                else: raise Unsupported("address of rvalue")
            elif op == "*":
                res.append((s, self.star(s, v, sub, e)))
            elif op in ("++", "--"):
                ct = self.T.parse(sub["type"])
                if ct.kind == "ref": ct = ct.args[0]
                old = self.rv(s, v)
                if isinstance(old, Iter):
                    nv = self.iter_add(s, old, 1 if op == "++" else -1)
                elif ct.kind == "cptr":
                    nv = self.ptr_add(s, old, z3.IntVal(1 if op == "++" else -1), e)
                else:
                    nv = self.arith(s, "+" if op == "++" else "-", old, z3.IntVal(1), ct, e)
                self.save(s, v, nv)
                res.append((s, old if e.get("isPostfix") else v))
            else:
                raise Unsupported("unary " + op)
        return res

    def star(self, s, v, sub, e):
        v = self.rv(s, v) if isinstance(v, LV) else v
        if isinstance(v, Iter):
            return self.iter_deref(s, v, e)
        if isinstance(v, PtrLV):
            if v.lv.ct.kind == "str" and v.lv.ct.raw == "chararr":
                return v.lv.c(z3.IntVal(0))
            return v.lv
        if z3.is_expr(v) and v.sort() == self.T.cptr():
            return self.byte_at(s, v, z3.IntVal(0), e)
        if isinstance(v, tuple) and v[0] == "fn":
            return v
        t = self.T.parse(sub["type"])
        if t.kind == "ptr":
            return self.deref(s, v, t.args[0], e)
        raise Unsupported("deref of %r" % t)

    def iter_deref(self, s, it, e):
        self.ob(s, "iterator dereferenced at end()", z3.Not(it.end), e, "safety")
        s.assume(z3.Not(it.end))
        k = it.lv.ct.kind
        if k == "vec": return it.lv.i(it.pos, it.lv.ct.args[0])
        if k == "str": return it.lv.c(it.pos)
        if k == "map": return MapElem(it.lv, it.pos)
        if k == "set": return it.pos
        raise Unsupported("iter deref")

    def byte_at(self, s, p, i, e):
        """char value read through a char pointer"""
        d = self.T.cptr()
        null, data, off = S.get(d, 0, p), S.get(d, 1, p), S.get(d, 2, p)
        pos = add(off, i)
        if self.opts["bounds"]:
            # reading the terminating NUL of a std::string / literal is allowed
            g = z3.And(z3.Not(null), pos >= 0, pos < slen(data)) if self.opts.get("strict_ptr", True) else z3.And(z3.Not(null), pos >= 0, pos <= slen(data))
            self.ob(s, "memory read in bounds", g, e, "safety")
            s.assume(g)
        x = S.byte(data, pos)
        uns8 = False
        try:
            et = self.T.parse(e["type"])
            uns8 = et.kind == "int" and et.bits == 8 and not et.signed
        except (Unsupported, KeyError, TypeError):
            pass
        if uns8 and isnum(x): return x
        if not isnum(x):
            key = ("tf", x.get_id())
            if key not in s.aux:
                s.aux[key] = x
                s.assume(x >= 0, x <= 255)
            if uns8: return x
            return z3.If(x > 127, x - 256, x)
        n = x.as_long()
        return z3.IntVal(n - 256 if n > 127 else n)

    def ptr_add(self, s, p, n, e):
        d = self.T.cptr()
        if isinstance(p, PtrLV):
            raise Unsupported("pointer arithmetic on lvalue pointer")
        off = add(S.get(d, 2, p), n)
        return S.upd(d, 2, p, off)

    def arith(self, st, op, a, b, ct, node):
        a, b = self.toint(a), self.toint(b)
        lo, hi = self.rng(ct)
        if op == "+": r = add(a, b)
        elif op == "-": r = a - b if not (isnum(a) and isnum(b)) else z3.IntVal(a.as_long() - b.as_long())
        elif op == "*": r = a * b
        elif op in ("/", "%"):
            if self.opts["bounds"]:
                self.ob(st, "division by zero", b != 0, node, "safety")
            st.assume(b != 0)
            if isnum(a) and isnum(b) and b.as_long() != 0:
                x, y = a.as_long(), b.as_long()
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return z3.IntVal(q if op == "/" else x - q * y)
            if not ct.signed or self.proves(st, z3.And(a >= 0, b > 0)):
                return a / b if op == "/" else a % b
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -(-a / b), (-a) / (-b)))
            return q if op == "/" else a - q * b
        elif op in ("<<", ">>"):
            if not isnum(b): raise Unsupported("shift by a variable")
            k = 2 ** b.as_long()
            if op == ">>":
                return a / k
            r = a * k
        elif op in ("&", "|", "^"):
            return self.bitop(st, op, a, b, ct)
        else:
            raise Unsupported("arith " + op)
        r = z3.simplify(r) if isnum(a) or isnum(b) else r
        if isnum(r):
            n = r.as_long()
            if lo <= n <= hi: return r
        if not ct.signed:
            return r if self.proves(st, z3.And(r >= lo, r <= hi)) else r % (hi + 1)
        if self.opts["ovf"]:
            self.ob(st, "no signed overflow (%s)" % op, z3.And(r >= lo, r <= hi), node, "safety")
            st.assume(z3.And(r >= lo, r <= hi))
        return r

    def bitop(self, st, op, a, b, ct):
        if isnum(a) and isnum(b):
            m = 2**ct.bits
            x, y = a.as_long() % m, b.as_long() % m
            r = {"&": x & y, "|": x | y, "^": x ^ y}[op]
            return z3.IntVal(r)
        if isnum(a): a, b = b, a
        if op == "&" and isnum(b):
            k = b.as_long()
            if k >= 0:
                if (k + 1) & k == 0:
                    return a % (k + 1)
                # contiguous mask  2^hi - 2^lo
                low = (k & -k)
                if low and ((k // low) + 1) & (k // low) == 0:
                    return ((a / low) % (k // low + 1)) * low
        if op == "|" and isnum(b):
            k = b.as_long()
            low = (k & -k) if k > 0 else 0
            if k > 0 and self.proves(st, z3.And(a >= 0, a < low)):
                return a + k
        n = ct.bits
        f = z3.Function("bit_" + {"&": "and", "|": "or", "^": "xor"}[op], I, I, I)
        r = f(a, b)
        if op == "|":
            # disjoint bits: a multiple of 2^k plus b < 2^k
            for k in (4, 8, 16, 24, 6, 12, 18, 2, 7, 14, 21):
                m = 2**k
                if self.proves(st, z3.And(a % m == 0, b >= 0, b < m), ms=60): return a + b
                if self.proves(st, z3.And(b % m == 0, a >= 0, a < m), ms=60): return a + b
        st.assume(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(r >= 0, r < 2**n)))
        return r

    def e_BinaryOperator(self, e, st):
        op = e["opcode"]
        l, r = e["inner"]
        if op in ("&&", "||"):
            return self.shortcircuit(op, l, r, st)
        if op == ",":
            res = []
            for s, _ in self.ev(l, st):
                res += self.ev(r, s)
            return res
        if op == "=":
            res = []
            for s, vs in self.evs([r, l], st):
                v, lv = vs
                v = self.rv(s, v)
                if not isinstance(lv, LV): raise Unsupported("assignment target")
                if not z3.is_expr(v) and lv.path:
                    v = self.to_term(s, v)
                self.save(s, lv, v)
                res.append((s, lv))
            return res
        res = []
        for s, (a, b) in self.evs([l, r], st):
            res.append((s, self.binop(s, op, a, b, l, r, e)))
        return res

    def binop(self, s, op, a, b, l, r, e):
        a, b = self.rv(s, a), self.rv(s, b)
        if isinstance(a, PtrLV) or isinstance(b, PtrLV):
            if op in ("==", "!="):
                def nn(x): return isinstance(x, PtrLV)
                if nn(a) and nn(b):
                    eq = z3.BoolVal(a.lv.key() == b.lv.key())
                    return eq if op == "==" else z3.Not(eq)
                x = b if nn(a) else a
                p = a if nn(a) else b
                if isnum(x) and x.as_long() == 0:
                    return z3.BoolVal(op == "!=")
                if z3.is_expr(x) and x.sort() == I:
                    eq = x == self.address(s, p.lv)
                    return eq if op == "==" else z3.Not(eq)
                if z3.is_expr(x) and x.sort() == self.T.cptr():
                    return S.get(self.T.cptr(), 0, x) if False else z3.BoolVal(op == "!=")
            if op in ("+", "-") and isinstance(a, PtrLV) and a.lv.ct.kind == "str":
                return self.ptr_add(s, self.cptr(self.load(s, a.lv)), self.toint(b) if op == "+" else -self.toint(b), e)
            raise Unsupported("pointer binop " + op)
        cp = self.T.cptr()
        if (z3.is_expr(a) and a.sort() == cp) or (z3.is_expr(b) and b.sort() == cp):
            if op in ("==", "!="):
                if a.sort() != cp: a, b = b, a
                if b.sort() != cp or z3.is_true(z3.simplify(S.get(cp, 0, b))):
                    eq = S.get(cp, 0, a)
                else:
                    eq = z3.Or(z3.And(S.get(cp, 0, a), S.get(cp, 0, b)), z3.And(z3.Not(S.get(cp, 0, a)), z3.Not(S.get(cp, 0, b)), S.get(cp, 2, a) == S.get(cp, 2, b)))
                return eq if op == "==" else z3.Not(eq)
            if op == "+":
                if a.sort() == cp: return self.ptr_add(s, a, self.toint(b), e)
                return self.ptr_add(s, b, self.toint(a), e)
            if op == "-":
                if b.sort() == cp: return S.get(cp, 2, a) - S.get(cp, 2, b)
                return self.ptr_add(s, a, -self.toint(b), e)
            if op in ("<", ">", "<=", ">="):
                return self.cmp(op, S.get(cp, 2, a), S.get(cp, 2, b))
            raise Unsupported("pointer op " + op)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            lt = self.T.parse(l["type"])
            if lt.kind == "dbl" or (z3.is_expr(a) and False):
                return self.dcmp(op, a, b)
            if z3.is_bool(a) != z3.is_bool(b):
                a, b = self.toint(a), self.toint(b)
            if z3.is_bool(a) and op not in ("==", "!="):
                a, b = self.toint(a), self.toint(b)
            return self.cmp(op, a, b)
        ct = self.T.parse(e["type"])
        if ct.kind == "dbl":
            f = z3.Function("f_" + {"+": "add", "-": "sub", "*": "mul", "/": "div"}[op], I, I, I)
            return f(a, b)
        if ct.kind == "bool":
            a, b = self.tobool(s, a), self.tobool(s, b)
            return {"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](a, b)
        return self.arith(s, op, a, b, ct, e)

    def dcmp(self, op, a, b):
        eqf = z3.Function("dbl_eq", I, I, B)
        ltf = z3.Function("dbl_lt", I, I, B)
        if op == "==": return eqf(a, b)
        if op == "!=": return z3.Not(eqf(a, b))
        if op == "<": return ltf(a, b)
        if op == ">": return ltf(b, a)
        if op == "<=": return z3.Or(ltf(a, b), eqf(a, b))
        return z3.Or(ltf(b, a), eqf(a, b))

    def cmp(self, op, a, b):
        if a.eq(b):
            return z3.BoolVal(op in ("==", "<=", ">="))
        if op == "==": return a == b
        if op == "!=": return a != b
        if op == "<": return a < b
        if op == ">": return a > b
        if op == "<=": return a <= b
        return a >= b

    def shortcircuit(self, op, l, r, st):
        res = []
        for s, a in self.ev(l, st):
            a = z3.simplify(self.tobool(s, a))
            if op == "&&" and z3.is_false(a) or op == "||" and z3.is_true(a):
                res.append((s, a)); continue
            if op == "&&" and z3.is_true(a) or op == "||" and z3.is_false(a):
                res += [(s2, self.tobool(s2, v)) for s2, v in self.ev(r, s)]
                continue
            guard = a if op == "&&" else z3.Not(a)
            if not self.feasible(s, guard):
                res.append((s.assume(z3.Not(guard)), z3.BoolVal(op == "||"))); continue
            s2 = s.fork().assume(guard)
            npc = len(s2.pc)
            wl = set(s2.wlog)
            before = dict(s2.store)
            old = self.thr; self.thr = []
            rs = self.ev(r, s2)
            threw, self.thr = self.thr, old
            pure = len(rs) == 1 and not threw and same_store(rs[0][0].store, before)
            if pure:
                s3, b = rs[0]
                b = self.tobool(s3, b)
                for t in s3.pc[npc:]:
                    s.assume(z3.Implies(guard, t))
                for k, v in s3.store.items():
                    if k not in s.store: s.store[k] = v
                for k, v in s3.aux.items():
                    pass
                res.append((s, z3.simplify(z3.And(a, b) if op == "&&" else z3.Or(a, b))))
            else:
                self.thr += threw
                res += [(s3, self.tobool(s3, v)) for s3, v in rs]
                if self.feasible(s, z3.Not(guard)):
                    res.append((s.assume(z3.Not(guard)), z3.BoolVal(op == "||")))
        return res

    def e_CompoundAssignOperator(self, e, st):
        op = e["opcode"][:-1]
        l, r = e["inner"]
        res = []
        for s, (b, lv) in self.evs([r, l], st):
            b = self.rv(s, b)
            a = self.load(s, lv)
            lt = self.T.parse(l["type"])
            if lt.kind == "ref": lt = lt.args[0]
            if lt.kind == "cptr":
                nv = self.ptr_add(s, a, self.toint(b) if op == "+" else -self.toint(b), e)
            elif lt.kind == "dbl":
                nv = z3.Function("f_" + {"+": "add", "-": "sub", "*": "mul", "/": "div"}[op], I, I, I)(a, b)
            elif lt.kind == "bool":
                a2, b2 = self.tobool(s, a), self.tobool(s, b)
                nv = {"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](a2, b2)
            else:
                cr = self.T.parse(e.get("computeResultType", e["type"]))
                nv = self.arith(s, op, a, b, cr, e)
                nv = self.wrap(s, nv, lt, cr)
            self.save(s, lv, nv)
            res.append((s, lv))
        return res

    def e_ConditionalOperator(self, e, st):
        c, a, b = e["inner"]
        if is_assert(e):
            return self.do_assert(c, e, st)
        res = []
        for s, v in self.ev(c, st):
            t = z3.simplify(self.tobool(s, v))
            arms = []
            for cond, x in ((t, a), (z3.Not(t), b)):
                if not self.feasible(s, cond): continue
                s2 = s.fork().assume(z3.simplify(cond))
                before = dict(s2.store)
                npc = len(s2.pc)
                old = self.thr; self.thr = []
                rs = self.ev(x, s2)
                threw, self.thr = self.thr, old
                arms.append((cond, rs, threw, before, npc))
            pure = len(arms) == 2 and all(len(rs) == 1 and not thr and same_store(rs[0][0].store, bf) for _, rs, thr, bf, _ in arms)
            if pure:
                x, y = arms[0][1][0], arms[1][1][0]
                vx, vy = self.rv(x[0], x[1]), self.rv(y[0], y[1])
                if z3.is_expr(vx) and z3.is_expr(vy) and (not isinstance(x[1], LV) or e.get("valueCategory") != "lvalue"):
                    if z3.is_bool(vx) != z3.is_bool(vy): vx, vy = self.toint(vx), self.toint(vy)
                    for cond, rs, _, _, npc in arms:
                        for f in rs[0][0].pc[npc:]:
                            s.assume(z3.Implies(cond, f))
                        for k, v in rs[0][0].store.items():
                            if k not in s.store: s.store[k] = v
                    res.append((s, vx if vx.eq(vy) else z3.If(t, vx, vy)))
                    continue
            for cond, rs, thr, _, _ in arms:
                self.thr += thr
                res += rs
        return res

    def do_assert(self, c, e, st):
        res = []
        for s, v in self.ev(c, st):
            t = self.tobool(s, v)
            self.ob(s, "assert() holds", t, e, "safety")
            s.assume(z3.simplify(t))
            if self.feasible(s):
                res.append((s, None))
        return res

    def e_ArraySubscriptExpr(self, e, st):
        base, idx = e["inner"]
        res = []
        for s, (b, i) in self.evs([base, idx], st):
            i = self.toint(self.rv(s, i))
            if isinstance(b, LV) and b.ct.kind in ("cptr", "ptr"):
                b = self.load(s, b)
            if isinstance(b, PtrLV):
                lv = b.lv
                if lv.ct.kind == "str":
                    n = slen(self.load(s, lv))
                    if self.opts["bounds"]:
                        self.ob(s, "array index in bounds", z3.And(i >= 0, i < n), e, "safety")
                        s.assume(z3.And(i >= 0, i < n))
                    ect = self.T.parse(e["type"])
                    res.append((s, lv.c(i, ect if ect.kind == "int" and ect.bits == 8 and not ect.signed else None)))
                elif lv.ct.kind == "arr":
                    n = lv.ct.bits
                    if self.opts["bounds"]:
                        self.ob(s, "array index in bounds", z3.And(i >= 0, i < n), e, "safety")
                        s.assume(z3.And(i >= 0, i < n))
                    res.append((s, lv.i(i, lv.ct.args[0])))
                else:
                    raise Unsupported("subscript of pointer")
            elif z3.is_expr(b) and b.sort() == self.T.cptr():
                res.append((s, self.byte_at(s, b, i, e)))
            elif isinstance(b, LV) and b.ct.kind == "arr":
                res.append((s, b.i(i, b.ct.args[0])))
            else:
                raise Unsupported("subscript")
        return res

    def e_InitListExpr(self, e, st):
        ct = self.T.parse(e["type"])
        inner = e.get("inner", []) or e.get("array_filler", [])
        res = []
        for s, vs in self.evs([x for x in inner if x.get("kind") != "ImplicitValueInitExpr"], st):
            vs = [self.rv(s, v) for v in vs]
            if ct.kind in ("vec", "arr"):
                dt = self.T.sort(ct)
                arr = z3.K(I, self.default_elem(ct.args[0]))
                for j, v in enumerate(vs):
                    arr = z3.Store(arr, z3.IntVal(j), self.to_term(s, v))
                n = ct.bits if ct.kind == "arr" and ct.bits else len(vs)
                res.append((s, mk(dt, arr, z3.IntVal(n))))
            elif ct.kind == "struct":
                res.append((s, mk(self.T.sort(ct), *[self.to_term(s, v) for v in vs])))
            elif len(vs) == 1:
                res.append((s, vs[0]))
            elif not vs:
                res.append((s, self.default(s, ct)))
            else:
                raise Unsupported("init list")
        return res

    def e_ImplicitValueInitExpr(self, e, st):
        return [(st, self.default_elem(self.T.parse(e["type"])))]

    def e_CXXScalarValueInitExpr(self, e, st):
        return [(st, self.default_elem(self.T.parse(e["type"])))]

    def e_LambdaExpr(self, e, st):
        return [(st, Lambda(e, self.fr))]

    def e_CXXThrowExpr(self, e, st):
        if not e.get("inner"):
            self.thr.append((st, st.store.get("g:exc") or Exc("unknown")))
            return []
        t = e["inner"][0]["type"]["qualType"]
        t = re.sub(r"\bconst\b", "", t).strip()
        for s, v in self.ev(e["inner"][0], st):
            self.thr.append((s, Exc(t, self.rv(s, v), self.where(e))))
        return []

    def e_CXXDefaultArgExpr(self, e, st):
        return [(st, ("defaultarg", e))]

    def e_CXXDefaultInitExpr(self, e, st):
        raise Unsupported("default init expr")

    def e_OpaqueValueExpr(self, e, st):
        if e.get("inner"): return self.ev(e["inner"][0], st)
        raise Unsupported("opaque value")

    def e_CXXNewExpr(self, e, st):
        ct = self.T.parse(e["type"])
        pt = ct.args[0] if ct.kind == "ptr" else None
        if pt is None: raise Unsupported("new")
        init = [x for x in e.get("inner", []) if x.get("kind") == "CXXConstructExpr"]
        other = [x for x in e.get("inner", []) if x.get("kind") != "CXXConstructExpr"]
        res = []
        src = init[0] if init else (other[0] if other else None)
        if pt.kind == "opaque":
            p = self.fresh("new", I); st.assume(p > 0)
            return [(st, p)]
        h = self.heap(st, pt)
        p = self.fresh("new", I)
        for s in [st]:
            s.assume(p > 0)
            for q in s.aux.get("allocs", ()):
                s.assume(p != q)
            s.aux["allocs"] = tuple(s.aux.get("allocs", ())) + (p,)
            lv = LV(h, (("h", p, self.roots[h]),), pt)
            rs = self.construct(src, pt, s, lv) if src is not None else [(s, self.default(s, pt))]
            for s2, v in rs:
                v = self.rv(s2, v)
                if v is not None:
                    self.save(s2, lv, v)
                self.on_new(s2, p, pt)
                res.append((s2, p))
        return res

    def on_new(self, s, p, ct):
        if ct.kind == "str" and "g:live" in s.store:
            live = s.store["g:live"]
            s.assume(z3.Not(z3.Select(live, p)))
            s.store["g:live"] = z3.Store(live, p, z3.BoolVal(True)); s.wlog.add(("g:live", ()))

    def on_delete(self, s, p, ct, e):
        if ct.kind == "ptr" and ct.args[0].kind == "str" and "g:live" in s.store:
            live = s.store["g:live"]
            self.ob(s, "only a live string is deleted (no double free)", z3.Or(p == 0, z3.Select(live, p)), e, "safety")
            s.store["g:live"] = z3.Store(live, p, z3.BoolVal(False)); s.wlog.add(("g:live", ()))

    def e_CXXDeleteExpr(self, e, st):
        res = []
        for s, v in self.ev(e["inner"][0], st):
            v = self.rv(s, v)
            ct = self.T.parse(e["inner"][0]["type"])
            self.on_delete(s, v, ct, e)
            res.append((s, None))
        return res

    # -------- construction
    def e_CXXTemporaryObjectExpr(self, e, st): return self.e_CXXConstructExpr(e, st)

    def e_CXXConstructExpr(self, e, st):
        ct = self.T.parse(e["type"])
        return self.construct(e, ct, st, None)

    def construct(self, e, ct, st, target):
        if e["kind"] != "CXXConstructExpr" and e["kind"] != "CXXTemporaryObjectExpr":
            return self.ev(e, st)
        args = [a for a in e.get("inner", [])]
        rs = []
        for s, vs in self.evs(args, st):
            rs += self.construct_vals(ct, vs, s, e, target)
        return rs

    def construct_vals(self, ct, vs, s, e, target=None):
        vs = [v for v in vs if not (isinstance(v, tuple) and v[0] == "defaultarg" and ct.kind != "struct")]
        k = ct.kind
        if k != "struct" or (len(vs) == 1 and self.same_type(s, vs[0], ct) and not self.user_copy(ct)):
            if len(vs) == 1 and self.same_type(s, vs[0], ct):
                return [(s, self.rv(s, vs[0]))]
        m = self.models.ctor(self, ct, vs, s, e)
        if m is not None:
            return m
        if k == "iter" and len(vs) == 1 and (isinstance(vs[0], Iter) or type(vs[0]).__name__ == "MapBegin"):
            return [(s, vs[0])]          # copy, or conversion to a const iterator
        if k == "struct":
            q = ct.name + "::" + ct.name.split("::")[-1]
            c = self.contracts.lookup(q, len(vs)) if self.contracts else None
            if c is None and not vs:
                f = self.prog.find(q, 0)
                if f is None or f[1].get("isImplicit") or f[1].get("explicitlyDefaulted") or (trivial_body(f[1]["_body"]) and not [x for x in f[1].get("inner", []) if x.get("kind") == "CXXCtorInitializer"]):
                    return [(s, self.default(s, ct))]
            f = self.prog.find_ctor(ct.name, vs, self, s, e)
            if target is None:
                root = self.new_root("tmp_" + ct.name, ct)
                lv = LV(root, (), ct)
                s.store[root] = self.default(s, ct)
            else:
                lv = target
                self.save(s, lv, self.default(s, ct))
            if c is not None:
                self.used_contracts.add(q)
                return [(s2, self.load(s2, lv)) for s2, _ in c.apply(self, s, lv, vs, e)]
            if f is None:
                raise Unsupported("constructor of %s with %d args" % (ct.name, len(vs)))
            tu, fn = f
            self.inlined.add(fn["_qual"])
            res = []
            for s2, kk, v in self.run_function(tu, fn, lv, vs, s):
                if kk == "throw": self.thr.append((s2, v))
                else: res.append((s2, self.load(s2, lv)))
            return res
        raise Unsupported("construct %r with %d args" % (ct, len(vs)))

    def user_copy(self, ct):
        return False

    def same_type(self, s, v, ct):
        if isinstance(v, LV):
            if v.ct.kind == "iter" or ct.kind == "iter": return v.ct.kind == ct.kind
            return v.ct == ct or (v.ct.kind == ct.kind and self.T.sort(v.ct) == self.T.sort(ct))
        if isinstance(v, Iter): return ct.kind == "iter"
        if isinstance(v, Lambda): return ct.kind == "lambda"
        if isinstance(v, MapElem): return False
        if z3.is_expr(v):
            if ct.kind == "iter": return False
            try:
                return v.sort() == self.T.sort(ct) and ct.kind not in ("ptr",)
            except Unsupported:
                return False
        return False

    # -------- calls
    def e_CallExpr(self, e, st):
        callee = e["inner"][0]
        args = e["inner"][1:]
        res = []
        for s, f in self.ev(callee, st):
            if isinstance(f, tuple) and f[0] == "fn":
                d = f[1]
                q = self.prog.qual(self.fr.tu, d)
                if d["name"] in self.models.V:
                    self.used_models.add(d["name"])
                    for s2, vs in self.evs(args, s):
                        res += self.models.V[d["name"]](self, s2, vs, e)
                    continue
                special = self.models.special(q, d["name"])
                if special:
                    self.used_models.add(d["name"])
                    res += special(self, s, args, e)
                    continue
                for s2, vs in self.evs(args, s):
                    res += self.call_function(q, d, vs, s2, e)
            elif isinstance(f, LV) and f.ct.kind == "fnptr" or (z3.is_expr(f)):
                for s2, vs in self.evs(args, s):
                    m = self.models.fnptr(self, s2, f, vs, e)
                    res += m
            else:
                raise Unsupported("call through %r" % (f,))
        return res

    def fill_defaults(self, q, vs, s):
        """value of default arguments, when the callee has a contract that talks about them"""
        if q is None or not any(isinstance(v, tuple) and v and v[0] == "defaultarg" for v in vs): return vs, s
        c = self.contracts.lookup(q, len(vs)) if self.contracts else None
        f = self.prog.find(q, len(vs)) if c is not None else None
        if f is None: return vs, s
        ps = [x for x in f[1].get("inner", []) if x.get("kind") == "ParmVarDecl"]
        out = []
        for v, p in zip(vs, ps):
            if isinstance(v, tuple) and v[0] == "defaultarg":
                init = [x for x in p.get("inner", []) if x.get("kind") not in ("FullComment",)]
                if not init: return vs, s
                rs = self.ev(init[0], s)
                if len(rs) != 1: raise Unsupported("branching default argument")
                s, v = rs[0]
            out.append(v)
        return out, s

    def call_function(self, q, d, vs, s, e):
        vs, s = self.fill_defaults(q, vs, s)
        vs2 = [v for v in vs if not (isinstance(v, tuple) and v[0] == "defaultarg")]
        if q is not None and ((self.contracts and self.contracts.lookup(q, len(vs2))) or self.prog.find(q, len(vs2))):
            return self.call_named(q, vs2, None, s, e)
        if self.contracts and self.contracts.lookup(d["name"], len(vs2)):
            return self.call_named(d["name"], vs2, None, s, e)
        m = self.models.func(d["name"])
        if m is None:
            raise Unsupported("call to external function %s" % d["name"])
        self.used_models.add(d["name"])
        return m(self, s, vs2, e)

    def e_CXXMemberCallExpr(self, e, st):
        callee = e["inner"][0]
        while callee["kind"] == "ParenExpr": callee = callee["inner"][0]
        args = e["inner"][1:]
        res = []
        for s, b in self.ev(callee["inner"][0], st):
            for s2, vs in self.evs(args, s):
                res += self.call_method(b, callee, vs, s2, e)
        return res

    def call_method(self, b, callee, vs, s, e):
        name = callee["name"]
        if any(isinstance(v, tuple) and v and v[0] == "defaultarg" for v in vs):
            vs, s = self.fill_defaults(self.prog.method_qual(self.fr.tu, callee), vs, s)
        vs = [v for v in vs if not (isinstance(v, tuple) and v[0] == "defaultarg")]
        arrow = callee.get("isArrow")
        base_t = callee["inner"][0]["type"]
        bct = None
        try:
            bct = self.T.parse(base_t)
        except Unsupported:
            pass
        # smart pointer methods use '.', pointee methods use '->' (operator-> call yields a pointer)
        if arrow:
            if isinstance(b, LV): b = self.load(s, b)
            if isinstance(b, PtrLV): lv = b.lv
            elif isinstance(b, Iter):
                lv = self.iter_deref(s, b, e)
            elif z3.is_expr(b):
                if bct is None or bct.kind != "ptr": raise Unsupported("method via pointer %s" % base_t)
                pt = bct.args[0]
                if pt.kind == "opaque" and pt.name == "element_type":      # std::shared_ptr<T>::element_type
                    mq = self.prog.method_qual(self.fr.tu, callee)
                    try: pt = self.T.parse(mq.rsplit("::", 1)[0]) if mq else pt
                    except Unsupported: pass
                if pt.kind in ("opaque",):
                    lv = ("opaque", b, pt.name)
                elif self.opaque_class(pt):
                    lv = ("opaque", b, pt.name)
                    if self.opts["bounds"]:
                        self.ob(s, "null pointer dereference", b != 0, e, "safety"); s.assume(b != 0)
                else:
                    lv = self.deref(s, b, pt, e)
            else:
                raise Unsupported("method on %s" % type(b).__name__)
        else:
            lv = b
            if not isinstance(lv, LV) and z3.is_expr(lv) and bct is not None:
                root = self.new_root("tmp", bct if bct.kind != "ref" else bct.args[0])
                s.store[root] = lv
                lv = LV(root, (), self.roots[root])
        # class name of the method
        q = self.prog.method_qual(self.fr.tu, callee)
        if q in self.models.VM and len(vs) >= 2 and z3.is_expr(vs[1]) and vs[1].sort() == self.T.cptr():
            # variadic: (db, format, ...) means the formatted text
            self.used_models.add(q + " (format)")
            vs = [vs[0], self.models.VM[q](self, s, vs[1:], e)]
        if q is not None:
            c = self.contracts.lookup(q, len(vs)) if self.contracts else None
            if c is not None or (isinstance(lv, LV) and lv.ct.kind == "struct" and self.prog.find(q, len(vs))):
                return self.call_named(q, vs, lv, s, e)
        m = self.models.method(self, lv, name, q)
        if m is None:
            raise Unsupported("method %s on %r" % (q or name, lv.ct if isinstance(lv, LV) else lv))
        self.used_models.add((lv.ct.kind if isinstance(lv, LV) else "?") + "::" + name)
        return m(self, s, lv, vs, e)

    def opaque_class(self, pt):
        return pt.kind == "struct" and pt.name in self.opts.get("opaque_classes", ())

    def e_CXXOperatorCallExpr(self, e, st):
        callee = e["inner"][0]
        args = e["inner"][1:]
        d = None
        x = callee
        while x and x["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            x = x["inner"][0]
        d = x.get("referencedDecl", {})
        op = d.get("name", "")
        res = []
        order = list(args)
        if op in ("operator=",):
            order = [args[1], args[0]]
        for s, vs in self.evs(order, st):
            if op == "operator=": vs = [vs[1], vs[0]]
            res += self.call_operator(op, d, vs, args, s, e)
        return res

    def call_operator(self, op, d, vs, args, s, e):
        q = self.prog.qual(self.fr.tu, d)
        b = vs[0]
        if d.get("kind") == "CXXMethodDecl" and isinstance(b, LV) and b.ct.kind in ("struct", "adt"):
            q2 = b.ct.name + "::" + op
            c = self.contracts.lookup(q2, len(vs) - 1) if self.contracts else None
            f = self.prog.find(q2, len(vs) - 1)
            if c is not None or (f is not None and not f[1].get("isImplicit") and not f[1].get("explicitlyDefaulted") and b.ct.kind == "struct"):
                return self.call_named(q2, vs[1:], b, s, e)
        elif d.get("kind") == "FunctionDecl" and q and self.prog.find(q, len(vs)):
            return self.call_named(q, vs, None, s, e)
        m = self.models.operator(self, op, vs, s, e)
        if m is None:
            raise Unsupported("%s on %r" % (op, b.ct if isinstance(b, LV) else b))
        return m

    # -------- iterators
    def iter_add(self, s, it, n):
        if it.lv.ct.kind in ("vec", "str"):
            pos = add(it.pos, z3.IntVal(n))
            ln = S.get(self.T.sort(it.lv.ct), 1, self.load(s, it.lv)) if it.lv.ct.kind == "vec" else slen(self.load(s, it.lv))
            return Iter(it.lv, pos, z3.simplify(pos >= ln) if isnum(pos) and isnum(ln) else pos >= ln)
        raise Unsupported("iterator arithmetic on %s" % it.lv.ct.kind)


def same_store(a, b):
    for k, v in b.items():
        w = a.get(k)
        if w is v: continue
        if z3.is_expr(v) and z3.is_expr(w) and v.eq(w): continue
        return False
    return True


def is_assert(e):
    def has(x):
        if isinstance(x, dict):
            if x.get("kind") == "DeclRefExpr" and x.get("referencedDecl", {}).get("name") == "__assert_fail":
                return True
            return any(has(y) for y in x.get("inner", []))
        return False
    return has(e["inner"][2])


def cstring(v):
    """value of a clang StringLiteral dump ('"...escaped..."')"""
    assert v[0] == '"', v
    v = v[1:-1]
    out = bytearray()
    i = 0
    while i < len(v):
        c = v[i]
        if c != "\\":
            out += c.encode("utf-8"); i += 1; continue
        n = v[i + 1]
        simple = {"n": 10, "t": 9, "r": 13, "0": 0, "\\": 92, '"': 34, "'": 39, "a": 7, "b": 8, "f": 12, "v": 11, "?": 63}
        m = re.match(r"[0-7]{1,3}", v[i + 1:i + 4])
        if m:
            out.append(int(m.group(0), 8)); i += 1 + len(m.group(0)); continue
        if n == "x":
            m = re.match(r"[0-9a-fA-F]+", v[i + 2:])
            out.append(int(m.group(0), 16) & 255); i += 2 + len(m.group(0)); continue
        out.append(simple[n]); i += 2
    return out.decode("latin-1")


class FullExec(ExprMixin, Exec):
    pass
