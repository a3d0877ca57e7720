"""Tealish program generator.

Programs draw their names (structs, functions, blocks, constants, variables)
from small shared pools, so that two programs of one run usually declare the
same name with different meanings: anything that leaks from one compilation to
another then changes a result.
"""
import os
import random
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STRUCTS = ["Item", "User", "Pos"]
FIELDS = ["id", "foo", "name", "owner", "price", "flag"]
FUNCS = ["sum", "pay", "check", "mix", "emit"]
BLOCKS = ["main", "setup", "fail", "other"]
CONSTS = ["FOO", "BAR", "BAZ", "LIMIT"]
WORDS = ["a", "xyz", "seller", "key", "Tealish", "\u00e9t\u00e9", "\u65e5\u672c", "hello world", "],", "end"]
KINDS = ["int", "bytes", "assert", "log", "put", "multi", "decl", "push", "assign", "if", "while", "for", "for_", "inner", "group", "teal", "struct",
         "box", "box", "setfield", "callstmt", "multicall"]
COMMENTS = ["a comment", "caf\u00e9 \u2603", "x = 1", "end", "TODO: nothing", "  spaced   out", "@public()", "], ] ["]


class Gen:
    def __init__(self, rng, size=1.0, unicode=True, fav=None):
        self.r = rng
        self.size = size
        self.unicode = unicode
        self.lines = []
        self.ind = 0
        self.vars = [{}]              # scopes: name -> type
        self.structs = {}
        self.consts = {}
        self.funcs = {}
        self.nvar = 0
        self.taken = set()            # names used in the current function or block
        self.in_loop = 0
        self.depth = 0
        self.fav = list(fav) if fav is not None else rng.sample(KINDS, rng.choice([1, 2, 3])) if rng.random() < 0.5 else []

    # ------------------------------------------------------------ utilities
    def ch(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return self.r.choice(list(xs))

    def emit(self, s):
        pad = "    " * self.ind
        if self.messy and self.ch(0.2):
            pad = " " * self.r.randint(0, 9)
        if self.messy and self.ch(0.1):
            s += " " * self.r.randint(1, 3)
        self.lines.append(pad + s)

    def word(self):
        w = self.pick(WORDS)
        if not self.unicode:
            w = w.encode("ascii", "ignore").decode() or "w"
        return w

    def comment(self):
        c = self.pick(COMMENTS)
        if not self.unicode:
            c = c.encode("ascii", "ignore").decode()
        return c

    def noise(self):
        if self.ch(0.12):
            self.emit("# " + self.comment() if self.ch(0.8) else "#" + self.comment())
        if self.ch(0.08):
            self.lines.append("")

    def visible(self, ty):
        out = []
        for sc in self.vars:
            out += [n for n, t in sc.items() if t == ty]
        return out

    def declare(self, ty):
        taken = self.taken | {n for sc in self.vars for n in sc}
        base = {"int": ["a", "b", "i", "n", "amount"], "bytes": ["s", "k", "data"]}.get(ty, ["it", "obj", "rec"])
        for _ in range(6):
            n = self.pick(base)
            if n not in taken:
                break
        else:
            n = None
        if n is None or n in taken:
            self.nvar += 1
            n = "%s%d" % (base[0], self.nvar)
        self.vars[-1][n] = ty
        self.taken.add(n)
        return n

    # ---------------------------------------------------------- expressions
    def int_lit(self):
        return str(self.pick([0, 1, 2, 5, 10, 42, 255, 256, 1000, 4294967296]))

    def bytes_lit(self):
        return '"%s"' % self.word()

    def int_expr(self, d=0):
        r = self.r
        opts = ["lit"] * 3
        if self.visible("int"):
            opts += ["var"] * 4
        if any(t == "int" for t in self.consts.values()):
            opts += ["const"] * 2
        if d < 3:
            opts += ["bin"] * 3 + ["btoi", "len", "txn", "global", "gtxn", "not", "balance", "op", "op"]
            if self.structs_in_scope("int"):
                opts += ["field"] * 3
            if self.funcs_of(["int"]) and self.calls_ok:
                opts += ["call"] * 2
            if self.structs:
                opts += ["sizeof", "convert"]
        k = self.pick(opts)
        e = self.int_expr
        if k == "lit":
            return self.int_lit()
        if k == "var":
            return self.pick(self.visible("int"))
        if k == "const":
            return self.pick([c for c, t in self.consts.items() if t == "int"])
        if k == "bin":
            op = self.pick(["+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "|", "&&", "^"])
            s = "%s %s %s" % (self.val(e(d + 1)), op, self.val(e(d + 1)))
            return s
        if k == "btoi":
            return "btoi(%s)" % self.bytes_expr(d + 1)
        if k == "len":
            return "len(%s)" % self.bytes_expr(d + 1)
        if k == "txn":
            return "Txn." + self.pick(["Fee", "Amount", "GroupIndex", "ApplicationID", "NumAppArgs", "FirstValid"])
        if k == "global":
            return "Global." + self.pick(["MinTxnFee", "LatestTimestamp", "Round", "GroupSize"])
        if k == "gtxn":
            return "Gtxn[%s].%s" % (self.pick(["0", "1", "-1", "+1"]), self.pick(["Amount", "Fee", "TypeEnum"]))
        if k == "not":
            return "!" + self.val(e(d + 1))
        if k == "balance":
            return "balance(%s)" % self.pick(["0", "Txn.Sender"])
        if k == "op":
            b = self.bytes_expr
            j = r.randrange(13)
            if j == 0:
                return "Txn.%s == %s" % self.pick([("TypeEnum", "Pay"), ("TypeEnum", "Axfer"), ("OnCompletion", "NoOp"), ("OnCompletion", "OptIn")])
            if j == 1:
                return "%s b%s %s" % (self.val(b(d + 1)), self.pick(["<", ">", "==", "!=", ">="]), self.val(b(d + 1)))
            if j == 2:
                return "select(%s, %s, %s)" % (e(d + 1), e(d + 1), e(d + 1))
            if j == 3:
                return "app_global_get(%s)" % b(d + 1)
            if j == 4:
                return "app_local_get(%s, %s)" % (self.pick(["0", "Txn.Sender"]), b(d + 1))
            if j == 5:
                return "getbyte(%s, %s)" % (b(d + 1), e(d + 1))
            if j == 6:
                return "extract_uint%d(%s, %s)" % (self.pick([16, 32, 64]), b(d + 1), e(d + 1))
            if j == 7:
                return "~" + self.val(e(d + 1))
            if j == 8:
                return "%s(%s)" % (self.pick(["sqrt", "min_balance", "bitlen"]), e(d + 1))\
                    if self.ch(0.7) else "box_create(%s, %d)" % (b(d + 1), self.pick([4, 100]))
            if j == 9:
                return "Itxn." + self.pick(["Fee", "CreatedAssetID", "NumLogs"])
            if j == 10:
                return "Txn.%s[%d]" % (self.pick(["Assets", "Applications"]), r.randint(0, 2))
            if j == 11:
                return "Gtxn[%s].%s" % (self.pick(self.visible("int") + ["2", "-2"]), self.pick(["Amount", "AssetAmount", "XferAsset"]))
            return "%s(%s)" % self.pick([("txn", "Fee"), ("txn", "Amount"), ("global", "Round"), ("global", "MinBalance")])
        if k == "field":
            v, f = self.pick(self.structs_in_scope("int"))
            return "%s.%s" % (v, f)
        if k == "call":
            return self.call(self.pick(self.funcs_of(["int"])), d)
        if k == "sizeof":
            return "SizeOf(%s)" % self.pick(self.structs)
        if k == "convert":
            return "Convert(%s, int)" % self.bytes_expr(d + 1)
        raise AssertionError(k)

    @staticmethod
    def val(s):
        """As an operand: anything with a top-level operator goes in parentheses."""
        depth, q = 0, False
        for c in s:
            if c == '"':
                q = not q
            elif not q:
                depth += c in "(["
                depth -= c in ")]"
                if c == " " and depth == 0:
                    return "(" + s + ")"
        return s

    def bytes_expr(self, d=0):
        opts = ["lit"] * 3
        if self.visible("bytes"):
            opts += ["var"] * 3
        if any(t == "bytes" for t in self.consts.values()):
            opts += ["const"] * 2
        if d < 3:
            opts += ["concat", "itob", "sha", "arg", "sender", "Concat", "pad", "bin", "tobytes", "event", "bzero", "op", "op"]
            if self.structs_in_scope("bytes"):
                opts += ["field"] * 3
            if self.funcs_of(["bytes"]) and self.calls_ok:
                opts += ["call"] * 2
        k = self.pick(opts)
        e = self.bytes_expr
        if k == "lit":
            return self.bytes_lit()
        if k == "var":
            return self.pick(self.visible("bytes"))
        if k == "const":
            return self.pick([c for c, t in self.consts.items() if t == "bytes"])
        if k == "concat":
            return "concat(%s, %s)" % (e(d + 1), e(d + 1))
        if k == "itob":
            return "itob(%s)" % self.int_expr(d + 1)
        if k == "sha":
            return "%s(%s)" % (self.pick(["sha256", "keccak256", "sha512_256"]), e(d + 1))
        if k == "arg":
            return "Txn.ApplicationArgs[%d]" % self.r.randint(0, 5)
        if k == "sender":
            return self.pick(["Txn.Sender", "Global.CreatorAddress", "Gtxn[0].Sender", "Txn.Accounts[1]"])
        if k == "Concat":
            return "Concat(%s)" % ", ".join(e(d + 1) for _ in range(self.r.randint(2, 3)))
        if k == "pad":
            return "%s(%s, %d)" % (self.pick(["Rpad", "Lpad"]), e(d + 1), self.pick([8, 10, 32]))
        if k == "bin":
            return "%s %s %s" % (self.val(e(d + 1)), self.pick(["b+", "b-", "b*", "b/", "b|", "b^"]), self.val(e(d + 1)))
        if k == "tobytes":
            return "ToBytes(%s, %d)" % (self.int_expr(d + 1), self.pick([1, 4, 8, 16]))
        if k == "event":
            return 'ARC28Event("ev(uint64)", itob(%s))' % self.int_expr(d + 1)
        if k == "op":
            j = self.r.randrange(7)
            if j == 0:
                return "app_global_get(%s)" % e(d + 1)
            if j == 1:
                return "extract3(%s, %s, %s)" % (e(d + 1), self.int_expr(d + 1), self.int_expr(d + 1))
            if j == 2 and d < 2:        # (a call with constants that is processed twice does not compile)
                return "%s(%d, %d, %s)" % (self.pick(["extract", "substring"]), self.pick([0, 1]), self.pick([2, 8]), e(d + 1))
            if j == 3:
                return "setbyte(%s, %s, %s)" % (e(d + 1), self.int_expr(d + 1), self.int_expr(d + 1))
            if j == 4:
                return "b~" + self.val(e(d + 1))
            if j == 5:
                return "box_extract(%s, 0, %d)" % (e(d + 1), self.pick([8, 32]))
            return self.pick(["Global.GroupID", "Txn.Note", "Txn.Lease", "Gtxn[0].Note", "Itxn.LastLog"])
        if k == "bzero":
            return "bzero(%d)" % self.pick([1, 8, 32])
        if k == "field":
            v, f = self.pick(self.structs_in_scope("bytes"))
            return "%s.%s" % (v, f)
        if k == "call":
            return self.call(self.pick(self.funcs_of(["bytes"])), d)
        raise AssertionError(k)

    def structs_in_scope(self, ty):
        out = []
        for sc in self.vars:
            for n, t in sc.items():
                s = t[4:-1] if t.startswith("box<") else t
                if s in self.structs:
                    for f, ft in self.structs[s]:
                        if (ty == "int") == (ft in ("int", "uint64", "uint8")):
                            out.append((n, f))
        return out

    def funcs_of(self, rets):
        return [n for n, (a, r, pub) in self.funcs.items() if r == rets and not pub]

    def call(self, name, d=0):
        args, _, _ = self.funcs[name]
        return "%s(%s)" % (name, ", ".join(self.int_expr(d + 1) if t == "int" else self.bytes_expr(d + 1) for _, t in args))

    # ----------------------------------------------------------- statements
    def statements(self, n):
        for _ in range(n):
            self.noise()
            self.statement()

    def statement(self):
        r = self.r
        opts = ["int"] * 4 + ["bytes"] * 3 + ["assert"] * 2 + ["log"] * 2 + ["put", "multi", "decl", "push"]
        if self.visible("int"):
            opts += ["assign"] * 3
        if self.depth < 3:
            opts += ["if"] * 3 + ["while", "for", "for_", "inner", "group", "teal"]
        if self.structs:
            opts += ["struct"] * 3 + ["box"]
            if self.structs_in_scope("int") or self.structs_in_scope("bytes"):
                opts += ["setfield"] * 3
        if self.in_loop and self.ch(0.2):
            opts += ["break"] * 3
        if self.funcs_of([]) and self.calls_ok:
            opts += ["callstmt"] * 2
        if self.funcs_of(["int", "int"]) and self.calls_ok:
            opts += ["multicall"] * 2
        fav = [x for x in self.fav if x in opts]
        k = self.pick(fav) if fav and self.ch(0.5) else self.pick(opts)
        if k == "int":
            e = self.int_expr()
            self.emit("int %s = %s" % (self.declare("int"), e))
        elif k == "bytes":
            e = self.bytes_expr()
            self.emit("bytes %s = %s" % (self.declare("bytes"), e))
        elif k == "decl":
            t = self.pick(["int", "bytes"])
            self.emit("%s %s" % (t, self.declare(t)))
        elif k == "assert":
            m = ', "%s"' % self.word() if self.ch(0.6) else ""
            self.emit("assert(%s%s)" % (self.int_expr(3), m))
        elif k == "log":
            self.emit("log(%s)" % self.bytes_expr(1))
        elif k == "put":
            self.emit("app_global_put(%s, %s)" % (self.bytes_expr(2), self.int_expr(2)))
        elif k == "multi":
            a, b = self.declare("int"), self.declare("int")
            self.emit("int " + a)
            self.emit("int " + b)
            self.emit("%s, %s = %s" % (self.pick([a, "_"]), b, self.pick([
                lambda: "asset_holding_get(%s, %s, %s)" % (self.pick(["AssetBalance", "AssetFrozen"]), self.pick(["0", "Txn.Sender"]), self.int_expr(2)),
                lambda: "asset_params_get(%s, %s)" % (self.pick(["AssetTotal", "AssetDecimals"]), self.int_expr(2)),
                lambda: "app_params_get(%s, %s)" % (self.pick(["AppGlobalNumUint", "AppLocalNumUint"]), self.int_expr(2)),
                lambda: "acct_params_get(%s, %s)" % (self.pick(["AcctBalance", "AcctMinBalance"]), self.int_expr(2)),
                lambda: "addw(%s, %s)" % (self.int_expr(2), self.int_expr(2)),
                lambda: "app_global_get_ex(0, %s)" % self.bytes_expr(2)])()))
        elif k == "push":
            self.emit("push(%s)" % self.int_expr(1))
            v = self.declare("int")
            self.emit("int %s = pop()" % v)
        elif k == "assign":
            self.emit("%s = %s" % (self.pick(self.visible("int")), self.int_expr()))
        elif k == "if":
            self.emit("if %s%s:" % ("not " if self.ch(0.2) else "", self.int_expr()))
            self.body(r.randint(1, 3))
            for _ in range(self.pick([0, 0, 0, 1, 2])):
                self.emit("elif %s:" % self.int_expr())
                self.body(r.randint(1, 2))
            if self.ch(0.4):
                self.emit("else:")
                self.body(r.randint(1, 2))
            self.emit("end")
        elif k == "while":
            self.emit("while %s%s:" % ("not " if self.ch(0.2) else "", self.int_expr()))
            self.in_loop += 1
            self.body(r.randint(1, 3))
            self.in_loop -= 1
            self.emit("end")
        elif k in ("for", "for_"):
            a = self.pick(["0", "1"] + self.visible("int"))
            b = self.pick(["3", "10"] + self.visible("int"))
            if k == "for_":
                self.emit("for _ in %s:%s:" % (a, b))
                self.body(r.randint(1, 2))
            else:
                v = self.pick(["x", "y", "z"])
                taken = self.taken | {n for sc in self.vars for n in sc}
                if v in taken:
                    self.nvar += 1
                    v = "x%d" % self.nvar
                self.emit("for %s in %s:%s:" % (v, a, b))
                self.vars.append({v: "int"})
                self.taken.add(v)
                self.body(r.randint(1, 2))
                self.vars.pop()
            self.emit("end")
        elif k == "inner":
            self.inner()
        elif k == "group":
            self.emit("inner_group:")
            self.ind += 1
            for _ in range(r.randint(1, 2)):
                self.inner()
            self.ind -= 1
            self.emit("end")
        elif k == "teal":
            self.emit("teal:")
            self.ind += 1
            for s in self.r.sample(["int 7", "pop", "byte \"q\"", "int 1; +", "dup // twice"], r.randint(1, 3)):
                self.emit(s)
            self.ind -= 1
            self.emit("end")
        elif k == "struct":
            s = self.pick(self.structs)
            e = self.pick(["Cast(bzero(%d), %s)" % (self.size_of(s), s), "Cast(%s, %s)" % (self.bytes_expr(2), s),
                           "UncheckedCast(%s, %s)" % (self.bytes_expr(2), s)])
            self.emit("%s %s = %s" % (s, self.declare(s), e))
        elif k == "box":
            s = self.pick(self.structs)
            t = "box<%s>" % s
            key = self.bytes_expr(2)
            self.emit("%s %s = %sBox(%s)" % (t, self.declare(t), self.pick(["Create", "Open"]), key))
        elif k == "setfield":
            if self.structs_in_scope("int") and self.ch(0.5):
                v, f = self.pick(self.structs_in_scope("int"))
                ft = self.field_type(v, f)
                e = self.int_expr(1)
                self.emit("%s.%s = %s" % (v, f, e if ft != "uint8" else "Cast(%s, uint8)" % e))
            elif self.structs_in_scope("bytes"):
                v, f = self.pick(self.structs_in_scope("bytes"))
                ft = self.field_type(v, f)
                n = int(ft[6:-1]) if "[" in ft else 32
                self.emit("%s.%s = Rpad(%s, %d)" % (v, f, self.bytes_expr(2), n))
        elif k == "break":
            self.emit("break")
        elif k == "callstmt":
            self.emit(self.call(self.pick(self.funcs_of([])), 1))
        elif k == "multicall":
            f = self.pick(self.funcs_of(["int", "int"]))
            c = self.call(f, 1)
            a, b = self.declare("int"), self.declare("int")
            self.emit("int " + a)
            self.emit("int " + b)
            self.emit("%s, %s = %s" % (a, self.pick([b, "_"]), c))

    def field_type(self, v, f):
        for sc in self.vars:
            if v in sc:
                t = sc[v]
                s = t[4:-1] if t.startswith("box<") else t
                for n, ft in self.structs.get(s, ()):
                    if n == f:
                        return ft
        return "int"

    def body(self, n):
        self.ind += 1
        self.depth += 1
        self.vars.append({})
        self.statements(n)
        self.vars.pop()
        self.depth -= 1
        self.ind -= 1

    def inner(self):
        self.emit("inner_txn:")
        self.ind += 1
        if self.ch(0.5):
            self.emit("TypeEnum: Pay")
            self.emit("Receiver: " + self.pick(["Txn.Sender", "Txn.Accounts[1]"]))
            self.emit("Amount: " + self.int_expr(2))
        else:
            self.emit("TypeEnum: " + self.pick(["Appl", "Axfer"]))
            self.emit("ApplicationArgs[0]: " + self.bytes_expr(2))
            if self.ch(0.5):
                self.emit("ApplicationArgs[1]: " + self.bytes_expr(2))
        if self.ch(0.5):
            self.emit("Fee: 0")
        self.ind -= 1
        self.emit("end")

    def size_of(self, s):
        return sum({"int": 8, "uint64": 8, "uint8": 1, "addr": 32}.get(t) or (int(t[6:-1]) if "[" in t else 8)
                   for _, t in self.structs[s])

    # -------------------------------------------------------------- programs
    def func_sig(self, names):
        n = self.pick(names)
        args = []
        for i in range(self.r.randint(0, 3)):
            args.append(("pqr"[i], self.pick(["int", "int", "bytes"])))
        rets = self.pick([[], ["int"], ["int"], ["bytes"], ["int", "int"]])
        return n, args, rets

    def func(self, name):
        args, rets, pub = self.funcs[name]
        if pub:
            self.emit("@public(%s)" % self.pick(["", "", "OnCompletion=OptIn", "OnCompletion=DeleteApplication"]))
        self.emit("func %s(%s)%s:" % (name, ", ".join("%s: %s" % a for a in args), (" " + ", ".join(rets)) if rets else ""))
        self.ind += 1
        saved, self.vars = self.vars, [dict(args)]
        self.taken = set(self.top_taken)
        loop, self.in_loop = self.in_loop, 0
        self.depth += 1
        self.statements(self.r.randint(1, 3))
        ex = [self.int_expr(2) if t == "int" else self.bytes_expr(2) for t in rets]
        # byte operators in a return are typed loosely: keep them simple
        self.emit(("return " + ", ".join(ex)).strip())
        self.depth -= 1
        self.vars = saved
        self.in_loop = loop
        self.ind -= 1
        self.emit("end")

    def program(self):
        r = self.r
        self.messy = self.ch(0.3)
        self.calls_ok = True
        if self.ch(0.7):
            self.lines.append("#pragma version %d" % self.pick([6, 8, 9]))
            if self.ch(0.5):
                self.lines.append("")
        for _ in range(self.pick([0, 0, 1, 2])):
            self.lines.append("# " + self.comment())
        for s in r.sample(STRUCTS, self.pick([1, 1, 2] if {"box", "struct", "setfield"} & set(self.fav) else [0, 1, 1, 2, 3])):
            fields = []
            for f in r.sample(FIELDS, r.randint(1, 4)):
                t = self.pick(["int", "uint64", "uint8", "bytes[%d]" % self.pick([1, 8, 10, 32])])
                if t == "uint8" and self.ch(0.5):
                    t = "int"
                fields.append((f, t))
            self.emit("struct %s:" % s)
            for f, t in fields:
                if self.ch(0.1):
                    self.emit("    # " + self.comment())
                self.emit("    %s: %s" % (f, t))
            self.emit("end")
            self.structs[s] = fields
            if self.ch(0.5):
                self.lines.append("")
        for c in r.sample(CONSTS, r.randint(0, 3)):
            t = self.pick(["int", "bytes"])
            self.emit("const %s %s = %s" % (t, c, self.int_lit() if t == "int" else self.pick([self.bytes_lit(), "0x" + r.randbytes(r.randint(1, 5)).hex()])))
            self.consts[c] = t
        style = self.pick(["exit", "exit", "switch", "router", "jump"])
        names = list(FUNCS)
        r.shuffle(names)
        for n in names[:r.randint(0, 3)]:
            _, args, rets = self.func_sig([n])
            self.funcs[n] = (args, rets, False)
        pubs = []
        if style == "router":
            for n in names[3:3 + r.randint(1, 2)]:
                args = [(x, self.pick(["int", "bytes", "bytes[32]"])) for x in "pq"[:r.randint(0, 2)]]
                self.funcs[n] = ([(a, t) for a, t in args], self.pick([[], [], ["int"], ["int"], ["bytes"], ["int", "bytes"], ["bytes", "int"], ["int", "int"],
                                                                  ["int", "bytes", "int"]]), True)
                pubs.append(n)
        big = max(1, int(r.randint(1, 6) * self.size))
        blocks = r.sample(BLOCKS, r.randint(1, 3)) if style in ("switch", "jump") else (r.sample(BLOCKS, self.pick([0, 1])) if style == "exit" else [])
        if big < 4 and self.ch(0.5):        # short, but with several variables
            for _ in range(r.randint(2, 5)):
                t = self.pick(["int", "bytes"])
                n = self.declare(t)
                self.emit("%s %s" % (t, n) if self.ch(0.3) else "%s %s = %s" % (t, n, self.int_lit() if t == "int" else self.bytes_lit()))
        self.statements(big)
        if style == "exit":
            self.emit("exit(%s)" % self.int_expr(1))
        elif style == "jump":
            self.emit("jump " + blocks[0])
        elif style == "switch":
            if self.ch(0.5):
                self.emit("switch Txn.ApplicationArgs[0]:")
                for b in blocks:
                    self.emit('    "%s": %s' % (b, b))
                if self.ch(0.5):
                    self.emit("    else: " + blocks[-1])
            else:
                self.emit("switch Txn.OnCompletion:")
                for c, b in zip(["NoOp", "OptIn", "CloseOut"], blocks):
                    self.emit("    %s: %s" % (c, b))
            self.emit("end")
        else:
            self.emit("router:")
            for n in pubs:
                self.emit("    " + n)
            self.emit("end")
        top = self.vars
        self.vars = [dict(x) for x in top]
        self.top_taken = set(self.taken)
        for b in blocks:
            self.lines.append("")
            self.emit("block %s:" % b)
            self.ind += 1
            self.vars.append({})
            self.taken = set(self.top_taken)
            self.statements(r.randint(1, max(1, int(3 * self.size))))
            self.vars.pop()
            self.emit("exit(%s)" % self.int_expr(1))
            self.ind -= 1
            self.emit("end")
        for n in self.funcs:
            self.lines.append("")
            self.func(n)
        src = "\n".join(self.lines)
        return src + self.pick(["\n", "\n", "", "\n\n"])


def program(rng, size=1.0, unicode=True, fav=None):
    return Gen(rng, size, unicode, fav).program()


FEATURES = ["struct ", "box<", "Cast(", "SizeOf(", "_params_get", "asset_holding_get", "router", "@public", "inner_txn", "inner_group", "switch", "assert(",
            "const ", "func ", "while ", "for ", "teal:", "push(", "Gtxn[", "_ in ", "elif ", "return ", "block ", "Convert(", "ARC28Event"]


def richness(src):
    """How many features of the language a program uses."""
    return sum(f in src for f in FEATURES) + 3 * ("box<" in src) + 2 * ("_get(A" in src)


def graft(rng, src, other):
    """src with a name (of a type, field, constant, function or variable) of another program in place of one of its own."""
    cls = rng.choice([r"\b[A-Z][A-Za-z0-9]*[a-z][A-Za-z0-9]*\b", r"\b[A-Z]{2,}\b", r"\b[a-z][a-z0-9_]*(?=\()", r"\b[a-z][a-z0-9]*\b"])
    a = [m.span() for m in re.finditer(cls, src)]
    b = sorted(set(re.findall(cls, other)) - {"end", "if", "else", "while", "block", "func", "switch", "exit", "const", "struct", "int", "bytes"})
    if not a or not b:
        return src
    i, j = rng.choice(a)
    return src[:i] + rng.choice(b) + src[j:]


ALIKE = [["asset_params_get", "app_params_get", "acct_params_get"], ["sha256", "keccak256", "sha512_256", "btoi", "itob", "len", "bitlen", "sqrt", "balance"],
         ["Txn.", "Global.", "Itxn."], ["concat", "app_global_get_ex", "getbyte", "app_local_get"], ["log", "assert", "exit", "push"],
         ["CreateBox", "OpenBox"], ["Cast", "UncheckedCast", "Convert"], ["Rpad", "Lpad", "ToBytes"]]


def respell(rng, src, other=None):
    """The same program with another operation of the same shape somewhere."""
    g = [x for x in ALIKE if any(y in src for y in x)]
    if not g:
        return src
    g = g[0] if rng.random() < 0.4 else rng.choice(g)
    at = [m.span() for m in re.finditer("|".join(re.escape(y) for y in g), src)]
    i, j = rng.choice(at)
    return src[:i] + rng.choice([y for y in g if y != src[i:j]]) + src[j:]


def reshape(rng, src, other=None):
    """The same program with the fields of a struct in another order, or of other types."""
    lines = src.split("\n")
    heads = [i for i, s in enumerate(lines) if s.strip().startswith("struct ")]
    if not heads:
        return src
    heads = heads if rng.random() < 0.6 else [rng.choice(heads)]
    for i in heads:
        _reshape(rng, lines, i)
    return "\n".join(lines)


def _reshape(rng, lines, i):
    j = next((k for k in range(i + 1, len(lines)) if lines[k].strip() == "end"), i + 1)
    body = lines[i + 1:j]
    if rng.random() < 0.5:
        rng.shuffle(body)
    else:
        other = {"int": ["uint8", "uint64"], "uint64": ["uint8", "int"], "uint8": ["int"], "bytes[1]": ["bytes[8]"], "bytes[8]": ["bytes[10]", "bytes[32]"],
                 "bytes[10]": ["bytes[8]", "bytes[1]"], "bytes[32]": ["bytes[10]"]}
        for k, s in enumerate(body):
            h, _, t = s.rpartition(": ")
            if t.strip() in other and rng.random() < 0.6:
                body[k] = h + ": " + rng.choice(other[t.strip()])
    lines[i + 1:j] = body


def borrow(rng, src, other):
    """src with a line of another program somewhere."""
    lines = src.split("\n")
    xs = [s for s in other.split("\n") if s.strip() and not s.strip().startswith("#")]
    if xs and rng.random() < 0.5:
        lines.insert(rng.randrange(len(lines) + 1), rng.choice(xs))
    elif xs:                                # a whole construct, to the top level
        ys = other.split("\n")
        heads = [i for i, s in enumerate(ys) if OPENS.match(s)]
        if heads:
            i = rng.choice(heads)
            tops = [j for j in range(len(lines) + 1) if j == len(lines) or lines[j][:1].strip() and not re.match(r"(end|el|case|@)", lines[j])]
            j = rng.choice(tops[:3] if rng.random() < 0.5 else tops)
            lines[j:j] = ys[i:close(ys, i) + 1]
    return "\n".join(lines)


OPENS = re.compile(r"\s*(struct|func|block|if|while|for|switch|inner_txn|inner_group|router|teal)\b[^#]*:\s*(#.*)?$")


def close(lines, i):
    """The line that ends the construct beginning at line i."""
    depth = 0
    for j in range(i, len(lines)):
        if OPENS.match(lines[j]):
            depth += 1
        elif lines[j].strip() == "end":
            depth -= 1
            if depth <= 0:
                return j
    return len(lines) - 1


def features(src):
    return {f for f in FEATURES if f in src}


def twin(rng, src, other=None):
    """The same program but for one digit or letter of a literal: as long as before, also when compiled."""
    at = []
    for m in re.finditer(r'(?m)^(?![ \t]*#).*$', src):
        line = m.group()
        if "0x" in line or "bytes[" in line:
            continue
        for q in re.finditer(r'"([^"\\\n]*)"', line):
            at += [m.start() + q.start(1) + n for n, c in enumerate(q.group(1)) if c.isascii() and c.isalnum()]
        bare = re.sub(r'"[^"\n]*"', lambda q: " " * len(q.group()), line).split("#")[0]
        at += [m.start() + q.end() - 1 for q in re.finditer(r"(?<![\w.])\d+(?![\w.])", bare)]
    if not at:
        return src
    n = rng.choice(at)
    c = src[n]
    new = rng.choice([x for x in ("123456789" if c.isdigit() else "abcdefghijklmnopqrstuvwxyz") if x != c])
    return src[:n] + new + src[n + 1:]


def orphan(rng, src, other=None):
    """src without one of its definitions (which is used or not)."""
    lines = src.split("\n")
    heads = [i for i, s in enumerate(lines) if re.match(r"\s*(struct|func|block|const|@\w+)\b", s)]
    if not heads:
        return src
    i = rng.choice(heads)
    s = lines[i].strip()
    if s.startswith("const"):
        del lines[i]
        return "\n".join(lines)
    return "\n".join(lines[:i] + lines[close(lines, i) + 1:])


def struct_pair(rng, size=0.5):
    """Two short programs whose same-named declarations differ."""
    out = []
    for _ in range(2):
        out.append(Gen(rng, size).program())
    return out


# ----------------------------------------------------------------- mutations
BAD = ["assert(", "int 9x = 1", "end", "bytes q = 1 + 2", "Nope z = bzero(1)", "jump nowhere", "int v = nofunc(1)",
       "if 1:", "it.nofield = 1", "exit(undefined_name)", "func broken(:", "teal:", "return 1", "int v = Cast(bzero(4), Nope)",
       "int w = SizeOf(Item)", "int w = SizeOf(User)", "User ww = Cast(bzero(8), User)", "Item ww = Cast(bzero(18), Item)",
       "box<Pos> bb = OpenBox(\"k\")", "bytes q = Txn.NoSuchField", "int q = FOO + 1", "bytes q = BAR", "int q = sum(1, 2)",
       "exit(1 + )", "int v = (1", "int v = 1 1", 'log("a" "b")', "assert(1 ==)", "int v = concat(1,)", "exit(@)", 'int v = "x"',
       "exit(\"s\")", "bytes[4] z = \"abc\"", "int v = btoi(1)", "int v = substring3(\"abc\", 1)", "assert(bzero(4), \"m\")",
       "int v = itob(1) + 1", "log(Txn.Fee)", "int v = w1 + w2", "exit(AssetBalance)", "exit(Txn.MinTxnFee)", "exit(Global.Fee)",
       "int w1\nint w2\nw1, w2 = asset_params_get(AssetBalance, 0)", "int w1\nint w2\nw1, w2 = asset_holding_get(AssetTotal, 0, 1)",
       "int w1\nint w2\nw1, w2 = app_params_get(AcctBalance, 0)", "int w1\nint w2\nw1, w2 = acct_params_get(AppGlobalNumUint, 0)",
       "int w1\nint w2\nw1, w2 = asset_holding_get(AssetFrozen, 0, 1)", "int w1\nint w2\nw1, w2 = asset_params_get(AssetTotal, 0)",
       "int v = Txn.Round", "int v = Nope", "err()", "int v = AppGlobalNumUint", "int v = txn(MinTxnFee)", "int v = global(Fee)"]


def mutate(rng, src):
    """A program that most likely fails, somewhere in the middle."""
    lines = src.split("\n")
    k = rng.choice(["insert", "insert", "insert", "delete", "cut", "dupline", "swap", "rename", "garble"])
    i = rng.randrange(len(lines))
    if k == "insert":
        lines.insert(i, rng.choice(BAD))
    elif k == "delete":
        del lines[i]
    elif k == "cut":
        lines = lines[:i]
    elif k == "dupline":
        lines.insert(i, lines[i])
    elif k == "swap" and len(lines) > 1:
        j = rng.randrange(len(lines))
        lines[i], lines[j] = lines[j], lines[i]
    elif k == "rename":
        a, b = rng.sample(STRUCTS + FUNCS, 2)
        lines[i] = lines[i].replace(a, b)
    else:
        s = lines[i]
        j = rng.randrange(len(s) + 1)
        lines[i] = s[:j] + rng.choice("()=:[]\"'@#.,+ x0") + s[j + 1:]
    return "\n".join(lines)


_corpus = None


def corpus():
    global _corpus
    if _corpus is None:
        d = os.path.join(HERE, "corpus")
        _corpus = []
        for n in sorted(os.listdir(d)):
            with open(os.path.join(d, n), encoding="utf-8") as f:
                _corpus.append((n, f.read()))
    return _corpus


def big_program(rng, n):
    """A long straight-line program (several disk buffers of output)."""
    out = ["#pragma version 8", ""]
    for i in range(n):
        out.append(rng.choice(['app_global_put("key%d", %d)' % (i, i), 'log("line %d \u00e9")' % i,
                               'assert(%d < Txn.Fee, "message %d")' % (i, i)]))
    out += ["exit(1)", ""]
    return "\n".join(out)
