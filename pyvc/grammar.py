"""The productions of /repo's grammar, read with Lark's own grammar loader, and what each hands to the transformer.

Items of a production: ('lit', text) a terminal that is one fixed string; ('tok', NAME) another terminal; ('nt', rule);
('alt', [texts]) one of several fixed strings; ('union', [items]); ('star', item); ('plus', item); ('opt', [items]).
Rules of one symbol ('?rule') are replaced by what they stand for, as Lark does; filtered tokens are left out.
"""
import re

import z3
from lark import Tree
from lark.grammar import NonTerminal, Terminal
from lark.load_grammar import load_grammar
from pyvc import boot  # noqa: F401
from pddl.parser import GRAMMAR_FILE, PARSERS_DIRECTORY

from pyvc import builtins_ as b
from pyvc.interp import z3b
from pyvc.values import *  # noqa


class Grammar:
    def __init__(self):
        text = GRAMMAR_FILE.read_text()
        g, _ = load_grammar(text, str(GRAMMAR_FILE), [str(PARSERS_DIRECTORY)], False)
        self.ignore = list(g.ignore)
        self.terms = {}
        for name, (tree, prio) in g.term_defs:
            toks = [t for t in tree.scan_values(lambda t: hasattr(t, "type"))]
            if len(toks) != 1 or prio:
                self.terms[str(name)] = ("other", str(tree))
            elif toks[0].type == "STRING":
                self.terms[str(name)] = ("lit", _unquote(str(toks[0])))
            else:
                self.terms[str(name)] = ("re", str(toks[0]))
        self.rules, self.expand1 = {}, set()
        self.raw = {}
        for name, params, exp, opts in g.rule_defs:
            if params or opts.keep_all_tokens or opts.priority:
                raise Unsupported(f"grammar rule {name}")
            self.raw[str(name)] = exp
            if opts.expand1:
                self.expand1.add(str(name))
        for n, e in self.raw.items():
            self.rules[n] = [self.expansion(x) for x in e.children]
        self.single = {n: self.alternatives(n) for n in self.expand1 if self.is_single(n)}

    def expansion(self, e):
        if e.data == "alias":
            raise Unsupported("alias in the grammar")
        out = []
        for x in e.children:
            out += self.item(x)
        return out

    def item(self, x):
        if x.data == "value":
            s = x.children[0]
            if isinstance(s, NonTerminal):
                return [("nt", str(s.name))]
            if isinstance(s, Terminal):
                k, v = self.terms[str(s.name)]
                return [("lit", v, str(s.name))] if k == "lit" else [("tok", str(s.name))]
            if isinstance(s, Tree) and s.data == "literal":
                return [("anon", _unquote(str(s.children[0])))]  # it is filtered out
        if x.data == "expr" and len(x.children) == 2:
            sub = self.item(x.children[0])
            op = {"*": "star", "+": "plus", "?": "optional"}[str(x.children[1])]
            return [(op, sub)]
        if x.data == "maybe":
            e = x.children[0]
            if e.data == "expansions" and len(e.children) == 1:
                return [("opt", self.expansion(e.children[0]))]
        if x.data == "expansions":
            if len(x.children) == 1:
                return [("group", self.expansion(x.children[0]))]
        raise Unsupported(f"grammar: {x}")

    def is_single(self, n):
        return all(sum(s[0] != "anon" for s in p) == 1 for p in self.rules[n])

    def alternatives(self, n):
        out = []
        for p in self.rules[n]:
            s = [x for x in p if x[0] != "anon"][0]
            pre = "".join(x[1] for x in p if x[0] == "anon")
            if s[0] == "nt" and s[1] in self.expand1 and self.is_single(s[1]):
                out += [x if not pre else (x[0], x[1], pre + (x[2] if len(x) > 2 else x[1])) for x in self.alternatives(s[1])]
            else:
                out.append(s if not pre else (s[0], s[1], pre + s[1]))
        return out

    def resolve(self, s):
        """What stands for an item once rules of one symbol are replaced."""
        if s[0] != "nt" or s[1] not in self.single:
            return s
        alts = self.single[s[1]]
        if len(alts) == 1:
            return alts[0]
        if all(a[0] == "lit" for a in alts):
            return ("alt", sorted(a[1] for a in alts))
        return ("union", alts)

    def productions(self, n):
        """[(key, items)] of a rule."""
        return [(f"{n}: {self.key(p)}".strip(), p) for p in self.rules[n]]

    def key(self, items):
        out = []
        for s in items:
            s = self.resolve(s)
            k = s[0]
            if k == "lit":
                out.append(s[1])
            elif k == "anon":
                out.append("'" + s[1])
            elif k in ("tok", "nt"):
                out.append(s[2] if len(s) > 2 else s[1])
            elif k == "alt":
                out.append("<" + "|".join(s[1]) + ">")
            elif k == "union":
                out.append("<" + "|".join(self.key([x]) for x in s[1]) + ">")
            elif k in ("star", "plus", "optional"):
                out.append(self.key(s[1]) + {"star": "*", "plus": "+", "optional": "?"}[k])
            elif k == "opt":
                out.append("[" + self.key(s[1]) + "]")
            elif k == "group":
                out.append("{" + self.key(s[1]) + "}")
        return " ".join(out)


def _unquote(s):
    import ast

    return ast.literal_eval(s)


class Part:
    """A part of the text."""

    def __init__(self, rule, children):
        self.rule, self.children = rule, children


class Builder:
    """Arguments of a callback: what the parser hands over for a production.

    cut: rule -> type of its values (library objects); other rules are run through the real callbacks.
    Leaves: what a production says, for the contract: names, texts that vary, values of cut rules; None where left out.
    """

    def __init__(self, it, g, o, cut, toks):
        self.it, self.g, self.o, self.cut, self.toks = it, g, o, cut, toks
        self.n = {}

    def name(self, base):
        self.n[base] = self.n.get(base, 0) + 1
        return base + (str(self.n[base]) if self.n[base] > 1 else "")

    def ty(self, s):
        """Type of the value of an item."""
        s = self.g.resolve(s)
        if s[0] == "tok":
            return self.toks[s[1]]
        if s[0] == "nt" and s[1] in self.cut:
            return self.cut[s[1]]
        if s[0] in ("alt", "lit"):
            return TStr
        if s[0] == "union":
            ts = [self.ty(x) for x in s[1]]
            if len(set(map(str, ts))) == 1:
                return ts[0]
            if all(t.kind == "cls" for t in ts):
                return TCls(*[c for t in ts for c in t.a[0]])
            return TUnion(*ts)
        raise Unsupported(f"type of {s}")

    def lexed(self, s, t):
        """What is known of the text of a token: the tokens of one terminal are of its language."""
        s = self.g.resolve(s)
        if s[0] == "tok":
            return F("token " + s[1], V, B)(t)
        if s[0] == "alt":
            return F("token <" + "|".join(s[1]) + ">", V, B)(t)
        if s[0] == "union":
            cs = [self.lexed(x, t) for x in s[1]]
            return z3.Implies(clsof(t) == -1, z3.Or(*[c for c in cs if not z3.is_true(c)])) if any(not z3.is_true(c) for c in cs) else z3.BoolVal(True)
        if s[0] == "lit":
            return t == self.it.lit(s[1])
        return z3.BoolVal(True)

    def one(self, s):
        """(children, leaves) of one item."""
        it = self.it
        s = self.g.resolve(s)
        k = s[0]
        if k == "anon":
            return [], []
        if k == "lit":
            return [E(token(s[2], s[1]))], []
        if k == "alt":
            n = it.ctx.choose([F("which", V, I)(z3.Const(self.name("alt"), V)) == i for i in range(len(s[1]) - 1)] + [True]) if len(s[1]) > 1 else 0
            return [E(s[1][n])], [E(s[1][n])]
        if k == "tok" or k == "nt" and s[1] in self.cut or k == "union":
            nm = s[1].lower() if k != "union" else "term"
            v = it.mk(z3.Const(self.name(nm), V), self.ty(s))
            if isinstance(v, Sym) and v.ty.kind == "str":
                it.ctx.assume(self.lexed(s, v.t))
            if isinstance(v, DictV) and v.entries[0][2] is TName:
                # typed lists consist of names (C12)
                o = b.dict_ord(it, v.entries[0][1], TName)
                ix = z3.Int("$k")
                b.forall(it, ix, slen(o), F("ok.name", V, B)(sat(o, ix)))
            if isinstance(v, DictV):
                return [E(v)], [E(DictV(v.entries))]  # the code may change what it is given
            return [E(v)], [E(v)]
        if k == "nt":
            v, leaves = self.plan(s[1])
            return [E(v)], leaves
        if k in ("star", "plus"):
            if len(s[1]) != 1:
                raise Unsupported("grammar: repeated group")
            base = "keys" if self.g.resolve(s[1][0])[0] == "alt" else self.g.key(s[1]).lower() + "s"
            q = it.mk(z3.Const(self.name(base), V), TSeq(self.ty(s[1][0]), "list"))
            t, ix = q.segs[0].t, z3.Int("$k")
            b.forall(it, ix, slen(t), self.lexed(s[1][0], sat(t, ix)))
            if k == "plus":
                it.ctx.assume(slen(q.segs[0].t) >= 1)
            return list(q.segs), [E(q)]
        if k in ("opt", "optional"):
            ch, lv = [], []
            if it.ctx.branch(F("given", V, B)(z3.Const(self.name("opt " + self.g.key(s[1])), V))):
                for x in s[1]:
                    c, l = self.one(x)
                    ch, lv = ch + c, lv + l
                return ch, lv
            for x in s[1]:
                _, l = self.one(x)
                lv += [E(None)] * len(l)
            return [E(None)] * (len(s[1]) if k == "opt" else 0), lv
        raise Unsupported(f"grammar item {s}")

    def production(self, p):
        ch, lv = [], []
        for s in p:
            c, l = self.one(s)
            ch, lv = ch + c, lv + l
        return ch, lv

    def rule(self, n):
        """The value of a rule that is not cut, and its leaves: its callback is run."""
        v, lv = self.plan(n)
        return self.realize([E(v)])[0].v, lv

    def realize(self, children):
        """Run the callbacks of the parts, in the order of the text."""
        return [E(self.callback(x.v.rule, x.v.children)) if isinstance(x, E) and isinstance(x.v, Part) else x for x in children]

    def plan(self, n, which=None):
        """A part of the text whose callback is still to be run, and its leaves."""
        ps = self.g.rules[n]
        if which is None:
            i = 0
            if len(ps) > 1:
                i = self.it.ctx.choose([F("which", V, I)(z3.Const(self.name("rule " + n), V)) == j for j in range(len(ps) - 1)] + [True])
            which = ps[i]
        ch, lv = self.production(which)
        if n in self.g.expand1 and len(ch) == 1 and isinstance(ch[0], E):
            return ch[0].v, lv
        return Part(n, ch), lv

    def callback(self, n, children):
        args = Seq("list", self.realize(children))
        if hasattr(self.o.cls, n):
            return self.it.call(self.it.getattr_(self.o, n), [args], {})
        return Obj(Tree, {"data": n, "children": args})


def languages(g):
    """Which fixed texts are tokens of the other terminals."""
    out = {}
    for n, (k, v) in g.terms.items():
        if k == "re":
            out["token " + n] = lambda s, e=re.compile(v[1:-1]): e.fullmatch(s) is not None
    return out


def token(kind, text):
    from lark import Token

    return Token(kind, text)
