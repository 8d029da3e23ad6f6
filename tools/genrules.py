#!/usr/bin/env python3
"""Writes contracts/rules.spec: for every rule of the grammar published with the
repository (kfgrammar/KuneiformParser.interp) its minimal automaton as facts
over step and accepts, and the contract of its rule function.  Run by hand when
the grammar changes; the contracts themselves are committed."""
import sys
sys.path.insert(0,'/verif/tools')
import atn,re
path='/repo/kfgrammar/KuneiformParser.interp'
A,syms,rules=atn.load(path)
tok={n:i for i,n in enumerate(syms) if n!='null'}; tok['EOF']=-1
ridx={r:i for i,r in enumerate(rules)}
def sym(l):
    m=re.fullmatch(r'(\w+)<(\d+)>',l)
    if m: return 2000+int(m.group(2))
    m=re.fullmatch(r'\{(\d+)\}',l)
    if m: return 3000+int(m.group(1))
    if l in tok: return tok[l]
    return 1000+ridx[l]
base=lambda r: 1000*(ridx[r]+1)
o=['''// generated by tools/genrules.py from the published grammar
//
// Ghost state of a parse: gs is the stack of the automata of the rules that
// are open, perr whether an error is pending in the parser, bad whether a
// syntax error has been reported, la the type of the current token.
ghost gs: int
ghost perr: bool
ghost bad: bool
ghost la: int
fun push(s: int, q: int): int
fun top(s: int): int
fun pop(s: int): int
axiom topPush = forall s: int, q: int {push(s, q)} :: top(push(s, q)) == q
axiom popPush = forall s: int, q: int {push(s, q)} :: pop(push(s, q)) == s
// step(q, x): the state after x in state q.  x is the number of a token, 1000 +
// the number of a rule, 2000 + n for an expression of precedence n, 3000 + n
// for the test that the precedence allows n.  Nothing is said of a step the
// grammar does not have.
fun step(q: int, x: int): int
pred accepts(q: int)
fun startOf(rule: int): int
def next(s: int, x: int): int = push(pop(s), step(top(s), x))
''']
leftrec=[r for r in rules if any('<' in l and l.startswith(r+'<') for T,_ in [A[r]] for q in T for l in T[q])]
assert leftrec==['fn_arg_expr']
for r in rules:
    T,F=A[r]; b=base(r)
    T=dict(T)
    if r in leftrec:
        # a node opened around a complete expression needs an operator
        q=[i for i in F]; assert len(q)==1
        T[99]=dict(T[q[0]])
    A[r]=(T,F)
    fs=['startOf(%d) == %d'%(ridx[r],b)]
    fs+=['step(%d, %d) == %d'%(b+i,sym(l),b+j) for i in T for l,j in T[i].items()]
    o.append('// '+r)
    for i in T: o.append('//   %d%s %s'%(b+i,' accepts' if i in F else '','  '.join('%s->%d'%(l,b+j) for l,j in T[i].items())))
    o.append('axiom rule_%s = %s'%(r,' && '.join(fs)))
    o.append('axiom ends_%s = %s'%(r,' && '.join('accepts(%d)'%(b+i) for i in sorted(F))))
o.append('''
pred kept(ob: bool, oe: bool) = (ob ==> bad) && (oe ==> perr || bad)
trusted func antlr.(*BaseParser).EnterRule(p, ctx, state, rule)
modifies ghost gs
ensures gs == push(next(old(gs), 1000 + rule), startOf(rule))
why "antlr runtime: opens a node for the rule"
trusted func antlr.(*BaseParser).EnterRecursionRule(p, ctx, state, rule, prec)
modifies ghost gs
ensures gs == push(next(old(gs), 2000 + prec), startOf(rule))
why "antlr runtime: opens a node for the recursive rule"
trusted func antlr.(*BaseParser).PushNewRecursionContext(p, ctx, state, rule)
requires bad || accepts(top(gs))
modifies ghost gs
ensures gs == push(pop(old(gs)), startOf(rule) + 99)
why "antlr runtime: the node so far becomes the first child of a new node of the same rule"
trusted func antlr.(*BaseParser).UnrollRecursionContexts(p, ctx)
requires bad || accepts(top(gs))
modifies ghost gs
ensures gs == pop(old(gs))
why "antlr runtime: closes the nodes of the recursive rule"
trusted func antlr.(*BaseParser).ExitRule(p)
requires bad || accepts(top(gs))
modifies ghost gs
ensures gs == pop(old(gs))
why "antlr runtime: closes the node of the rule"
trusted func antlr.(*BaseParser).EnterOuterAlt(p, ctx, n)
why "antlr runtime: notes the alternative, moves no token"
trusted func antlr.(*BaseParser).TriggerExitRuleEvent(p)
why "antlr runtime: calls parse listeners"
trusted func antlr.(*BaseParser).Match(p, t) (r)
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures kept(old(bad), old(perr))
ensures bad || perr || gs == next(old(gs), t)
ensures gs == old(gs) || gs == next(old(gs), t)
why "antlr runtime: consumes a token of type t, or reports or notes an error"
trusted func antlr.(*BaseParser).Consume(p) (r)
modifies ghost gs, ghost la
ensures gs == next(old(gs), old(la))
why "antlr runtime: consumes the current token as a child of the open node"
trusted func antlr.(*BaseParser).Precpred(p, ctx, n) (r)
modifies ghost gs
ensures r ==> gs == next(old(gs), 3000 + n)
ensures !r ==> gs == old(gs)
why "antlr runtime: compares the precedence of the open rule with n"
trusted func antlr.(*BaseParser).GetErrorHandler(p) (r)
ensures r != nil
why "antlr runtime: the default error strategy"
trusted func antlr.(*BaseParser).GetTokenStream(p) (r)
ensures r != nil
why "antlr runtime"
trusted func antlr.(*BaseParser).GetInterpreter(p) (r)
ensures r != nil
why "antlr runtime"
trusted func antlr.(*BaseParser).GetParserRuleContext(p) (r)
ensures r != nil
why "antlr runtime: the open node"
trusted func antlr.(*BaseParser).GetParseListeners(p) (r)
why "antlr runtime"
trusted func antlr.(*BaseRecognizer).GetState(p) (r)
why "antlr runtime"
trusted func antlr.(*BaseRecognizer).SetState(p, n)
why "antlr runtime: the state used for prediction"
trusted func antlr.(*BaseRecognizer).HasError(p) (r)
ensures r == perr
why "antlr runtime: is an error pending"
trusted func antlr.(*BaseRecognizer).GetError(p) (r)
why "antlr runtime"
trusted func antlr.(*BaseRecognizer).SetError(p, err)
modifies ghost perr
ensures perr == (err != nil)
why "antlr runtime: sets the pending error"
trusted func antlr.NewNoViableAltException(a, b, c, d, e, f) (r)
ensures r != nil
why "antlr runtime"
trusted func antlr.NewFailedPredicateException(a, b, c) (r)
ensures r != nil
why "antlr runtime"
trusted func antlr.InitBaseParserRuleContext(p, parent, n)
why "antlr runtime: an empty node"
trusted func iface antlr.ErrorStrategy.Sync(h, p)
modifies ghost perr, ghost bad, ghost la
ensures kept(old(bad), old(perr))
ensures bad || la == old(la)
why "antlr runtime: skips tokens only after reporting an error"
trusted func iface antlr.ErrorStrategy.ReportMatch(h, p)
why "antlr runtime: leaves error recovery"
trusted func iface antlr.ErrorStrategy.RecoverInline(h, p) (r)
modifies ghost gs, ghost perr, ghost bad, ghost la
ensures kept(old(bad), old(perr))
ensures bad || perr
ensures pop(gs) == pop(old(gs))
why "antlr runtime: reports or notes an error"
trusted func iface antlr.ErrorStrategy.ReportError(h, p, v)
modifies ghost bad
ensures bad
why "antlr runtime: reports the error to the listeners, unless one was reported since the last matched token"
trusted func iface antlr.ErrorStrategy.Recover(h, p, v)
modifies ghost gs, ghost perr, ghost la
why "antlr runtime: skips tokens after a reported error"
trusted func iface antlr.TokenStream.LA(s, i) (r)
ensures i == 1 ==> r == la
why "antlr runtime: the type of the i-th token ahead"
trusted func iface antlr.TokenStream.LT(s, i) (r)
why "antlr runtime: the i-th token ahead"
trusted func antlr.(*BaseParserRuleContext).SetException(c, x)
why "antlr runtime: notes the error in the node"
trusted func iface antlr.ParserRuleContext.SetStop(c, t)
why "antlr runtime: the last token of the node"
''')
# alternatives of each decision
def decisions():
    s=open(path).read(); d=[int(x) for x in re.findall(r'-?\d+',s[s.index('atn:'):])]
    p=3; n=d[p]; p+=1
    for i in range(n):
        t=d[p]; p+=1
        if t==0: continue
        p+=1
        if t in(12,3,4,5): p+=1
    for _ in range(2): p+=1+d[p]
    p+=1+d[p]
    p+=1+d[p]
    k=d[p]; p+=1
    for _ in range(k): p+=2+2*d[p]
    k=d[p]; p+=1
    deg={}
    for _ in range(k):
        deg[d[p]]=deg.get(d[p],0)+1; p+=6
    k=d[p]; p+=1
    return [deg[x] for x in d[p:p+k]]
D=decisions()
o.append('trusted func antlr.(*ParserATNSimulator).AdaptivePredict(s, p, input, decision, ctx) (r)\nmodifies ghost perr, ghost bad\nensures kept(old(bad), old(perr))\nensures 0 <= r && (r == 0 ==> perr)')
for i,n in enumerate(D): o.append('ensures decision == %d ==> r <= %d'%(i,n))
o.append('why "antlr runtime: an alternative of the decision, or none and an error is pending"\n')
R='ensures [C25] bad || gs == next(old(gs), %s)\nensures [C25] old(bad) ==> bad\nensures [C25] old(perr) ==> bad\nensures [C25] !perr'
for r in rules:
    T,F=A[r]; b=base(r)
    name=r[0].upper()+r[1:]
    rec=r in leftrec
    x='1000 + %d'%ridx[r]
    if rec:
        o.append('func kfgrammar.(*KuneiformParser).%s(p) (r)\nrequires p != nil && p.BaseParser != nil\nmodifies ghost gs, ghost perr, ghost bad, ghost la\n'%name+R%'2000')
        o.append('')
        name=r; x='2000 + prec'
    o.append('func kfgrammar.(*KuneiformParser).%s(p%s) (r)'%(name,', prec' if rec else ''))
    o.append('requires p != nil && p.BaseParser != nil\nmodifies ghost gs, ghost perr, ghost bad, ghost la\nensures r != nil')
    o.append(R%x+'\njoin')
    o.append('''loop any as i
invariant !perr
invariant old(bad) ==> bad
invariant old(perr) ==> bad
invariant bad || pop(gs) == next(old(gs), %s)'''%x)
    ks=list(T)
    for i in ks: o.append('invariant bad || top(gs) == %d'%(b+i))
    # two states at the head of a loop
    if len(ks)<=12:
        for i in ks:
            for j in ks:
                if i!=j and i==ks[0]: o.append('invariant bad || i == 0 && top(gs) == %d || i > 0 && top(gs) == %d'%(b+i,b+j))
                if i<j: o.append('invariant bad || top(gs) == %d || top(gs) == %d'%(b+i,b+j))
    o.append('')
open(sys.argv[1] if len(sys.argv)>1 else '/verif/contracts/rules.spec','w').write('\n'.join(o)+'\n')
