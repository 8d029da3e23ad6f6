#!/usr/bin/env python3
# genprogress.py [OUT]: the termination contracts of the rule functions, from
# the contracts of genrules.py (names, alternatives of each decision, which
# rules may be empty).
import re,sys
src=open('/verif/contracts/rules.spec').read()
rules=[m for m in re.findall(r'^axiom rule_(\w+) = startOf\((\d+)\) == (\d+)',src,re.M)]
ends=dict(re.findall(r'^axiom ends_(\w+) = (.*)$',src,re.M))
alts=re.findall(r'^ensures decision == (\d+) ==> r <= (\d+)$',src,re.M)
rec=set(re.findall(r'^func kfgrammar\.\(\*KuneiformParser\)\.([a-z]\w*)\(',src,re.M))
o=['''// generated by tools/genprogress.py from rules.spec
//
// Termination of the rule functions. moves grows with every step of the parser
// runtime that consumes a token or recovers from an error; that there are only
// finitely many such steps for a finite input is the runtime's part (recovery
// consumes a token when it comes back to the same place). A loop has to make a
// step in each iteration, a rule has to make one before it can come back to
// itself, and a rule that is not empty makes one.
ghost moves: int
ghost perr: bool
ghost la: int
''']
def t(sig,mods,ens,why):
    o.append('trusted func '+sig)
    if mods: o.append('modifies '+', '.join('ghost '+m for m in mods))
    for e in ens: o.append('ensures '+e)
    o.append('why "antlr runtime: %s"'%why)
P='antlr.(*BaseParser).'; R='antlr.(*BaseRecognizer).'
A=['moves','perr','la']
for n,a in [('EnterRule','ctx, state, rule'),('EnterRecursionRule','ctx, state, rule, prec'),('PushNewRecursionContext','ctx, state, rule'),('UnrollRecursionContexts','ctx'),('EnterOuterAlt','ctx, n')]:
    t(P+n+'(p, '+a+')',[],[],'keeps the tree, moves no token')
t(P+'ExitRule(p)',[],[],'keeps the tree, moves no token')
t(P+'TriggerExitRuleEvent(p)',[],[],'calls parse listeners')
t(P+'Match(p, t) (r)',A,['moves >= old(moves) && (t != -1 ==> moves > old(moves))'],'consumes a token, or recovers, or notes an error that the rule recovers from')
t(P+'Consume(p) (r)',['moves','la'],['moves >= old(moves) && (old(la) != -1 ==> moves > old(moves))'],'consumes the current token, unless that is the end of the input')
t(P+'Precpred(p, ctx, n) (r)',[],[],'compares the precedence of the open rule with n')
for n in ['GetErrorHandler','GetTokenStream','GetInterpreter','GetParserRuleContext']:
    t(P+n+'(p) (r)',[],['r != nil'],'part of the parser')
t(P+'GetParseListeners(p) (r)',[],[],'part of the parser')
t(R+'GetState(p) (r)',[],[],'part of the parser')
t(R+'SetState(p, n)',[],[],'the state used for prediction')
t(R+'HasError(p) (r)',[],['r == perr'],'is an error pending')
t(R+'GetError(p) (r)',[],[],'part of the parser')
t(R+'SetError(p, err)',['perr'],['perr == (err != nil)'],'sets the pending error')
t('antlr.NewNoViableAltException(a, b, c, d, e, f) (r)',[],['r != nil'],'an error value')
t('antlr.NewFailedPredicateException(a, b, c) (r)',[],['r != nil'],'an error value')
t('antlr.InitBaseParserRuleContext(p, parent, n)',[],[],'an empty node')
t('iface antlr.ErrorStrategy.Sync(h, p)',A,['moves >= old(moves)','old(perr) ==> perr'],'may skip tokens or note an error; forgets none')
t('iface antlr.ErrorStrategy.ReportMatch(h, p)',[],[],'leaves error recovery')
t('iface antlr.ErrorStrategy.RecoverInline(h, p) (r)',A,['moves > old(moves)'],'recovers, or notes an error that the rule recovers from')
t('iface antlr.ErrorStrategy.ReportError(h, p, v)',[],[],'tells the listeners')
t('iface antlr.ErrorStrategy.Recover(h, p, v)',A,['moves > old(moves)'],'skips tokens, at least one when it comes back to the same place')
t('iface antlr.TokenStream.LA(s, i) (r)',[],['i == 1 ==> r == la'],'the type of the i-th token ahead')
t('iface antlr.TokenStream.LT(s, i) (r)',[],[],'the i-th token ahead')
t('antlr.(*BaseParserRuleContext).SetException(c, x)',[],[],'notes the error in the node')
t('iface antlr.ParserRuleContext.SetStop(c, t)',[],[],'the last token of the node')
t('antlr.(*ParserATNSimulator).AdaptivePredict(s, p, input, decision, ctx) (r)',['perr'],['0 <= r && (r == 0 ==> perr)']+['decision == %s ==> r <= %s'%x for x in alts],'an alternative of the decision, or none and an error is pending')
o.append('')
for r,idx,start in rules:
    empty='accepts(%s)'%start in ends[r].split(' && ')
    names=[r[0].upper()+r[1:]]
    if r in rec: names.append(r)
    for i,n in enumerate(names):
        o.append('func kfgrammar.(*KuneiformParser).%s(p%s) (r)'%(n,', prec' if i else ''))
        o.append('requires p != nil && p.BaseParser != nil\nmodifies ghost moves, ghost perr, ghost la\nensures r != nil')
        o.append('ensures [C28] moves %s old(moves)'%('>=' if empty else '>'))
        o.append('ensures [C28] !perr\nmeasure [C28] moves\njoin\nloop any as i\ninvariant !perr\ninvariant moves >= old(moves)\ninvariant moves > old(moves)\nbounded [C28] i <= moves - old(moves)\n')
open(sys.argv[1] if len(sys.argv)>1 else '/verif/contracts/progress.spec','w').write('\n'.join(o))
