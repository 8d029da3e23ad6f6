#!/usr/bin/env python3
"""Writes contracts/accessors.spec: one contract per generated accessor, by the
schema of its kind.  Run by hand when the grammar gets new rules; the contracts
themselves are committed."""
import re,sys
src=open('/repo/kfgrammar/kuneiform_parser.go').read()
out=['// generated by tools/genacc.py: one contract per accessor of a syntax tree node',
'fun childList(p: *antlr.BaseParserRuleContext): []antlr.Tree',
'fun tokenAt(p: *antlr.BaseParserRuleContext, t: int, i: int): antlr.TerminalNode',
'fun tokensOf(p: *antlr.BaseParserRuleContext, t: int): []antlr.TerminalNode',
'trusted func antlr.(*BaseParserRuleContext).GetChildren(p) (r)','result r = childList(p)','why "antlr runtime: the children of the node"',
'trusted func antlr.(*BaseParserRuleContext).GetToken(p, t, i) (r)','result r = tokenAt(p, t, i)','why "antlr runtime: the i-th token child of type t, nil if there is none"',
'trusted func antlr.(*BaseParserRuleContext).GetTokens(p, t) (r)','result r = tokensOf(p, t)','why "antlr runtime: the token children of type t, in order"',
'']
def fn(c,m,ps,res='r'):
    out.append('func kfgrammar.(*%s).%s(%s) (%s)'%(c,m,', '.join(['s']+ps),res))
    out.append('requires s != nil')
    if m!='Accept': out.append('nopanic [C24]')
P='addr(s.BaseParserRuleContext)'
n={}
for m in re.finditer(r'^func \(\w+ \*(\w+Context)\) (\w+)\((.*?)\)(.*?)\{',src,re.M):
    c,name,ps,res=m.group(1),m.group(2),m.group(3).strip(),m.group(4).strip()
    k=None
    if res=='antlr.TerminalNode' and ps in('','i int'):
        k='tok'
        fn(c,name,['i'] if ps else [])
        out.append('ensures [C24] r == tokenAt(%s, kfgrammar.KuneiformParser%s, %s)'%(P,name,'i' if ps else '0'))
    elif res=='[]antlr.TerminalNode' and name.startswith('All'):
        k='alltok'
        fn(c,name,[])
        out.append('ensures [C24] r == tokensOf(%s, kfgrammar.KuneiformParser%s)'%(P,name[3:]))
    elif re.fullmatch(r'I\w+Context',res) and res=='I'+name+'Context':
        T='kfgrammar.'+res
        if ps=='':
            k='first'
            fn(c,name,[])
            out.append('let c = childList(%s)'%P)
            out.append('ensures [C24] (r == nil && forall k: int :: 0 <= k && k < len(c) ==> !isType(c[k], %s))\n  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], %s) && r == c[k] && forall m: int :: 0 <= m && m < k ==> !isType(c[m], %s)'%(T,T,T))
            out.append('loop over c as i\ninvariant forall m: int :: 0 <= m && m < i ==> !isType(c[m], %s)'%T)
        else:
            k='ith'
            fn(c,name,['i'])
            out.append('let c = childList(%s)'%P)
            out.append('''ensures [C24] (r == nil && (i < 0 || i >= count(c, len(c), %s)))
  || exists k: int :: 0 <= k && k < len(c) && isType(c[k], %s) && count(c, k, %s) == i && r == c[k]'''%(T,T,T))
            out.append('''loop over c as p
invariant any j: int :: j == count(c, p, %s)
invariant any j: int :: j == count(c, p, %s) - 1
invariant any j: int :: j == i - count(c, p, %s)
invariant i < 0 || count(c, p, %s) <= i'''%(T,T,T,T))
    elif re.fullmatch(r'\[\]I\w+Context',res) and name.startswith('All'):
        k='all'
        T='kfgrammar.'+res[2:]
        assert res[2:]=='I'+name[3:]+'Context'
        fn(c,name,[])
        out.append('let c = childList(%s)'%P)
        out.append('''ensures [C24] len(r) == count(c, len(c), %s)
ensures [C24] forall k: int {c[k]} :: 0 <= k && k < len(c) && isType(c[k], %s) ==> r[count(c, k, %s)] == c[k]'''%(T,T,T))
        out.append('''loop over c as p
invariant any j: int :: j == count(c, p, %s)
invariant any l: []%s :: len(l) == count(c, len(c), %s)
invariant any l: []%s :: len(l) == count(c, p, %s)
invariant any l: []%s :: forall k: int {c[k]} :: 0 <= k && k < p && isType(c[k], %s) ==> l[count(c, k, %s)] == c[k]'''%(T,T,T,T,T,T,T,T))
    elif name=='Accept':
        k='accept'
        fn(c,name,['v'])
        out.append('requires v != nil')
        A='"iface kfgrammar.KuneiformParserVisitor.Visit%s"'%c[:-7]; B='"iface antlr.ParseTreeVisitor.VisitChildren"'
        out.append('observe %s, %s'%(A.strip('"'),B.strip('"')))
        for X,Y,N in((A,B,''),(B,A,'!')):
            out.append('ensures [C24] %sisType(v, kfgrammar.KuneiformParserVisitor) ==> calls(%s) == 1 && calls(%s) == 0 && arg(%s, 0) == v && arg(%s, 1) == s && r == ret(%s, 0)'%(N,X,Y,X,X,X))
    elif name=='GetRuleContext':
        k='self'
        fn(c,name,[])
        out.append('ensures [C24] r == s')
    elif name.startswith('Get') and res.startswith('I') and ps=='':
        k='get'
        fn(c,name,[])
        out.append('ensures [C24] r == s.%s'%(name[3].lower()+name[4:]))
    elif name.startswith('Set') and ps.startswith('v '):
        k='set'
        fn(c,name,['v'],'')
        out[-3]=out[-3].replace(' ()','')
        out.append('modifies s.%s'%(name[3].lower()+name[4:]))
        out.append('ensures [C24] s.%s == v'%(name[3].lower()+name[4:]))
    if k is None:
        if name not in('GetParser','ToStringTree') and not name.startswith('Is'): print('no schema',c,name,ps,res,file=sys.stderr)
        continue
    n[k]=n.get(k,0)+1
    out.append('')
print(n,file=sys.stderr)
open(sys.argv[1] if len(sys.argv)>1 else '/verif/contracts/accessors.spec','w').write('\n'.join(out))
