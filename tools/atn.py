"""Reads the automaton of a generated ANTLR parser (KuneiformParser.interp) and
gives the minimal automaton of every rule.  Symbols: token names, rule names,
'rule<n>' for a call with precedence n, '{n}' for a precedence predicate."""
import re
def load(path):
    s=open(path).read()
    def sect(a):
        i=s.index(a+':\n')+len(a)+2
        j=s.find('\n\n',i)
        return s[i:j if j>=0 else None].split('\n')
    syms=sect('token symbolic names'); rules=sect('rule names')
    d=[int(x) for x in re.findall(r'-?\d+',s[s.index('atn:'):])]
    return decode(d,syms,rules)
def decode(d,syms,rules):
    p=0
    def nx():
        nonlocal p; p+=1; return d[p-1]
    assert nx()==4; nx(); nx()
    n=nx(); st=[]
    for i in range(n):
        t=nx()
        if t==0: st.append(None); continue
        r=nx()
        if t==12 or t in(3,4,5): nx()
        st.append((t,r))
    for _ in range(nx()): nx()
    for _ in range(nx()): nx()
    starts=[nx() for _ in range(nx())]
    for _ in range(nx()): nx()
    sets=[]
    for _ in range(nx()):
        k=nx(); eof=nx(); S=set([-1] if eof else [])
        for _ in range(k):
            a=nx(); b=nx(); S|=set(range(a,b+1))
        sets.append(S)
    E={}
    for _ in range(nx()):
        a,b,t,x,y,z=[nx() for _ in range(6)]
        E.setdefault(a,[]).append((b,t,x,y,z))
    tn=lambda k:'EOF' if k==-1 else syms[k]
    out={}
    for r,s0 in enumerate(starts):
        # nfa edges of rule r
        def edges(q):
            for b,t,x,y,z in E.get(q,[]):
                if t==1: yield b,None
                elif t==6: yield b,None
                elif t==2: 
                    for k in range(x,y+1): yield b,tn(-1 if z and k==0 else k)
                elif t==5: yield b,tn(-1 if z else x)
                elif t==7:
                    for k in sorted(sets[x]): yield b,tn(k)
                elif t==3: yield x_target(b,x),(rules[y]+('<%d>'%z if rules[y] in leftrec else ''))
                elif t==10: yield b,'{%d}'%x
                else: raise Exception('edge type %d'%t)
        def x_target(b,x): return b
        leftrec={rules[y] for q in E for b,t,x,y,z in E[q] if t==3 and z}|{rules[st[q][1]] for q in E for b,t,x,y,z in E[q] if t==10}
        def clo(S):
            S=set(S); w=list(S)
            while w:
                q=w.pop()
                for b,l in edges(q):
                    if l is None and b not in S: S.add(b); w.append(b)
            return frozenset(S)
        # edge of a RULE transition: src -> trg is the rule start, arg1?  see below
        out[rules[r]]=det(clo([s0]),edges,clo,lambda S:any(st[q][0]==7 for q in S))
    return out,syms,rules
def det(s0,edges,clo,acc):
    ids={s0:0}; w=[s0]; T={}; A=set()
    while w:
        S=w.pop()
        i=ids[S]
        if acc(S): A.add(i)
        m={}
        for q in S:
            for b,l in edges(q):
                if l is not None: m.setdefault(l,set()).add(b)
        T[i]={}
        for l,B in m.items():
            C=clo(B)
            if C not in ids: ids[C]=len(ids); w.append(C)
            T[i][l]=ids[C]
    return minimize(T,A)
def minimize(T,A):
    # trim states that cannot accept, then Moore, then canonical numbering
    live=set(A); ch=True
    while ch:
        ch=False
        for i in T:
            if i not in live and any(j in live for j in T[i].values()): live.add(i); ch=True
    T={i:{l:j for l,j in T[i].items() if j in live} for i in T if i in live}
    part={i:(i in A) for i in T}
    while True:
        sig={i:(part[i],tuple(sorted((l,part[j]) for l,j in T[i].items()))) for i in T}
        k=sorted(set(sig.values()),key=repr); m={s:n for n,s in enumerate(k)}
        new={i:m[sig[i]] for i in T}
        if len(k)==len(set(part.values())): break
        part=new
    num={}; order=[]
    def visit(c):
        if c in num: return
        num[c]=len(num); order.append(c)
        rep=next(i for i in T if part[i]==c)
        for l in sorted(T[rep]): visit(part[T[rep][l]])
    visit(part[0])
    R={}
    for c in order:
        rep=next(i for i in T if part[i]==c)
        R[num[c]]={l:num[part[j]] for l,j in sorted(T[rep].items())}
    return R,{num[part[a]] for a in A if part[a] in num}
if __name__=='__main__':
    import sys
    o,_,_=load(sys.argv[1])
    for r,(T,A) in o.items():
        print(r)
        for i in T: print('  ',i,'*' if i in A else ' ',T[i])
