"""grammar.peg -> spec functions g_<rule>"""
import re
class Bad(Exception): pass
TOK=re.compile(r'''\s*(?:(?P<act>\{\??)|(?P<str>"(?:\\.|[^"\\])*")|(?P<cls>\[(?:'(?:\\.|[^'\\])'|\w+)\])|(?P<lab>[a-z]\w*:(?!:))|(?P<id>[A-Za-z_]\w*)|(?P<op>%\?|[%<>()*+?!/]))''')
class P:
    def __init__(s,text): s.t=text; s.p=0
    def peek(s):
        m=TOK.match(s.t,s.p)
        if not m:
            if s.t[s.p:].strip(): raise Bad(s.t[s.p:][:40])
            return None,None
        return m.lastgroup,m.group(m.lastgroup)
    def next(s):
        k,v=s.peek(); m=TOK.match(s.t,s.p); s.p=m.end()
        if k=='act':
            d=1; j=s.p
            while d:
                c=s.t[j]
                if c=="'" :
                    q=re.compile(r"'(?:\\.|[^'\\])'").match(s.t,j)
                    if q: j=q.end(); continue
                d+=(c=='{')-(c=='}'); j+=1
            v=(v,s.t[s.p:j-1].strip()); s.p=j
        return k,v
    def alts(s):
        a=[s.seq()]
        while s.peek()==('op','/'): s.next(); a.append(s.seq())
        return ('alt',a) if len(a)>1 else a[0]
    def seq(s):
        items=[]; act=None
        while True:
            k,v=s.peek()
            if k is None or (k,v) in(('op','/'),('op',')'),('op','>'),('op','%'),('op','%?')): break
            if k=='act': act=s.next()[1]; break
            items.append(s.item())
        return ('seq',items,act)
    def item(s):
        k,v=s.peek()
        if k=='lab': s.next(); return ('lab',v[:-1],s.item())
        if (k,v)==('op','!'): s.next(); return ('not',s.item())
        k,v=s.next()
        if k=='str': n=('lit',lit(v))
        elif k=='cls': n=('cls',v[1:-1])
        elif k=='id': n=('ref',v)
        elif v=='<': n=('cap',s.alts()); assert s.next()==('op','>')
        elif v=='(':
            n=s.alts(); k2,v2=s.next()
            if v2 in('%','%?'):
                sep=s.alts(); n=('sep' if v2=='%' else 'sep0',n,sep); k2,v2=s.next()
            assert v2==')',(v2,s.t[s.p:][:30])
        else: raise Bad(v)
        while s.peek()[1] in('*','+','?') and s.peek()[0]=='op':
            o=s.next()[1]; n=({'*':'many','+':'many1','?':'opt'}[o],n)
        return n
def lit(v):
    return [c for c in re.findall(r'\\.|[^\\]',v[1:-1])]
def ch(c): return "'%s'"%({"'":"\\'",'\\"':'"'}.get(c,c))
def cond(cs,i): return ' && '.join(['%s.len() >= %d'%(i,len(cs))]+['%s[%d] == %s'%(i,k,ch(c)) for k,c in enumerate(cs)])
IDK=lambda r,v: 'Ok((%s, %s))'%(r,v)
class E:
    def __init__(s): s.n=0
    def v(s,p='r'): s.n+=1; return '%s%d'%(p,s.n)
    def pred(s,c,x): return '%s == %s'%(x,c) if c[0]=="'" else 'cls_%s(%s)'%(c,x)
    def bind(s,t,k):
        if k is IDK: return t
        r,v=s.v(),s.v('v'); return 'match %s { Ok((%s, %s)) => %s, Err(_) => Err(()) }'%(t,r,v,k(r,v))
    def when(s,c,n,v,k,i):
        r=s.v(); return 'if %s { let %s = sk(%s, %d); %s } else { Err(()) }'%(c,r,i,n,k(r,v))
    def term(s,n,i,k=None):
        k=k or IDK
        o=n[0]
        if o=='lit': return s.when(cond(n[1],i),len(n[1]),'()',k,i)
        if o=='cls': return s.when('%s.len() > 0 && %s'%(i,s.pred(n[1],i+'[0]')),1,i+'[0]',k,i)
        if o=='ref':
            name={'_':'comment_or_space0','__':'comment_or_space1'}.get(n[1],n[1])
            return s.bind('g_%s(%s)'%(name,i),k)
        if o=='lab': return s.term(n[2],i,k)
        if o=='not': return 'match %s { Ok(_) => Err(()), Err(_) => %s }'%(s.term(n[1],i),k(i,'()'))
        if o=='opt':
            r,v=s.v(),s.v('v'); return s.bind('match %s { Ok((%s, %s)) => Ok((%s, Some(%s))), Err(_) => Ok::<_, ()>((%s, None)) }'%(s.term(n[1],i),r,v,r,v,i),k)
        if o in('many','many1'):
            if n[1][0]=='cls':
                c=s.v('c'); return s.bind('take_while%s(|%s: char| %s, %s)'%('1' if o=='many1' else '',c,s.pred(n[1][1],c),i),k)
            return s.bind('%s(%s, %s)'%('many1' if o=='many1' else 'many0',s.fn(n[1]),i),k)
        if o in('sep','sep0'): return s.bind('%s(%s, %s, %s)'%('sep1' if o=='sep' else 'sep0',s.fn(n[2]),s.fn(n[1]),i),k)
        if o=='cap': return s.term(n[1],i,lambda r,v: k(r,'tk(%s, %s.len() - %s.len())'%(i,i,r)))
        if o=='alt':
            t=s.term(n[1][-1],i)
            for a in n[1][-2::-1]:
                x=s.v('x'); t='match %s { Ok(%s) => Ok(%s), Err(_) => %s }'%(s.term(a,i),x,x,t)
            return s.bind(t,k)
        if o=='seq':
            items,act=n[1],n[2]
            if len(items)==1 and act is None: return s.term(items[0],i,k)
            def go(j,i):
                if j==len(items):
                    if act is None: return k(i,'()')
                    if act[0]=='{?': w=s.v('w'); return 'match (%s) { Ok(%s) => %s, Err(_) => Err(()) }'%(act[1],w,k(i,w))
                    return k(i,act[1])
                x=items[j]
                def nxt(r,v):
                    if x[0]!='lab': return go(j+1,r)
                    return '{ let %s = %s; %s }'%(x[1],v,go(j+1,r)) if v!=x[1] else go(j+1,r)
                return s.term(x,i,nxt)
            return go(0,i)
        raise Bad(o)
    def fn(s,n):
        j=s.v('j')
        return '|%s: Tx| %s'%(j,s.term(n,j)) if not (n[0]=='seq' and len(n[1])==1 and n[2] is None and n[1][0][0]=='ref') else '|%s: Tx| g_%s(%s)'%(j,n[1][0][1],j)
def rules(text):
    text='\n'.join(l for l in text.split('\n') if not l.startswith('#'))
    out=[]
    ps=re.split(r'(?m)^(\w+) -> (.*?) := ',text)
    for k in range(1,len(ps),3):
        p=P(ps[k+2]); n=p.alts()
        if p.peek()[0]: raise Bad('%s: %s'%(ps[k],p.t[p.p:][:40]))
        out.append((ps[k],ps[k+1].strip(),n))
    return out
def refs(n):
    if n[0]=='ref': return {n[1]}
    r=set()
    for x in n[1:]:
        for y in (x if isinstance(x,list) else [x]):
            if isinstance(y,tuple) and y and isinstance(y[0],str): r|=refs(y)
    return r
def small(n): return n[0]=='seq' and len(n[1])==1 and n[1][0][0]=='lab' and n[1][0][2][0]=='cls'
def emit(text):
    """rules of one character are open; the others are revealed where they are proved"""
    out=[]
    for name,ty,n in rules(text):
        out.append(('' if small(n) else '#[verifier::opaque] ')+'pub open spec fn g_%s(i: Tx) -> Rs<%s>%s {\n    %s\n}'%(name,ty,' decreases i.len()' if name in refs(n) else '',E().term(n,'i')))
    return '\n'.join(out)
if __name__=='__main__':
    import os
    print(emit(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'grammar.peg')).read()))
