"""A small Rust source reader: strips comments, finds items, expands one-argument
macro_rules! impl generators.  It never rewrites code; it only locates text."""
import re, os

class Lost(Exception):
    """an item the contracts are attached to is not in the source any more"""

TOK = re.compile(r'''
   (?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
 | (?P<str>b?"(?:\\.|[^"\\])*")
 | (?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
 | (?P<life>'[A-Za-z_]\w*)
 | (?P<num>\d[\w]*(?:\.\d[\w]*)?)
 | (?P<id>[A-Za-z_]\w*)
 | (?P<op>->|=>|::|\.\.=|\.\.|&&|\|\||<<=|>>=|==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|&=|\|=|.)
''', re.X | re.S)

def strip_comments(s):
    out=[]; i=0; n=len(s)
    while i<n:
        m=re.compile(r'b?r(#*)".*?"\1|b?"(?:\\.|[^"\\])*"|b?\'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\'\\])\'',re.S).match(s,i)
        if m and not (i>0 and (s[i-1].isalnum() or s[i-1]=='_') and s[i] in 'br'):
            out.append(m.group()); i=m.end(); continue
        if s.startswith('//',i):
            j=s.find('\n',i); j=n if j<0 else j
            i=j; continue
        if s.startswith('/*',i):
            d=1;j=i+2
            while d and j<n:
                if s.startswith('/*',j): d+=1;j+=2
                elif s.startswith('*/',j): d-=1;j+=2
                else: j+=1
            i=j; out.append(' '); continue
        out.append(s[i]); i+=1
    return ''.join(out)

def toks(s):
    """[(text,start,end)] without whitespace"""
    r=[]; i=0
    while i<len(s):
        if s[i].isspace(): i+=1; continue
        m=TOK.match(s,i)
        r.append((m.group(),m.start(),m.end())); i=m.end()
    return r

OPEN={'(':')','[':']','{':'}'}
def match_close(t,i):
    """index of the token closing the bracket at t[i]"""
    d=0
    for j in range(i,len(t)):
        if t[j][0] in OPEN: d+=1
        elif t[j][0] in (')',']','}'):
            d-=1
            if d==0: return j
    raise Lost('unbalanced brackets')

def match_angle(t,i):
    d=0
    for j in range(i,len(t)):
        x=t[j][0]
        if x=='<': d+=1
        elif x=='>':
            d-=1
            if d==0: return j
        elif x=='->': pass
    raise Lost('unbalanced <>')

def norm(s): return ' '.join(x[0] for x in toks(s))

class Item:
    def __init__(s,kind,name,head,body,attrs,owner=None,text=None):
        s.kind=kind; s.name=name; s.head=head; s.body=body; s.attrs=attrs; s.owner=owner; s.text=text
        s.items=[]

def parse_items(src):
    """top-level items of a text"""
    t=toks(src); i=0; items=[]; attrs=[]
    n=len(t)
    while i<n:
        start=i
        # attributes
        if t[i][0]=='#':
            j=i+1
            if t[j][0]=='!': j+=1
            e=match_close(t,j)
            attrs.append(src[t[i][1]:t[e][2]]); i=e+1; continue
        # find keyword
        j=i
        while j<n and t[j][0] in ('pub','unsafe','const','async','extern','default') or (j<n and t[j][0]=='(' and j>i and t[j-1][0]=='pub') :
            if t[j][0]=='(':
                j=match_close(t,j)+1; continue
            if t[j][0]=='const' and t[j+1][0]!='fn' and t[j+1][0] not in('unsafe',): break
            j+=1
        if j>=n: break
        kw=t[j][0]
        def upto_semi(k):
            while t[k][0]!=';':
                if t[k][0] in OPEN: k=match_close(t,k)
                k+=1
            return k
        if kw in('use','type','const','static','extern'):
            k=upto_semi(j); name=t[j+1][0]
            items.append(Item(kw,name,src[t[start][1]:t[k][2]],None,attrs,text=src[t[start][1]:t[k][2]])); attrs=[]; i=k+1; continue
        if kw in('struct','enum','union','trait','mod','impl','fn'):
            k=j+1
            # scan to '{' or ';' at depth 0
            while t[k][0] not in('{',';'):
                if t[k][0] in('(','['): k=match_close(t,k)
                k+=1
            if kw=='struct' and t[k][0]==';':
                items.append(Item(kw,t[j+1][0],src[t[start][1]:t[k][2]],None,attrs,text=src[t[start][1]:t[k][2]])); attrs=[]; i=k+1; continue
            if t[k][0]==';':
                items.append(Item(kw,t[j+1][0],src[t[start][1]:t[k][1]].strip(),None,attrs,text=src[t[start][1]:t[k][2]])); attrs=[]; i=k+1; continue
            e=match_close(t,k)
            head=src[t[start][1]:t[k][1]].strip(); body=src[t[k][2]:t[e][1]]
            it=Item(kw,t[j+1][0] if kw!='impl' else None,head,body,attrs,text=src[t[start][1]:t[e][2]])
            if kw=='impl':
                it.name=impl_key(head)
            if kw in('impl','trait','mod'):
                it.items=parse_items(body)
                for x in it.items: x.owner=it
            items.append(it); attrs=[]; i=e+1; continue
        if j+1<n and t[j+1][0]=='!':  # macro invocation or macro_rules
            k=j+2; name=kw
            if kw=='macro_rules': name=t[k][0]; k+=1
            e=match_close(t,k)
            it=Item('macro_rules' if kw=='macro_rules' else 'macro_call',name,src[t[start][1]:t[k][1]],src[t[k][2]:t[e][1]],attrs,text=src[t[start][1]:t[e][2]])
            items.append(it); attrs=[]; i=e+1
            if i<n and t[i][0]==';': i+=1
            continue
        i=j+1; attrs=[]
    return items

def strip_generics(s):
    out=[];d=0
    for x in toks(s):
        if x[0]=='<': d+=1
        elif x[0]=='>': d-=1
        elif d==0: out.append(x[0])
    return ' '.join(out)

def impl_key(head):
    t=toks(head); i=1
    if len(t)>1 and t[0][0]=='unsafe': i=2
    if t[i][0]=='<': i=match_angle(t,i)+1
    rest=head[t[i][1]:]
    rest=re.split(r'\bwhere\b',rest)[0]
    parts=re.split(r'\bfor\b',rest)
    ks=[]
    for p in parts:
        p=strip_generics(p)
        p=re.sub(r"'\w+",'',p)
        p=p.replace('& str','&str')
        if '[' in p: p='&slice'
        p=p.strip().split('::')[-1].strip() or p.strip()
        ks.append(re.sub(r'\s+',' ',p).strip())
    return ' for '.join(ks)

class Source:
    def __init__(self,root):
        self.root=root; self.files={}
    def file(self,f):
        if f not in self.files:
            p=os.path.join(self.root,f)
            if not os.path.exists(p): raise Lost('file '+f)
            src=strip_comments(open(p).read())
            items=[x for x in parse_items(src) if not any('cfg' in a and 'test' in a for a in x.attrs)]
            # expand one-argument impl macros
            extra=[]
            rules={}
            for x in items:
                if x.kind=='macro_rules':
                    m=re.match(r'\s*\(\s*\$(\w+)\s*:\s*(?:ident|ty)\s*\)\s*=>\s*\{(.*)\}\s*;?\s*$',x.body,re.S)
                    if m: rules[x.name]=m.groups()
                if x.kind=='macro_call' and x.name in rules:
                    v,b=rules[x.name]
                    arg=x.body.strip()
                    extra+=parse_items(re.sub(r'\$'+v+r'\b',arg,b))
            for x in items:
                if x.kind=='mod': extra+=x.items
            self.files[f]=items+extra
        return self.files[f]
    def item(self,f,kind,name):
        c=[x for x in self.file(f) if x.kind==kind and x.name==name]
        if not c: raise Lost('%s %s in %s'%(kind,name,f))
        return c[0]
    def impls(self,f,key):
        c=[x for x in self.file(f) if x.kind=='impl' and x.name==key]
        if not c: raise Lost('impl %s in %s'%(key,f))
        return c
    def fn(self,f,owner,name):
        if owner:
            kinds=[x for x in self.file(f) if x.kind in('impl','trait') and x.name==owner]
            if not kinds: raise Lost('impl %s in %s'%(owner,f))
            c=[y for x in kinds for y in x.items if y.kind=='fn' and y.name==name]
        else:
            c=[x for x in self.file(f) if x.kind=='fn' and x.name==name]
        if not c: raise Lost('fn %s%s in %s'%((owner+'::') if owner else '',name,f))
        return c[0]

    def fn_anywhere(self,f,owner,name):
        try: return self.fn(f,owner,name)
        except Lost as e:
            for g in sorted(os.listdir(self.root)):
                if g.endswith('.rs') and g!=f:
                    try: return self.fn(g,owner,name)
                    except Lost: pass
            raise e

if __name__=='__main__':
    import sys
    s=Source('/repo/butte/src')
    for f in sorted(os.listdir('/repo/butte/src')):
        print('==',f)
        for x in s.file(f):
            print('  ',x.kind,x.name,[y.name for y in x.items if y.kind=='fn'])
