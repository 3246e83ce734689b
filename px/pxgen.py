"""The parser (butte-build/src/ast/parser.rs) under contract.

Every parser function is a pure expression of nom combinators.  Its body is taken from the source of /repo on every
run and replaced by its meaning on a text: map, tuple, preceded, terminated, delimited, alt, opt, not, value, recognize,
map_res, ... are unfolded into matches on the results of their parts, repetition (many0, many1, separated_list, escaped,
take_while) and the primitive parsers are the functions of base.vx.  The obligation of a function f is: on every text this
equals g_f, its rule in grammar.peg.  A call of another parser stands for that parser's rule (its contract); a function
without a rule is unfolded in place.  AST types are taken from ast/types.rs (&str and String are texts, Vec a sequence,
HashMap a map, f64 opaque, integers mathematical with their range checked where they are read); builder calls are struct
values, derived From the obvious injection.

Not under contract: include_decl and object (the rest of the compiler makes nothing of them), file_identifier_decl."""
import os, re, sys
HERE=os.path.dirname(os.path.abspath(__file__))
for d in('vx','px'): sys.path.insert(0,os.path.join(HERE,'..',d))
import rustsrc, gen, peg
from rustsrc import *

OPAQUE={'include_decl','object','file_identifier_decl'}
# ------------------------------------------------------------------ types
def ty(t):
    t=re.sub(r"'\w+\s*,?\s*",'',t); t=re.sub(r'<\s*>','',t)
    t=re.sub(r'\s+',' ',t).strip()
    t=re.sub(r'&\s*Path\b','PathT',t)
    t=re.sub(r'&\s*str\b','Tx',t)
    t=re.sub(r'\bString\b','Tx',t)
    t=re.sub(r'\bVec<','Seq<',t)
    t=re.sub(r'\b(?:std::collections::)?(?:HashMap|BTreeMap)<','Map<',t)
    t=re.sub(r'\[u8; ?4\]','Seq<u8>',t)
    t=re.sub(r'\bIntegerConstant\b|\bi128\b','int',t)
    t=re.sub(r'\bFloatingConstant\b|\bf64\b','Fl',t)
    t=re.sub(r'\bBooleanConstant\b','bool',t)
    m=re.match(r'^\[(.*); ?1\]$',t)
    if m: t='Seq<%s>'%m.group(1)
    return t
def split_ty(b):
    out=[]; d=0; cur=''
    for x in re.split(r'(->|[<>()\[\]{},])',b):
        if x in('<','(','[','{'): d+=1
        elif x in('>',')',']','}'): d-=1
        if x==',' and d==0: out.append(cur); cur=''
        else: cur+=x
    return out+([cur] if cur.strip() else [])
class Types:
    def __init__(s,text):
        s.structs={}; s.enums={}; s.order=[]; s.derives=set(); s.items=parse_items(text); s.text=[]; s.froms=[]
        for x in s.items:
            if x.kind not in('struct','enum') : continue
            if any('cfg(test)' in a for a in x.attrs): continue
            if any(re.search(r'derive\([^)]*\bFrom\b',a) for a in x.attrs): s.derives.add(x.name)
            body=x.body if x.body is not None else ''
            if x.kind=='struct':
                fs=[]
                for f in split_ty(body):
                    f=re.sub(r'#\s*\[[^\]]*\]','',f).strip()
                    if not f: continue
                    m=re.match(r'^(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)$',f,re.S)
                    if not m: raise Lost('field of '+x.name)
                    fs.append((m.group(1),ty(m.group(2))))
                s.structs[x.name]=fs
            else:
                vs=[]
                for f in split_ty(body):
                    f=re.sub(r'#\s*\[[^\]]*\]','',f).strip()
                    if not f: continue
                    m=re.match(r'^(\w+)\s*(?:\((.*)\))?$',f,re.S)
                    if not m: raise Lost('variant of '+x.name)
                    vs.append((m.group(1),ty(m.group(2)) if m.group(2) else None))
                s.enums[x.name]=vs
            s.order.append(x.name)
    def default(s,t):
        if t.startswith('Option<'): return 'None'
        if t.startswith('Seq<'): return 'Seq::empty()'
        if t.startswith('Map<'): return 'Map::empty()'
        if t in s.structs: return '%s { %s }'%(t,', '.join('%s: %s'%(n,s.default(u)) for n,u in s.structs[t]))
        raise Lost('no default for '+t)
    def emit(s):
        skip={'File','RootType','Value'}; o=[]
        for n in s.order:
            if n in skip: continue
            if n in('Object',): o.append('#[verifier::external_body] pub struct %s { v: u64 }'%n); continue
            if n in s.structs:
                fs=s.structs[n]; o.append('pub ghost struct %s { %s }'%(n,', '.join('pub %s: %s'%f for f in fs)))
                if n in s.derives and n!='Include':
                    if len(fs)==1: o.append('impl VFrom<%s> for %s { open spec fn vfrom(a: %s) -> %s { %s { %s: a } } }'%(fs[0][1],n,fs[0][1],n,n,fs[0][0]))
                    else:
                        t='(%s)'%', '.join(f[1] for f in fs)
                        o.append('impl VFrom<%s> for %s { open spec fn vfrom(a: %s) -> %s { %s { %s } } }'%(t,n,t,n,n,', '.join('%s: a.%d'%(f[0],k) for k,f in enumerate(fs))))
            else:
                vs=s.enums[n]; o.append('pub ghost enum %s { %s }'%(n,', '.join(v if t is None else '%s(%s)'%(v,t) for v,t in vs)))
                if n in s.derives:
                    for v,t in vs:
                        if t: o.append('impl VFrom<%s> for %s { open spec fn vfrom(a: %s) -> %s { %s::%s(a) } }'%(t,n,t,n,n,v))
        # explicit impls
        for x in s.items:
            if x.kind!='impl': continue
            m=re.match(r"^impl\s*(?:<[^>]*>)?\s*From<(.*)>\s*for\s*(\w+)\s*(?:<[^>]*>)?\s*$",re.sub(r'\s+',' ',x.head).strip())
            if not m or m.group(2) in skip or m.group(2) in('Object',): continue
            a=ty(m.group(1)); n=m.group(2)
            if a in('u64','i32') or n in s.derives and n in s.enums and any(t==a for v,t in s.enums[n]): continue
            try:
                f=[y for y in x.items if y.kind=='fn'][0]
                p=re.search(r'\(\s*(?:mut\s+)?(\w+)\s*:',f.head).group(1)
                b=Tr(s,{},'').block(f.body,{'Self':n})
                o.append('impl VFrom<%s> for %s { open spec fn vfrom(%s: %s) -> %s { %s } }'%(a,n,p,a,n,b))
            except (Lost,IndexError,AttributeError): pass
        return '\n'.join(o)

# ------------------------------------------------------------------ texts
def strip_paren(t):
    t=t.strip()
    while t.startswith('(') :
        k=toks(t); e=match_close(k,0)
        if e!=len(k)-1: return t
        inner=t[1:-1]
        if len(gen.split_args(inner))!=1 or not inner.strip() or inner.rstrip().endswith(','): return t
        t=inner.strip()
    return t
def call(t):
    """(callee text, [argument texts]) when t is a call"""
    k=toks(t)
    if len(k)<3 or k[-1][0]!=')': return None
    d=0; j=len(k)-1
    while j>=0:
        if k[j][0] in(')',']','}'): d+=1
        elif k[j][0] in OPEN:
            d-=1
            if d==0: break
        j-=1
    if j<=0: return None
    c=t[:k[j][1]].strip()
    if not c: return None
    return c,[x.strip() for x in gen.split_args(t[k[j][2]:k[-1][1]]) if x.strip()]
def closure(t):
    m=re.match(r'^(?:move\s+)?\|(.*?)\|\s*(?:->\s*([^{]*?)\s*(?=\{))?(.*)$',t.strip(),re.S)
    if not m or m.group(1).count('(')!=m.group(1).count(')'): return None
    return m.group(1).strip(),m.group(3).strip()
def statements(b):
    """[statement texts], final expression of a block's inside"""
    k=toks(b); out=[]; start=0; d=0; i=0
    while i<len(k):
        x=k[i][0]
        if x in OPEN:
            i=match_close(k,i)
            # a statement `if c { ... }` needs no semicolon
            if x=='{' and b[start:].lstrip().startswith('if ') and i+1<len(k) and k[i+1][0] not in('else','.','?',';',')',','): out.append(b[start:k[i][2]].strip()); start=k[i][2]
        elif x==';': out.append(b[start:k[i][1]].strip()); start=k[i][2]
        i+=1
    return out,b[start:].strip()
def chars(lit):
    m=re.match(r'^"(.*)"$',lit.strip(),re.S)
    if not m: raise Lost('text literal '+lit[:20])
    return re.findall(r'\\(?:x..|u\{[^}]*\}|.)|[^\\]',m.group(1),re.S)
def is_ident(t): return re.match(r'^[A-Za-z_]\w*$',t) is not None
def top(t,word):
    """position of a token at nesting depth 0"""
    k=toks(t); d=0; i=0
    while i<len(k):
        if k[i][0] in OPEN: i=match_close(k,i)
        elif k[i][0]==word: return k[i]
        i+=1
    return None

IDK=lambda r,v: 'Ok((%s, %s))'%(r,v)
FLOATS={'NAN':'fl_nan()','INFINITY':'fl_inf()','NEG_INFINITY':'fl_neg_inf()'}
class Tr:
    def __init__(s,types,fns,ret,contracts=frozenset()):
        s.types=types; s.fns=fns; s.ret=ret; s.n=0; s.contracts=contracts; s.stack=[]; s.used=set()
        s.float='Fl' in ty(ret)
    def v(s,p='q'): s.n+=1; return '%s%d'%(p,s.n)
    # ---------------- values
    def val(s,t,env):
        t=strip_paren(t.strip())
        if t.startswith('{') and t.endswith('}') and match_close(toks(t),0)==len(toks(t))-1: return s.block(t[1:-1],env)
        if t=='()': return '()'
        if re.match(r"^'(?:\\.|[^\\])'$",t) or re.match(r'^\d+$',t) or t in('true','false','None'): return t
        if re.match(r'^"',t) and len(toks(t))==1: cs=chars(t); return 'seq![%s]'%', '.join(peg.ch(c) for c in cs) if cs else 'Seq::<char>::empty()'
        m=re.match(r'^(?:std\s*::\s*)?f64\s*::\s*(?:consts\s*::\s*)?(NAN|INFINITY|NEG_INFINITY)$',t)
        if m: return FLOATS[m.group(1)]
        if t.startswith('-'): return ('fl_neg(%s)' if s.float else '(-%s)')%s.val(t[1:],env)
        if t.startswith('&') or t.startswith('*'): return s.val(t[1:],env)
        if t.startswith('match '): return s.match(t,env,s.val)
        if t.startswith('if '): return s.cond(t,env,s.val)
        if is_ident(t):
            if t in env:
                e=env[t]
                if isinstance(e,tuple): return s.val(e[0],e[1])
                return e
            return t
        m=re.match(r'^\w+(?:\s*\.\s*(?:\w+|\d+))+$',t)
        if m: return t
        if re.match(r'^(\w+)\s*::\s*(\w+)$',t):
            a,b=re.split(r'\s*::\s*',t); a=env.get(a,a) if a=='Self' else a
            if a in s.types.enums: return a+'::'+b
            raise Lost('value '+t[:40])
        if t.startswith('(') :
            k=toks(t)
            if match_close(k,0)==len(k)-1: return '(%s)'%', '.join(s.val(x,env) for x in gen.split_args(t[1:-1]) if x.strip())
        if t.startswith('[') and match_close(toks(t),0)==len(toks(t))-1: return 'seq![%s]'%', '.join(s.val(x,env) for x in gen.split_args(t[1:-1]) if x.strip())
        m=re.match(r'^(\w+)\s*\[\s*(\d+)\s*\]$',t)
        if m: return '%s[%s]'%(s.val(m.group(1),env),m.group(2))
        m=re.match(r'^(?:std\s*::\s*)?format\s*!\s*\((.*)\)$',t,re.S)
        if m:
            a=[x.strip() for x in gen.split_args(m.group(1)) if x.strip()]; parts=re.split(r'(\{\w*\})',a[0][1:-1]); o=[]; k=1
            for p in parts:
                if p=='{}': o.append(s.val(a[k],env)); k+=1
                elif re.match(r'^\{\w+\}$',p): o.append(s.val(p[1:-1],env))
                elif p: o.append(s.val('"'+p+'"',env))
            return '(%s)'%' + '.join(o)
        # struct literal
        m=re.match(r'^(\w+)\s*\{(.*)\}$',t,re.S)
        if m and (m.group(1)=='Self' and env.get('Self') in s.types.structs or m.group(1) in s.types.structs):
            n=env.get('Self') if m.group(1)=='Self' else m.group(1); g={}
            for f in gen.split_args(m.group(2)):
                if not f.strip(): continue
                q=re.match(r'^\s*(\w+)\s*(?::(?!:)\s*(.*))?$',f,re.S)
                if not q: raise Lost('struct value '+f[:30])
                g[q.group(1)]=s.val(q.group(2) or q.group(1),env)
            return s.struct(n,g)
        b=s.builder(t,env)
        if b: return b
        c=call(t)
        if c:
            f,a=c; m=re.match(r'^(.*?)\s*\.\s*(\w+)\s*(?:::\s*<([^()]*)>)?$',f,re.S)
            if m and top(f,'.') :
                k=toks(f); j=max(i for i,x in enumerate(k) if x[0]=='.'); recv=f[:k[j][1]]; meth=k[j+1][0]
                if meth in('clone','to_owned','as_str','as_ref','to_string','to_vec','into_iter','iter','collect','copied','cloned') and not a: return s.val(recv,env)
                if meth=='checked_neg' and not a: return 'int_checked_neg(%s)'%s.val(recv,env)
                if meth in('ok_or','ok_or_else'): return 'opt_res(%s)'%s.val(recv,env)
                if meth=='map_err': return s.val(recv,env)
                if meth=='unwrap_or': return 'opt_or(%s, %s)'%(s.val(recv,env),s.val(a[0],env))
                if meth=='unwrap_or_default' and not a: return 'opt_or(%s, Seq::empty())'%s.val(recv,env)
                if meth=='map' and len(a)==1: # on an Option
                    x=s.v('o'); return '(match %s { Some(%s) => Some(%s), None => None })'%(s.val(recv,env),x,s.fun(a[0],env)(x))
                if meth=='parse' and not a: return s.from_str(m.group(3) or '',s.val(recv,env))
                raise Lost('method '+meth)
            if len(a)==1: return s.fun(f,env)(s.val(a[0],env),)
            if re.match(r'.*\bfrom_str_radix$',f) and len(a)==2 and 'int'==ty(f.split('::')[0].strip()): return 'int_radix(%s, %s)'%(s.val(a[0],env),s.val(a[1],env))
            if re.match(r'(.*::\s*)?parse_hexf64$',f) and len(a)==2 and a[1]=='false': return 'fl_of_hex(%s)'%s.val(a[0],env)
            raise Lost('call of '+f[:40])
        raise Lost('value '+t[:60])
    def from_str(s,t,x):
        t=ty(t.strip())
        if t=='int': return 'int_radix(%s, 10)'%x
        if t=='Fl': return 'fl_of_text(%s)'%x
        raise Lost('from_str of '+t)
    def struct(s,n,g):
        fs=s.types.structs[n]
        for k in g:
            if k not in [f[0] for f in fs]: raise Lost('field %s of %s'%(k,n))
        return '%s { %s }'%(n,', '.join('%s: %s'%(f,g[f] if f in g else s.types.default(t)) for f,t in fs))
    def builder(s,t,env):
        m=re.match(r'^(\w+)\s*::\s*builder\s*\(\s*\)',t)
        if not m: return None
        n=env.get('Self') if m.group(1)=='Self' else m.group(1)
        if n not in s.types.structs: raise Lost('builder of '+n)
        k=toks(t[m.end():]); r=t[m.end():]; i=0; g={}
        while i<len(k):
            if k[i][0]!='.' or k[i+2][0]!='(': raise Lost('builder of '+n)
            e=match_close(k,i+2); f=k[i+1][0]; a=r[k[i+2][2]:k[e][1]].strip().rstrip(',')
            if f=='build':
                if e!=len(k)-1: raise Lost('builder of '+n)
                return s.struct(n,g)
            g[f]=s.val(a,env); i=e+1
        raise Lost('builder of '+n)
    def fun(s,t,env):
        """a function on values: argument term -> term"""
        t=strip_paren(t.strip())
        c=closure(t)
        if c:
            p,b=c; p=re.sub(r'\s*:\s*[&\w<>\'\s:]+$','',p) if not p.startswith('(') else re.sub(r'(\))\s*:.*$',r'\1',p,flags=re.S)
            p=re.sub(r'&|\bref\b|\bmut\b','',p).strip()
            names=re.findall(r'\b[a-z]\w*\b',p); e=dict(env)
            for x in names: e.pop(x,None)
            body=s.val(b,e)
            return lambda a: '(match %s { %s => %s })'%(a,p,body)
        t=re.sub(r'\s+','',t)
        if t in('Ok','Some'): return lambda a: '%s(%s)'%(t,a)
        if t=='Err': return lambda a: 'Err(())'
        if t in('Box::new',): return lambda a: 'Box::new(%s)'%a
        if re.match(r'(std::path::)?Path::new$',t): return lambda a: 'path_of(%s)'%a
        if re.match(r'(?:std::collections::)?HashMap::from_iter$',t): return lambda a: 'map_of(%s)'%a
        if t=='std::convert::identity': return lambda a:a
        m=re.match(r'^(\w+)::from_str$',t)
        if m: return lambda a: s.from_str(m.group(1),a)
        m=re.match(r'^(?:str::)?parse::<(\w+)>$',t)
        if m: return lambda a: s.from_str(m.group(1),a)
        m=re.match(r'^(\w+)(?:<[^>]*>)?::(from|new)$',t)
        if m and m.group(2)=='from':
            n=env.get('Self') if m.group(1)=='Self' else m.group(1)
            if n in s.types.structs or n in s.types.enums: return lambda a: '<%s as VFrom<_>>::vfrom(%s)'%(n,a)
        m=re.match(r'^(\w+)::(\w+)$',t)
        if m:
            n=env.get('Self') if m.group(1)=='Self' else m.group(1)
            if n in s.types.enums and m.group(2) in [v for v,_ in s.types.enums[n]]: return lambda a: '%s::%s(%s)'%(n,m.group(2),a)
        if is_ident(t) and t in env and isinstance(env[t],tuple): return s.fun(env[t][0],env[t][1])
        raise Lost('function '+t[:40])
    def block(s,b,env):
        st,fin=statements(b)
        return s.stmts(st,fin,env,s.val)
    # ---------------- control
    def match(s,t,env,k):
        kk=toks(t); j=next(i for i,x in enumerate(kk) if x[0]=='{' ) if '{' in [x[0] for x in kk] else None
        # the scrutinee has no braces of its own here
        if j is None or match_close(kk,j)!=len(kk)-1: raise Lost('match')
        sc=t[5:kk[j][1]].strip(); arms=[]
        body=t[kk[j][2]:kk[-1][1]]
        for a in split_arms(body):
            p=top(a,'=>')
            if not p: raise Lost('match arm')
            pat=a[:p[1]].strip(); rhs=a[p[2]:].strip().rstrip(',')
            if re.match(r'^Err\b',pat): pat='Err(_)'
            pat=re.sub(r'&|\bref\b','',pat)
            e=dict(env)
            for x in re.findall(r'\b[a-z]\w*\b',pat): e.pop(x,None)
            arms.append('%s => %s'%(pat,k(rhs,e)))
        return '(match %s { %s })'%(s.scrut(sc,env),', '.join(arms))
    def scrut(s,t,env):
        if is_ident(t.strip()) and isinstance(env.get(t.strip()),tuple):
            try: return s.body(*env[t.strip()])
            except Lost: pass
        try: return s.app(t,env)
        except Lost: return s.val(t,env)
    def cond(s,t,env,k):
        kk=toks(t); j=next((i for i,x in enumerate(kk) if x[0]=='{'),None)
        if j is None: raise Lost('if')
        e=match_close(kk,j); c=t[2:kk[j][1]].strip(); a=t[kk[j][2]:kk[e][1]]
        if e+1>=len(kk) or kk[e+1][0]!='else': raise Lost('if without else')
        rest=t[kk[e+1][2]:].strip()
        m=re.match(r'^let\s+(.*?)\s*=\s*(.*)$',c,re.S)
        B=lambda x,ev: s.stmts(*statements(x),ev,k)
        els=k(rest,env) if rest.startswith('if ') else B(rest[1:-1],env)
        if m:
            pat=re.sub(r'&|\bref\b','',m.group(1)); ev=dict(env)
            for x in re.findall(r'\b[a-z]\w*\b',pat): ev.pop(x,None)
            return '(match %s { %s => %s, _ => %s })'%(s.scrut(m.group(2),env),pat,B(a,ev),els)
        return '(if %s { %s } else { %s })'%(s.boolean(c,env),B(a,env),els)
    def boolean(s,t,env):
        t=strip_paren(t.strip())
        for op in('||','&&'):
            p=top(t,op)
            if p: return '(%s %s %s)'%(s.boolean(t[:p[1]],env),op,s.boolean(t[p[2]:],env))
        if t.startswith('!') and not t.startswith('!='): return '!(%s)'%s.boolean(t[1:],env)
        for op in('==','!=','<=','>='):
            p=top(t,op)
            if p: return '(%s %s %s)'%(s.val(t[:p[1]],env),op,s.val(t[p[2]:],env))
        m=re.match(r'^matches\s*!\s*\((.*)\)$',t,re.S)
        if m:
            a=gen.split_args(m.group(1)); p=a[1].strip()
            x=s.val(a[0],env)
            alts=[q.strip() for q in p.split('|')] if "'|'" not in p else [p]
            o=[]
            for q in alts:
                r=re.match(r"^('(?:\\.|[^\\])')\s*\.\.=\s*('(?:\\.|[^\\])')$",q)
                if r: o.append('(%s <= %s && %s <= %s)'%(r.group(1),x,x,r.group(2)))
                elif re.match(r"^'(?:\\.|[^\\])'$",q): o.append('%s == %s'%(x,q))
                elif re.match(r"^Some\('(?:\\.|[^\\])'\)$",q): o.append('%s == %s'%(x,q))
                else: raise Lost('pattern '+q)
            return '(%s)'%' || '.join(o)
        c=call(t)
        if c:
            f=re.sub(r'\s+','',c[0]); m=re.match(r'^(.*)\.(\w+)$',f) or re.match(r'^()char::(\w+)$',f)
            if m:
                x=s.val(m.group(1) or c[1][0],env); n=m.group(2)
                P={'is_alphabetic':'c_alphabetic','is_alphanumeric':'c_alphanumeric','is_whitespace':'c_whitespace','is_numeric':'c_numeric','is_ascii_digit':'c_digit','is_ascii_hexdigit':'c_hex','is_ascii_alphabetic':'c_letter'}
                if n in P: return '%s(%s)'%(P[n],x)
                if n=='is_ascii_alphanumeric': return '(c_letter(%s) || c_digit(%s))'%(x,x)
                if n=='is_digit' and c[1][-1] in('10','16'): return '%s(%s)'%('c_digit' if c[1][-1]=='10' else 'c_hex',x)
                if n=='contains' and len(c[1])==1 and re.match(r"^'|^\"",m.group(1) or ''): raise Lost('contains')
            if is_ident(f) and f in s.fns and len(c[1])==1:
                fn=s.fns[f]; p=re.search(r'\(\s*(\w+)\s*:\s*char',fn.head)
                if p: s.used.add(f); return s.boolean_block(fn.body,{p.group(1):s.val(c[1][0],env)})
        if t in('true','false'): return t
        raise Lost('condition '+t[:40])
    def boolean_block(s,b,env):
        st,fin=statements(b)
        if st: raise Lost('predicate with statements')
        return s.boolean(fin,env)
    def pred(s,t,env):
        """a predicate on characters: closure text"""
        c=closure(t); x=s.v('c')
        if c:
            p=re.sub(r'\s*:.*$','',c[0]).replace('&','').strip(); e=dict(env); e[p]=x; b=c[1]
            if b.startswith('{') and b.endswith('}'): return '|%s: char| %s'%(x,s.boolean_block(b[1:-1],e))
            return '|%s: char| %s'%(x,s.boolean(b,e))
        t=re.sub(r'\s+','',t)
        if is_ident(t) and t in env and isinstance(env[t],tuple): return s.pred(env[t][0],env[t][1])
        if is_ident(t) and t in s.fns: return '|%s: char| %s'%(x,s.boolean('%s(%s)'%(t,x),{x:x}))
        if re.match(r'^char::is_\w+$',t): return '|%s: char| %s'%(x,s.boolean('%s(%s)'%(t,x),{x:x}))
        raise Lost('predicate '+t[:40])
    def bind(s,term,k):
        if k is IDK: return term
        r,v=s.v(),s.v('v'); return '(match %s { Ok((%s, %s)) => %s, Err(_) => Err(()) })'%(term,r,v,k(r,v))
    def leaf(s,f):
        """a parser given as a term of its input"""
        return lambda i,k=IDK: s.bind(f(i),k)
    def when(s,c,n,v,k,i):
        """takes n characters if c"""
        r=s.v(); return '(if %s { let %s = sk(%s, %d); %s } else { Err(()) })'%(c,r,i,n,k(r,v))
    # ---------------- bodies
    def stmts(s,st,fin,env,k):
        """statements then the final expression; k translates expressions"""
        if not st: return k(fin,env)
        x=st[0]; rest=st[1:]
        m=re.match(r'^(?:nom\s*::\s*)?re_match\s*!\s*\(\s*(\w+)\s*,\s*r(#*)"(.*)"\2\s*\)\s*\?$',x,re.S)
        if m: return '(if %s { %s } else { Err(()) })'%(regex(m.group(3),s.inp(m.group(1),env)),s.stmts(rest,fin,env,k))
        m=re.match(r'^let\s+(?:mut\s+)?(.*?)(?:\s*:\s*([^=()]*?))?\s*=(?!=)\s*(.*)$',x,re.S)
        if m:
            pat,rhs=re.sub(r'&|\bref\b|\bmut\b','',m.group(1)).strip(),m.group(3).strip(); e=dict(env)
            names=re.findall(r'\b[a-z_]\w*\b',pat)
            if rhs.endswith('?'):
                r=rhs[:-1].strip()
                try: sc=s.app(r,env); isapp=True
                except Lost: sc=s.val(r,env)
                for n in names: e[n]=n
                return '(match %s { Ok(%s) => %s, Err(_) => Err(()) })'%(sc,pat,s.stmts(rest,fin,e,k))
            if is_ident(pat):
                # a parser, a function or a value: kept as text
                e[pat]=(rhs,dict(env)); return s.stmts(rest,fin,e,k)
            for n in names: e[n]=n
            return '(match %s { %s => %s })'%(s.val(rhs,env),pat,s.stmts(rest,fin,e,k))
        if x.endswith('?'):
            return '(match %s { Ok(_) => %s, Err(_) => Err(()) })'%(s.app(x[:-1].strip(),env),s.stmts(rest,fin,env,k))
        if re.match(r'^use\s',x) : return s.stmts(rest,fin,env,k)
        m=re.match(r'^return\s+(.*)$',x,re.S)
        if m: return k(m.group(1),env)
        if re.match(r'^(debug_assert\s*!\s*\(\s*true\s*\)|\(\s*\)|let\s+_\s*=\s*\(\s*\)|let\s+_\w*\s*=\s*\(\s*\))$',x): return s.stmts(rest,fin,env,k)
        if x.startswith('if '):
            kk=toks(x); j=next((q for q,y in enumerate(kk) if y[0]=='{'),None)
            if j is not None and match_close(kk,j)==len(kk)-1:
                st2,fin2=statements(x[kk[j][2]:kk[-1][1]])
                if not (fin2 or '').strip() and st2 and st2[-1].startswith('return'):
                    return s.cond(x[:kk[j][2]]+' '+'; '.join(st2[:-1]+[st2[-1][6:].strip()])+' } else { __rest }',env,lambda q,ev: s.stmts(rest,fin,env,k) if q.strip()=='__rest' else k(q,ev))
        raise Lost('statement '+x[:50])
    def inp(s,t,env):
        t=t.strip()
        if is_ident(t):
            e=env.get(t,t)
            if isinstance(e,tuple): return s.inp(e[0],e[1])
            return e
        raise Lost('input '+t[:30])
    def body(s,t,env):
        """an expression of type IResult"""
        t=strip_paren(t.strip())
        if t.startswith('return '): t=t[7:].strip()
        if t.startswith('{') and t.endswith('}') and match_close(toks(t),0)==len(toks(t))-1: return s.stmts(*statements(t[1:-1]),env,s.body)
        if t.startswith('match '): return s.match(t,env,s.body)
        if t.startswith('if '): return s.cond(t,env,s.body)
        c=call(t)
        if c and c[0]=='Ok' and len(c[1])==1:
            x=c[1][0]
            if x.startswith('(') and match_close(toks(x),0)==len(toks(x))-1:
                a=[y for y in gen.split_args(x[1:-1]) if y.strip()]
                if len(a)==2: return 'Ok((%s, %s))'%(s.inp(a[0],env),s.val(a[1],env))
        if c and c[0]=='Ok' and len(c[1])==1 and is_ident(c[1][0].strip()) and not isinstance(env.get(c[1][0].strip(),''),tuple): return 'Ok(%s)'%env.get(c[1][0].strip(),c[1][0].strip())
        if c and c[0]=='Err': return 'Err(())'
        if is_ident(t):
            e=env.get(t,t); return s.body(*e) if isinstance(e,tuple) else e
        return s.app(t,env)
    def app(s,t,env):
        """parser applied to an input"""
        t=strip_paren(t.strip()); c=call(t)
        if not c or len(c[1])!=1: raise Lost('not an application: '+t[:40])
        return s.par(c[0],env)(s.inp(c[1][0],env))
    def named(s,n):
        if n in s.contracts or n in OPAQUE: s.used.add(n); return s.leaf(lambda i: 'g_%s(%s)'%(n,i))
        f=s.fns.get(n)
        if f is None or n in s.stack or len(s.stack)>12: raise Lost('parser '+n)
        p=re.search(r'\(\s*(?:mut\s+)?(\w+)\s*:',f.head)
        if not p: raise Lost('parser '+n)
        def go(i):
            s.stack.append(n); fl=s.float; s.float='Fl' in ty(f.head)
            try: return s.stmts(*statements(f.body),{p.group(1):i},s.body)
            finally: s.stack.pop(); s.float=fl
        return s.leaf(go)
    def par(s,t,env):
        """a parser: input variable -> term"""
        t=strip_paren(t.strip())
        c=closure(t)
        if c:
            p=re.sub(r'\s*:.*$','',c[0],flags=re.S).strip()
            def go(i):
                e=dict(env); e[p]=i
                return s.body(c[1],e)
            return s.leaf(go)
        if is_ident(t):
            if t in env and isinstance(env[t],tuple): return s.par(env[t][0],env[t][1])
            if t in PRIM: return s.leaf(PRIM[t])
            if t in('line_ending','not_line_ending'): return s.leaf(lambda i: '%s(%s)'%('line' if t[0]=='n' else t,i))
            if t=='anychar': return lambda i,k=IDK: s.when('%s.len() > 0'%i,1,i+'[0]',k,i)
            return s.named(t)
        k=call(t)
        if not k:
            last=re.sub(r'\s+','',t).split('::')[-1]
            if re.match(r'^[\w:]+$',re.sub(r'\s+','',t)) and (last in PRIM or last in s.fns or last in('line_ending','not_line_ending')): return s.par(last,env)
            raise Lost('parser '+t[:40])
        f,a=k; f=re.sub(r'\s+','',f); f=re.sub(r'::<.*>$','',f); f=f.split('::')[-1]
        P=lambda x: s.par(x,env)
        def parts(x):
            x=x.strip()
            if not x.startswith('('): raise Lost('tuple expected')
            return [y for y in gen.split_args(x[1:-1]) if y.strip()]
        def seq(ps,val):
            def go(i,k=IDK):
                vs=[]
                def step(j,cur):
                    if j==len(ps): return k(cur,val(vs))
                    def nxt(r,v): vs.append(v); return step(j+1,r)
                    return P(ps[j])(cur,nxt)
                return step(0,i)
            return go
        if f in s.fns and f not in COMB:
            fn=s.fns[f]; ps=re.findall(r'[(,]\s*(?:mut\s+)?(\w+)\s*:',fn.head)
            if len(ps)!=len(a): raise Lost('parser '+f)
            if f in s.stack: raise Lost('recursive '+f)
            e={p:(x,dict(env)) for p,x in zip(ps,a)}; st,fin=statements(fn.body); s.used.add(f)
            for q in st:
                m=re.match(r'^let\s+(\w+)\s*=\s*(.*)$',q,re.S)
                if not m: raise Lost('statement in '+f)
                e=dict(e); e[m.group(1)]=(m.group(2),dict(e))
            def go2(i,k=IDK):
                s.stack.append(f)
                try: return s.par(fin,e)(i,k)
                finally: s.stack.pop()
            return go2
        if f in('tag','char','one_of','none_of','tag_no_case'):
            x=a[0]; e=env
            while is_ident(x) and x in e and isinstance(e[x],tuple): x,e=e[x]
            if f=='tag':
                cs=chars(x)
                return lambda i,k=IDK: s.when(peg.cond(cs,i),len(cs),'tk(%s, %d)'%(i,len(cs)),k,i)
            if f=='char':
                if not re.match(r"^'",x): raise Lost('char')
                x="'\"'" if x=="'\\\"'" else x
                return lambda i,k=IDK: s.when('%s.len() >= 1 && %s[0] == %s'%(i,i,x),1,i+'[0]',k,i)
            if f in('one_of','none_of'):
                cs=chars(x)
                return lambda i,k=IDK: s.when('%s.len() > 0 && %s(%s)'%(i,'' if f=='one_of' else '!',' || '.join('%s[0] == %s'%(i,peg.ch(c)) for c in cs)),1,i+'[0]',k,i)
            raise Lost(f)
        if f=='is_a' : 
            cs=chars(a[0]); x=s.v('c'); return s.leaf(lambda i: 'take_while1(|%s: char| %s, %s)'%(x,' || '.join('%s == %s'%(x,peg.ch(c)) for c in cs),i))
        if f in('take_while','take_while1'): return s.leaf(lambda i: '%s(%s, %s)'%(f,s.pred(a[0],env),i))
        if f=='take_till': return s.leaf(lambda i: 'take_while(%s, %s)'%(re.sub(r'^(\|\w+: char\|) (.*)$',r'\1 !(\2)',s.pred(a[0],env),flags=re.S),i))
        if f=='satisfy' or f=='take_while_m_n':
            if f=='take_while_m_n' and a[:2]!=['1','1']: raise Lost('take_while_m_n')
            p=s.pred(a[-1],env); x,b=re.match(r'^\|(\w+): char\| (.*)$',p,re.S).groups()
            return lambda i,k=IDK: s.when('%s.len() > 0 && %s'%(i,re.sub(r'\b%s\b'%x,i+'[0]',b)),1,'tk(%s, 1)'%i,k,i)
        if f=='map': return lambda i,k=IDK: P(a[0])(i,lambda r,v: k(r,s.fun(a[1],env)(v)))
        if f in('map_res','map_opt'):
            def go4(i,k=IDK):
                def nxt(r,v):
                    w=s.v('w'); y=s.fun(a[1],env)(v)
                    if f=='map_opt': y='opt_res(%s)'%y
                    return '(match %s { Ok(%s) => %s, Err(_) => Err(()) })'%(y,w,k(r,w))
                return P(a[0])(i,nxt)
            return go4
        if f=='value': return lambda i,k=IDK: P(a[1])(i,lambda r,v: k(r,s.val(a[0],env)))
        if f=='opt':
            def go6(i):
                r,v=s.v(),s.v('v'); return '(match %s { Ok((%s, %s)) => Ok((%s, Some(%s))), Err(_) => Ok::<_, ()>((%s, None)) })'%(P(a[0])(i),r,v,r,v,i)
            return s.leaf(go6)
        if f=='not': return lambda i,k=IDK: '(match %s { Ok(_) => Err(()), Err(_) => %s })'%(P(a[0])(i),k(i,'()'))
        if f=='peek': return lambda i,k=IDK: P(a[0])(i,lambda r,v: k(i,v))
        if f=='recognize': return lambda i,k=IDK: P(a[0])(i,lambda r,v: k(r,'tk(%s, %s.len() - %s.len())'%(i,i,r)))
        if f=='complete': return P(a[0])
        if f=='alt':
            ps=parts(a[0])
            def go9(i):
                t=P(ps[-1])(i)
                for q in ps[-2::-1]:
                    x=s.v('x'); t='(match %s { Ok(%s) => Ok(%s), Err(_) => %s })'%(P(q)(i),x,x,t)
                return t
            return s.leaf(go9)
        if f=='tuple': return seq(parts(a[0]),lambda vs:'(%s)'%', '.join(vs)+('' if len(vs)>1 else ''))
        if f=='pair': return seq(a,lambda vs:'(%s, %s)'%(vs[0],vs[1]))
        if f=='separated_pair': return seq(a,lambda vs:'(%s, %s)'%(vs[0],vs[2]))
        if f=='preceded': return seq(a,lambda vs:vs[1])
        if f=='terminated': return seq(a,lambda vs:vs[0])
        if f=='delimited': return seq(a,lambda vs:vs[1])
        def lam(x):
            j=s.v('j'); return '|%s: Tx| %s'%(j,P(x)(j))
        if f in('many0','many1'): return s.leaf(lambda i: '%s(%s, %s)'%(f,lam(a[0]),i))
        if f in('separated_list','separated_nonempty_list'): return s.leaf(lambda i: '%s(%s, %s, %s)'%('sep0' if f=='separated_list' else 'sep1',lam(a[0]),lam(a[1]),i))
        if f=='escaped': return s.leaf(lambda i: 'escaped(%s, %s, %s, %s)'%(lam(a[0]),a[1],lam(a[2]),i))
        raise Lost('combinator '+f)
COMB={'tag','char','one_of','none_of','take_while','take_while1','take_while_m_n','map','map_res','map_opt','value','opt','not','peek','recognize','complete','alt','tuple','pair','separated_pair','preceded','terminated','delimited','many0','many1','separated_list','separated_nonempty_list','escaped','take_till','satisfy','is_a'}
def prim(p,one):
    return lambda i: 'take_while%s(|c: char| %s(c), %s)'%('1' if one else '',p,i)
PRIM={'digit0':prim('c_digit',0),'digit1':prim('c_digit',1),'hex_digit0':prim('c_hex',0),'hex_digit1':prim('c_hex',1),'multispace0':prim('c_ms',0),'multispace1':prim('c_ms',1),'alpha1':prim('c_alphabetic',1),'alpha0':prim('c_alphabetic',0)}
def split_arms(b):
    k=toks(b); out=[]; start=0; i=0
    while i<len(k):
        if k[i][0]=='{' and i>0 and k[i-1][0]=='=>':
            e=match_close(k,i); out.append(b[start:k[e][2]].strip()); i=e+1
            if i<len(k) and k[i][0]==',': i+=1
            start=k[i][1] if i<len(k) else len(b); continue
        if k[i][0] in OPEN: i=match_close(k,i)
        elif k[i][0]==',': out.append(b[start:k[i][1]].strip()); start=k[i][2]
        i+=1
    if b[start:].strip(): out.append(b[start:].strip())
    return out
def regex(r,i):
    """^w\\b and ^w(x)?\\b for words"""
    m=re.match(r'^\^(\w+?)(?:\((?:\?:)?(\w+)\)\?)?\\b$',r)
    if not m or re.search(r'\W',m.group(1)): raise Lost('regular expression '+r)
    o=[]
    for w in [m.group(1)]+([m.group(1)+m.group(2)] if m.group(2) else []):
        o.append('(%s && boundary(%s, %d))'%(peg.cond(list(w),i),i,len(w)))
    return '(%s)'%' || '.join(o)

class G: pass
HINTS=os.path.join(HERE,'hints.vx')
def hints():
    h={}
    if os.path.exists(HINTS):
        for m in re.finditer(r'(?ms)^== (\w+)\n(.*?)(?=^== |\Z)',open(HINTS).read()): h[m.group(1)]=m.group(2).strip()
    return h
def build(src,skip=frozenset(),vacuity=False,full=frozenset(),near=frozenset(),only=None):
    """G with text, obligations {function: (first line, last line)}, lost {function: why}"""
    g=G(); g.lost={}; g.obl={}; g.inlined={}
    types=Types(strip_comments(open(os.path.join(src,'ast/types.rs')).read()))
    items=parse_items(strip_comments(open(os.path.join(src,'ast/parser.rs')).read()))
    fns={x.name:x for x in items if x.kind=='fn'}
    gram=open(os.path.join(HERE,'grammar.peg')).read(); rs=peg.rules(gram); names=[r[0] for r in rs]; h=hints()
    head=open(os.path.join(HERE,'base.vx')).read()+types.emit()+'\n'+open(os.path.join(HERE,'spec.vx')).read()+peg.emit(gram)+'\n'+open(os.path.join(HERE,'props.vx')).read()
    out=[head]; line=head.count('\n')+2
    for n,t,node in rs:
        if n in skip or only is not None and n not in only: continue
        f=fns.get(n)
        if f is None: g.lost[n]='not in the source any more'; continue
        try:
            tr=Tr(types,fns,f.head,frozenset(names)); p=re.search(r'\(\s*(?:mut\s+)?(\w+)\s*:',f.head)
            if not p: raise Lost('signature')
            tr.stack=[n]
            # what the function itself says about its result: its declared type is part of the source, not of the rule
            b=tr.stmts(*statements(f.body),{p.group(1):'input0'},tr.body); g.inlined[n]=sorted(tr.used)
        except (Lost,StopIteration,IndexError,AttributeError,KeyError,AssertionError) as e: g.lost[n]='not translatable: %s'%e; continue
        # rules named on one side only: a call was inlined or extracted
        diff=set(re.findall(r'\bg_(\w+)',b))^set(peg.refs(node))
        tx='pub open spec fn code_%s(input0: Tx) -> Rs<%s> {\n    %s\n}\n#[verifier::spinoff_prover] proof fn px_%s(i: Tx) ensures same(code_%s(i), g_%s(i))\n{\n    broadcast use px_base; %s\n%s\n}\n'%(n,t,b,n,n,n,' '.join('reveal(g_%s);'%m for m,_,d in rs if not peg.small(d) and (m==n or n in full or n in near and m in diff)),h.get(n,'')+('\n    assert(false);' if vacuity else ''))
        g.obl[n]=(line,line+tx.count('\n')); out.append(tx); line+=tx.count('\n')+1
    out.append('fn main() {}\n}\n')
    g.text='\n'.join(out); g.rules=names; g.fns=fns
    return g
if __name__=='__main__':
    g=build('/repo/butte-build/src'); open(sys.argv[1],'w').write(g.text); print(g.lost); print(len(g.obl))
