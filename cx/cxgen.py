"""The compiler's own functions (butte-build/src/ast/types.rs, ir/types.rs, ir/keywords.rs, ir/transform.rs)
under contract: extraction as in vx/gen.py, with the rewrites below.

What the extraction changes, besides what vx/gen.py lists:
 Cow<'a, str> is an opaque string type and Cow::Borrowed / Cow::Owned are contracted constructors;
 HashMap, HashSet and BTreeMap are opaque maps with the contracts of get, insert and contains;
 anyhow!(..) makes an opaque error, format!("..{}..", x) is concatenation, to_snake_case an uninterpreted function;
 bodies of From / TryFrom impls are checked as functions of their own (vx_from_..), the impl carrying the same contract;
 o.map(|p| e).unwrap_or_default() and o.or_else(|| e) become a match, P::builder().f(a).build() a struct literal,
 once(x).chain(i.map(c)).collect(), repeat(x).take(n).chain(v).collect() and
 a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count() calls of contracted functions;
 the pattern &P(ref x) becomes P(x); a parameter _ gets a name, and a parameter &P(a, ref b): &T is taken apart after the parameter list;
 Builder::build is taken up to the end of its first loop and returns the builder there (what follows lays the nodes out in nested
 namespaces and is not under contract); v.into_iter().enumerate() is a contracted function, |(a, b)| e a closure that takes the pair
 apart, .collect() into a VecDeque a contracted conversion of the collected Vec; a let whose name only went into an error message is dropped;
 derived Clone and PartialEq are assumed to be structural; documentation comments are carried along as opaque values."""
import copy, json, os, re, sys
HERE=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(HERE,'..','vx'))
import rustsrc, gen, refactor
from rustsrc import *

FILES=['ast/types.rs','ir/types.rs','ir/keywords.rs','ir/transform.rs']
def full_key(head):
    """From<&ast::Ident> for Ident: trait arguments are kept, lifetimes dropped"""
    t=toks(head); i=1
    if t[i][0]=='<': i=match_angle(t,i)+1
    rest=re.split(r'\bwhere\b',head[t[i][1]:])[0]
    parts=re.split(r'\bfor\b',rest)
    if len(parts)==1: return impl_key(head)
    a=re.sub(r"'\w+\s*,?\s*",'',parts[0]); a=re.sub(r'<\s*>','',a); a=re.sub(r'\s+','',a)
    a=re.sub(r'^.*?(\w+(?:<.*)?)$',r'\1',a) if '<' not in a else re.sub(r'^(?:\w+::)*','',a)
    b=strip_generics(parts[1]); b=re.sub(r"'\w+",'',b).strip().split('::')[-1].strip()
    return a+' for '+b

class Source(rustsrc.Source):
    def file(self,f):
        new=f not in self.files
        items=rustsrc.Source.file(self,f)
        if new:
            for x in items:
                if x.kind=='impl': x.name=full_key(x.head)
        return items
    def fn_anywhere(self,f,owner,name):
        try: return self.fn(f,owner,name)
        except Lost as e:
            for g in FILES+['codegen.rs']:
                if g!=f and os.path.exists(os.path.join(self.root,g)):
                    try: return self.fn(g,owner,name)
                    except Lost: pass
            raise e

def recv_start(t,i):
    """index of the first token of the method chain that ends before t[i] (a '.')"""
    j=i-1
    while j>=0:
        x=t[j][0]
        if x in(')',']','}'):
            d=0
            while True:
                if t[j][0] in(')',']','}'): d+=1
                elif t[j][0] in OPEN:
                    d-=1
                    if d==0: break
                j-=1
            if j>0 and (re.match(r'\w',t[j-1][0]) and t[j-1][0] not in('return','match','if','in','=') or t[j-1][0]=='!'): j-=1; continue
            if j>0 and t[j-1][0]=='.': j-=2; continue
            return j
        if re.match(r'[\w"]',x):
            if j>0 and t[j-1][0] in('.','::'): j-=2; continue
            if j>0 and t[j-1][0]=='&' : return j
            return j
        if x=='>' : # turbofish
            d=0
            while True:
                if t[j][0]=='>': d+=1
                elif t[j][0]=='<':
                    d-=1
                    if d==0: break
                j-=1
            j-=1; continue
        if x in('::','!','?','.'): j-=1; continue
        return j+1
    return 0

def find_call(body,name,start=0):
    """(index of '.', of '(', of ')') of a method call"""
    t=toks(body)
    for i in range(len(t)-2):
        if t[i][0]=='.' and t[i+1][0]==name and t[i+2][0]=='(' and t[i][1]>=start: return t,i,i+2,match_close(t,i+2)
    return None

def closure_of(s):
    """(params, body) of a closure text, or None"""
    m=re.match(r'^\s*(?:move\s*)?\|([^|]*)\|\s*(.*)$',s,re.S)
    return (m.group(1).strip(),m.group(2).strip()) if m else None

def rw_options(body,log):
    # methods of Option that take a closure written in place
    for name in('map_or','map_or_else','is_some_and','is_none_or','unwrap_or_else'):
        pos=0
        while True:
            h=find_call(body,name,pos)
            if not h: break
            t,i,a,e=h; pos=t[i][2]
            args=[x.strip() for x in gen.split_args(body[t[a][2]:t[e][1]]) if x.strip()]
            d=args[0] if name=='map_or' and len(args)==2 else None
            c=closure_of(args[-1]) if args else None
            if name=='map_or_else':
                z=closure_of(args[0]) if len(args)==2 else None
                if not z or z[0]!='': continue
                d=z[1]
            if name=='unwrap_or_else':
                if len(args)!=1 or not c or c[0]!='': continue
                some,none='Some(vx_v) => vx_v',c[1]
            else:
                if name=='is_some_and': d='false'
                if name=='is_none_or': d='true'
                if d is None: continue
                if not c:
                    if not re.match(r'^[\w:]+$',args[-1]): continue
                    c=('vx_v',args[-1]+'(vx_v)')
                if not re.match(r'^\w+$',c[0]): continue
                some,none='Some(%s) => %s'%c,d
            # the default is evaluated before the match in map_or; only values and names are moved into the arm
            if name=='map_or' and not re.match(r'^[\w:."]+$',d): continue
            s=recv_start(t,i)
            body=body[:t[s][1]]+'(match '+body[t[s][1]:t[i][1]]+' { '+some+', None => '+none+' })'+body[t[e][2]:]; pos=0
            log.add('o.%s(..) with a closure written in place -> match'%name)
    pos=0
    while True:
        h=find_call(body,'or_else',pos)
        if not h: break
        t,i,a,e=h; pos=t[i][2]
        c=closure_of(body[t[a][2]:t[e][1]])
        if not c or c[0]!='': continue
        s=recv_start(t,i)
        body=body[:t[s][1]]+'(match '+body[t[s][1]:t[i][1]]+' { Some(vx_v) => Some(vx_v), None => '+c[1]+' })'+body[t[e][2]:]; pos=0
        log.add('o.or_else(|| e) -> match')
    pos=0
    while True:
        h=find_call(body,'unwrap_or_default',pos)
        if not h: break
        t,i,a,e=h; pos=t[i][2]
        # .map( closure ) directly before
        if t[i-1][0]!=')': continue
        d=0; k=i-1
        while True:
            if t[k][0] in(')',']','}'): d+=1
            elif t[k][0] in OPEN:
                d-=1
                if d==0: break
            k-=1
        if t[k-1][0]!='map' or t[k-2][0]!='.': continue
        c=closure_of(body[t[k][2]:t[i-1][1]])
        if not c: continue
        s=recv_start(t,k-2)
        body=body[:t[s][1]]+'(match '+body[t[s][1]:t[k-2][1]]+' { Some('+c[0]+') => '+c[1]+', None => VxDefault::vx_default() })'+body[t[e][2]:]; pos=0
        log.add('o.map(|p| e).unwrap_or_default() -> match')
    return body

def rw_builders(body,log):
    while True:
        m=re.search(r'((?:\w+\s*::\s*)*\w+)\s*::\s*builder\(\)',body)
        if not m: return body
        t=toks(body); i=[k for k in range(len(t)) if t[k][1]>=m.end()][0]; fs=[]
        while t[i][0]=='.' and t[i+1][0]!='build':
            e=match_close(t,i+2); a=body[t[i+2][2]:t[e][1]].strip()
            fs.append(t[i+1][0]+': '+a); i=e+1
        e=match_close(t,i+2)
        body=body[:m.start()]+m.group(1)+' { '+', '.join(fs)+' }'+body[t[e][2]:]
        log.add('P::builder().f(a).build() -> P { f: a }')

def rw_macros(body,log):
    while True:
        t=toks(body); hit=None
        for i in range(len(t)-2):
            if t[i][0] in('anyhow','format','vec','unimplemented') and t[i+1][0]=='!' and t[i+2][0] in OPEN:
                e=match_close(t,i+2); n=t[i][0]; arg=body[t[i+2][2]:t[e][1]]
                if n=='anyhow': rep='vx_anyhow()'; log.add('anyhow!(..) -> opaque error')
                elif n=='unimplemented': rep='vx_unimplemented()'; log.add('unimplemented!() -> a function that does not return')
                elif n=='vec': 
                    rep='vx_vec%d(%s)'%(len(gen.split_args(arg)),arg); log.add('vec![a, ..] -> contracted vx_vecN(a, ..)')
                else:
                    a=gen.split_args(arg); m=re.match(r'^"([^"{}]*)\{\}([^"{}]*)"$',a[0])
                    if not m or len(a)!=2: continue
                    rep='vx_concat("%s", &%s, "%s")'%(m.group(1),a[1],m.group(2)) if m.group(1) and m.group(2) else 'vx_prefixed("%s", &%s)'%(m.group(1),a[1]) if m.group(1) else 'vx_suffixed(&%s, "%s")'%(a[1],m.group(2)); log.add('format!("a{}b", x) -> contracted concatenation')
                hit=(t[i][1],t[e][2],rep); break
        if not hit: return body
        body=body[:hit[0]]+hit[2]+body[hit[1]:]

def rw_iters(body,log):
    # once(x).chain(REST).collect()
    m=re.search(r'(?:std\s*::\s*)?iter\s*::\s*once\s*\(',body)
    if m:
        t=toks(body); k=[i for i in range(len(t)) if t[i][2]==m.end()][0]; e=match_close(t,k)
        if [x[0] for x in t[e+1:e+4]]==['.','chain','(']:
            c=match_close(t,e+3)
            if [x[0] for x in t[c+1:c+5]]==['.','collect','(',')']:
                body=body[:m.start()]+'vx_cons('+body[t[k][2]:t[e][1]].rstrip().rstrip(',')+', '+body[t[e+3][2]:t[c][1]]+'.collect())'+body[t[c+4][2]:]
                log.add('once(x).chain(it).collect() -> vx_cons(x, it.collect())')
    # repeat(x).take(n).chain(v).collect()
    m=re.search(r'(?:std\s*::\s*)?iter\s*::\s*repeat\s*\(',body)
    if m:
        t=toks(body); k=[i for i in range(len(t)) if t[i][2]==m.end()][0]; e=match_close(t,k)
        if [x[0] for x in t[e+1:e+4]]==['.','take','(']:
            c=match_close(t,e+3)
            if [x[0] for x in t[c+1:c+4]]==['.','chain','(']:
                d=match_close(t,c+3)
                if [x[0] for x in t[d+1:d+5]]==['.','collect','(',')']:
                    body=body[:m.start()]+'vx_repeat_chain('+body[t[k][2]:t[e][1]]+', '+body[t[e+3][2]:t[c][1]]+', '+body[t[c+3][2]:t[d][1]]+')'+body[t[d+4][2]:]
                    log.add('repeat(x).take(n).chain(v).collect() -> contracted vx_repeat_chain(x, n, v)')
    # a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count()
    h=find_call(body,'zip')
    if h:
        t,i,a,e=h
        m=re.match(r'\s*\.\s*take_while\(\s*\|\s*\(\s*(\w+)\s*,\s*(\w+)\s*\)\s*\|\s*(\w+)\s*==\s*(\w+)\s*\)\s*\.\s*count\(\)',body[t[e][2]:])
        s=recv_start(t,i); rv=body[t[s][1]:t[i][1]]; ar=body[t[a][2]:t[e][1]]
        r1=re.match(r'^(.*?)\s*\.\s*iter\(\)\s*$',rv,re.S); r2=re.match(r'^(?:&\s*)?(.*?)(?:\s*\.\s*iter\(\))?\s*$',ar,re.S)
        if m and r1 and r2 and {m.group(1),m.group(2)}=={m.group(3),m.group(4)}:
            x,y=r1.group(1).strip(),r2.group(1).strip()
            sl=lambda z: '&'+z if z.endswith(']') else z+'.as_slice()'
            body=body[:t[s][1]]+'vx_common_prefix('+sl(x)+', '+sl(y)+')'+body[t[e][2]+m.end():]
            log.add('a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count() -> contracted vx_common_prefix(a, b)')
    return body

def upto_loop(body,log):
    """the statements up to the first loop at the top level, then Ok(the builder)"""
    t=toks(body); i=0; m=re.search(r'\blet\s+mut\s+(\w+)(?:\s*:[^=;]*)?\s*=\s*(?:Self|Builder)\s*::\s*default\(\)',body)
    while i<len(t):
        if t[i][0] in('loop','while','for'):
            while t[i][0]!='{':
                if t[i][0] in('(','['): i=match_close(t,i)
                i+=1
            e=match_close(t,i)
            if not m or m.end()>t[i][1]: break
            log.add('Builder::build -> its statements up to the end of the first loop, then Ok(builder)')
            return body[:t[e][2]]+'\n        Ok('+m.group(1)+')\n'
        i=match_close(t,i)+1 if t[i][0] in OPEN else i+1
    raise Lost('build: no loop over a builder')

def rw_queues(body,log):
    b=re.sub(r'\b([\w.]+?)\s*\.\s*into_iter\(\)\s*\.\s*enumerate\(\)',r'vx_enumerate(\1).into_iter()',re.sub(r'\s+\.\s*(?=into_iter\(\)|enumerate\(\)|elements\b)','.',body))
    if b!=body and 'vx_enumerate' in b: log.add('v.into_iter().enumerate() -> contracted vx_enumerate(v).into_iter()'); body=b
    # |(a, b)| e
    while True:
        m=re.search(r'\|\s*\((\s*\w+\s*,\s*\w+\s*)\)\s*\|',body)
        if not m: break
        t=toks(body); k=[i for i in range(len(t)) if t[i][1]>=m.end()][0]
        e=k
        while e<len(t) and t[e][0] not in(')',',',';','}'):
            if t[e][0] in OPEN: e=match_close(t,e)
            e+=1
        body=body[:m.start()]+'|vx_q| { let ('+m.group(1).strip()+') = vx_q; '+body[t[k][1]:t[e-1][2]]+' }'+body[t[e-1][2]:]
        log.add('|(a, b)| e -> a closure that takes the pair apart')
    m=re.search(r'let\s+(?:mut\s+)?\w+\s*:\s*VecDeque\s*<[^=;]*>\s*=\s*',body)
    if m:
        t=toks(body); k=[i for i in range(len(t)) if t[i][1]>=m.end()][0]; e=k
        while t[e][0]!=';':
            if t[e][0] in OPEN: e=match_close(t,e)
            e+=1
        x=body[t[k][1]:t[e][1]]
        if re.search(r'\.\s*collect\(\)\s*$',x):
            body=body[:t[k][1]]+'vx_deque('+x+')'+body[t[e][1]:]; log.add('.collect() into a VecDeque -> contracted vx_deque of the collected Vec')
    return body

def rw_while_let(body,log):
    """while let P = E { B }  ->  loop { match E { P => { B } _ => { break; } } }"""
    while True:
        t=toks(body); hit=None
        for i in range(len(t)-2):
            if t[i][0]=='while' and t[i+1][0]=='let': hit=i; break
        if hit is None: return body
        i=hit; j=i+2
        while t[j][0]!='=':
            if t[j][0] in OPEN: j=match_close(t,j)
            j+=1
        k=j+1
        while t[k][0]!='{':
            if t[k][0] in('(','['): k=match_close(t,k)
            k+=1
        e=match_close(t,k)
        body=body[:t[i][1]]+'loop { match '+body[t[j][2]:t[k][1]].strip()+' { '+body[t[i+1][2]:t[j][1]].strip()+' => '+body[t[k][1]:t[e][2]]+' _ => { break; } } }'+body[t[e][2]:]
        log.add('while let P = e { .. } -> loop { match e { P => { .. } _ => { break; } } }')

def drop_messages(body,log):
    """let x = e; where x went only into an error message"""
    pos=0
    while True:
        m=re.compile(r'\blet\s+(\w+)\s*=\s*').search(body,pos)
        if not m: return body
        pos=m.end(); t=toks(body); k=[i for i in range(len(t)) if t[i][1]>=m.end()][0]; e=k
        while e<len(t) and t[e][0]!=';':
            if t[e][0] in OPEN: e=match_close(t,e)
            e+=1
        x=body[t[k][1]:t[e][1]]; rest=body[t[e][2]:]
        if re.match(r'\s*return\s+Err\(vx_anyhow\(\)\)\s*;',rest) and not re.search(r'\?|\breturn\b|&\s*mut\b|\bself\b|[^=<>!]=[^=>]',x):
            body=body[:m.start()]+body[t[e][2]:]; pos=0; log.add('a let whose value only went into an error message is dropped')

class CGen(gen.Gen):
    def __init__(self,repo,**k):
        gen.Gen.__init__(self,repo,**k); self.src=Source(repo)
    def prepare(self):
        self.hs=refactor.helpers(self.src,FILES,self.covered); self.cs=refactor.consts(self.src,FILES,self.ccov)
    def do_fn(self,args,block):
        try: gen.Gen.do_fn(self,args,block)
        except Lost:
            if 'upto_loop' not in args: raise
            self.lost.append(args[0].replace('.rs','')+'::'+args[1].replace('~',' ')+'::'+args[2])
    def pick(self,it,flags):
        if 'upto_loop' in flags: it=copy.copy(it); it.body=upto_loop(it.body,self.log)
        return it
    def rewrite(self,body,flags):
        log=self.log
        if 'upto_loop' in flags: body=rw_while_let(drop_messages(rw_queues(rw_macros(body,log),log),log),log)
        body=rw_macros(body,log); body=rw_options(body,log); body=rw_builders(body,log); body=rw_iters(body,log)
        b=re.sub(r'&\s*((?:\w+\s*::\s*)+\w+\s*\(\s*)ref\s+(\w+\s*\))',r'\1\2',body)
        if b!=body: log.add('pattern &P(ref x) -> P(x)'); body=b
        b=re.sub(r'\.map\(\s*Into::into\s*\)','.map(|vx_x| Into::into(vx_x))',body)
        if b!=body: log.add('.map(Into::into) -> the same call in a closure'); body=b
        b=re.sub(r'(?<![\w.])0\.0(?!\w|\.)','vx_f64(0)',body)
        if b!=body: log.add('0.0 -> call with its bits'); body=b
        b=re.sub(r'\bself\.parts\[([^\[\]]*\.\.[^\[\]]*)\](?=\s*\.)',r'self.parts.as_slice()[\1]',body)
        if b!=body: log.add('vec[range] -> vec.as_slice()[range]'); body=b
        b=re.sub(r'&self\.parts\.as_slice\(\)\[',r'&self.parts.as_slice()[',body); body=b
        body=re.sub(r'(self\.parts\.as_slice\(\)\[[^\[\]]*\])\s*\.to_vec\(\)',r'vx_to_vec(&\1)',body)
        body=re.sub(r'\.extend\(\s*(\w+\.parts)\s*\)',r'.vx_extend(\1)',body)
        return gen.rw(body,log,flags)
    def params(self,sig):
        # f(_: T) gets a name, f(&P(a, ref b): &T) becomes f(vx_a: &T) { let P(a, b) = vx_a; ..
        s=re.sub(r'([(,]\s*)_(\s*:)',r'\1vx_unused\2',sig)
        if s!=sig: self.log.add('unnamed parameters get a name')
        m=re.search(r'([(,]\s*)&\s*(\w+)\s*\(([^()]*)\)\s*:\s*(&\s*[\w<>\']+)',s)
        if not m: return s,''
        self.log.add('&P(a, ref b): &T in a parameter list -> let after the parameter')
        pre=''
        for k,x in enumerate(gen.split_args(m.group(3))):
            x=x.strip()
            if x!='_': pre+=' let %s = %svx_arg.%d;'%(x.replace('ref ','').strip(),'&' if x.startswith('ref ') else '',k)
        return s[:m.start()]+m.group(1)+'vx_arg: '+m.group(4)+s[m.end():],pre
    def text(self):
        t='\n'.join(self.out)+'\n'
        return re.sub(r'(?m)^((?:pub )?(?:exec )?(?:proof )?fn )',r'#[verifier::spinoff_prover] \1',t)

def build(repo,**kw):
    """repo: .../butte-build/src"""
    b=os.path.join(HERE,'baseline.json')
    g=CGen(repo,baseline=json.load(open(b)) if os.path.exists(b) else {},**kw)
    f=os.path.join(HERE,'cx.vx')
    g.scan(f); g.prepare(); g.run(f)
    if g.vacuity: g.emit('verus! {\n#[verifier::external_body] pub fn vx_unreached<T>() -> (r: T) requires false { unimplemented!() }\n}')
    return g
if __name__=='__main__':
    g=build(os.environ.get('BUTTE_REPO','/repo')+'/butte-build/src')
    if '--baseline' in sys.argv:
        g.texts.update({k+' loops':v for k,v in g.loopsig.items()})
        json.dump(g.texts,open(os.path.join(HERE,'baseline.json'),'w'),indent=0,sort_keys=True)
    open(sys.argv[1],'w').write(g.text())
    print('functions',len(g.fns),'hints lost',g.hints_lost,'lost',g.lost)
