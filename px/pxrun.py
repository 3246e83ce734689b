"""Which parser functions carry which property, and the run of their obligations."""
import os, re, sys, tempfile, time
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
for d in('lib','vx','px'): sys.path.insert(0,os.path.join(VERIF,d))
import vrun, pxgen
TOKENS='plus_or_minus double_quote backslash left_paren right_paren left_brace right_brace colon comma semicolon equals period zero left_square_bracket right_square_bracket'.split()
ALL='ident comment comment_or_space comment_or_space0 comment_or_space1 schema_decl element'.split()+TOKENS
INT='integer_constant dec_integer_constant hex_integer_constant'.split()
META='metadata raw_metadata single string_constant'.split()
DOC='raw_doc_comment doc_comment_lines doc_comment'.split()
TABLE='table_decl product_type_body field_decl'.split()
ROOTS={
 'G01':TABLE+META+['default_value','type_'],
 'G02':['enum_decl','union_decl','enum_body','enumval_decl']+INT,
 'G03':['type_','enum_decl','field_decl'],
 'G04':['qualified_ident','namespace_decl','root_decl','type_','struct_decl','attribute_decl','file_extension_decl']+TABLE+['enum_decl','union_decl'],
 'G05':['scalar','default_value','single','field_decl','enumval_decl','true_','false_','boolean_constant','float_constant','special_float_constant','nan','inf_or_infinity','dec_float_exponent','hex_float_exponent','dec_float_constant','hex_float_constant']+INT,
 'G06':['qualified_ident'],
 'G08':['rpc_decl','rpc_method','qualified_ident']+META+DOC,
}
def roots(prop): return [x for x in ALL+ROOTS.get(prop,[])]
class R: pass
def run(tmp,repo,threads=2):
    r=R(); r.failed={}; r.undecided={}; r.verified=0; r.smt_ms=0; r.rounds=0; r.cmd=''; r.g=None; r.status='none'; t0=time.time(); r.lemmas=[]
    src=os.path.join(repo,'butte-build/src'); skip={}; extra=[]; hist=[]; level=0; only=None; first=None; first_v=0
    while r.rounds<8:
        r.rounds+=1
        try: g=pxgen.build(src,skip=frozenset(skip),full=only if level==2 else frozenset(),near=only if level==1 else frozenset(),only=only)
        except BaseException as e:
            if isinstance(e,KeyboardInterrupt): raise
            r.undecided={'(the parser)':'extraction: %s: %s'%(type(e).__name__,e)}; r.wall=time.time()-t0; return r
        r.g=g; p=os.path.join(tmp,'px.rs'); open(p,'w').write(g.text)
        out,errs,r.cmd,raw=vrun.verus(p,threads=threads,extra=extra,timeout=(300,120,100)[level])
        def owner(d):
            for s in sorted(d['spans'],key=lambda s: not s['is_primary']):
                for n,(a,b) in g.obl.items():
                    if a<=s['line_start']<=b: return n
        mine={}; comp=set(); stray=None
        for d in errs:
            if d['message'].startswith('aborting'): continue
            n=owner(d); lim=bool(vrun.LIMIT.search(d['message'])); ok=lim or vrun.FAIL.match(d['message']) and not d.get('code')
            if ok and n: mine.setdefault(n,[]).append(dict(message=d['message'],clause='on every text, what parser::%s does is its rule of px/grammar.peg'%n,limit=lim,rendered=d.get('rendered','')[:2500]))
            elif n: comp.add((n,vrun.m_short(d)))
            else: stray=stray or (d['message'],ok)
        if comp:
            for n,w in comp: skip[n]='not in the verified subset: '+w
            continue
        if out is None and level==2: break
        if out is None or stray and not stray[1]:
            r.undecided={'(the parser)':'translation: '+str(stray[0] if stray else raw[-200:])}; r.wall=time.time()-t0; return r
        if stray: r.undecided['(lemmas of the grammar)']=stray[0]
        r.status='ok'; vr=(out or {}).get('verification-results',{}); r.verified=vr.get('verified',0); r.smt_ms+=(out or {}).get('times-ms',{}).get('smt',{}).get('total',0)
        if level==0: first=g; first_v=r.verified
        hist.append(mine)
        if not mine or level==2: break
        # again, only what failed: first with the rules unfolded that one side names and the other does not, then with every rule
        level+=1; only=frozenset(mine); extra=['--rlimit','20','--smt-option','smt.random_seed=7']
    if first is not None: r.g=first; r.verified=first_v
    for n in (hist[0] if hist else {}):
        if level and len(hist)>1 and n not in hist[1] or level==2 and len(hist)>2 and n not in hist[2]: continue
        sure=[x for m in hist[1:] for x in m.get(n,[]) if not x['limit']]
        if sure: r.failed[n]=sure[-1:]
        else: r.undecided[n]='resource limit'
    if r.g: r.undecided.update(r.g.lost); r.lemmas=re.findall(r'proof fn (prop_\w+)',r.g.text)
    r.undecided.update(skip); r.wall=time.time()-t0
    if r.failed: r.status='failed'
    return r
def vacuity(tmp,repo,threads=1):
    """each obligation also asked to prove false: each must fail"""
    g=pxgen.build(os.path.join(repo,'butte-build/src'),vacuity=True); p=os.path.join(tmp,'pxvac.rs'); open(p,'w').write(g.text)
    out,errs,cmd,raw=vrun.verus(p,threads=threads,extra=['--rlimit','3']); hit=set()
    for d in errs:
        for s in d['spans']:
            for n,(a,b) in g.obl.items():
                if a<=s['line_start']<=b: hit.add(n)
    return dict(functions=len(g.obl),refuted=len(hit),vacuous=sorted(set(g.obl)-hit))
if __name__=='__main__':
    repo=sys.argv[1] if len(sys.argv)>1 else '/repo'
    with tempfile.TemporaryDirectory() as t:
        r=run(t,repo,4); print(r.status,'verified',r.verified,'rounds',r.rounds,'wall %.1f'%r.wall,'undecided',r.undecided)
        for k,v in r.failed.items(): print('FAILED',k,[x['message'] for x in v])
        names=set(x for p in ROOTS for x in roots(p)); print('unassigned',[x for x in r.g.rules if x not in names] if r.g else '')
        if '-v' in sys.argv: print(vacuity(t,repo))
