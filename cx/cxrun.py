"""Which of the compiler's functions carry which property, and the run of their obligations."""
import os, re, sys
HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
for d in('lib','vx','cx'): sys.path.insert(0,os.path.join(VERIF,d))
import vrun, cxgen
T='ir/types::'; X='ir/transform::Builder::'; A='ast/types::'
DEF=[A+r'(From|TryFrom)<.*> for DefaultValue::.*']
NAME=[T+r'QualifiedIdent::(len|namespace|relative|simple)',T+r'From<.*> for QualifiedIdent::from',T+r'Node::.*',X+r'(current_namespace|new_namespace|make_fully_.*|find_custom_type|try_type)']
ROOTS={
 'G01':[X+r'(new_table|find_custom_type|try_type)',T+r'Type::(is_.*|make_union_.*)',T+r'CustomType::.*']+DEF,
 'G02':[X+r'(new_enum|new_union|generate_enum_for_union)',T+r'TryFrom<.*> for EnumBaseType::.*'],
 'G03':[X+r'(try_type|new_enum)',T+r'(Custom)?Type::.*',T+r'TryFrom<.*> for EnumBaseType::.*'],
 'G04':NAME+[X+r'(build|new_element|new_table|new_union|new_enum|new_struct|new_root.*|new_rpc)'],
 'G05':DEF+[X+r'(new_enum|generate_enum_for_union)'],
 'G06':[r'ir/keywords::.*',T+r'Ident::.*',T+r'From<.*> for (Ident|QualifiedIdent)::.*',r'codegen::to_snake_ident'],
 'G08':[X+r'(build|new_rpc|new_root_ident|new_element|make_fully_.*)'],
}
def roots(prop,us):
    rx=[re.compile(x+'$') for x in ROOTS.get(prop,())]
    return [u for u in us if u.fkey and any(x.match(u.fkey) for x in rx) or not u.fkey and (u.name.startswith('prop_'+prop.lower()+'_'))]
def run(tmp,repo,threads=4):
    src=os.path.join(repo,'butte-build/src')
    return vrun.run(tmp,src,threads,build=lambda **k: cxgen.build(src,**k),fname='cx.rs',keep_loops=True)
def vacuity(tmp,repo,threads=2):
    """each function's body starts with something that needs `false`: each must fail, or its precondition is contradictory"""
    g=cxgen.build(os.path.join(repo,'butte-build/src'),vacuity=True)
    text=re.sub(r'(?m)^(#\[verifier::spinoff_prover\] )((?:pub )?(?:broadcast )?proof fn)',r'#[verifier::external_body] \2',g.text())
    p=os.path.join(tmp,'cxvac.rs'); open(p,'w').write(text)
    out,errs,cmd,raw=vrun.verus(p,threads=threads)
    us,_=vrun.units(text,g.fns); hit=set()
    for d in errs:
        for s in d['spans']:
            for u in us:
                if u.start<=s['line_start']<=u.end: hit.add(u.name)
    todo=[u for u in us if u.fkey and not u.external and not u.nobody]
    return dict(functions=len(todo),refuted=len([u for u in todo if u.name in hit]),vacuous=[u.name for u in todo if u.name not in hit])
if __name__=='__main__':
    import tempfile
    repo=sys.argv[1] if len(sys.argv)>1 else '/repo'
    with tempfile.TemporaryDirectory() as t:
        r=run(t,repo,8)
        print(r.status,r.why,'verified',r.verified,'rounds',r.rounds,'wall %.1f'%r.wall,'undecided',r.undecided)
        if r.g: print('changed',r.g.changed,'hints lost',r.hints_lost)
        for k,v in r.failed.items(): print('FAILED',k,[(x['message'],x['clause'][:200]) for x in v])
        for p in ROOTS: print(p,len(roots(p,r.units)))
        cov=set(u.name for p in ROOTS for u in roots(p,r.units)); print('unassigned',[u.name for u in r.units if u.fkey and u.name not in cov])
        if '-v' in sys.argv: print(vacuity(t,repo))
