"""writes kw.vx: the keywords of Rust 2018 and their replacements (the specification, independent of the code)"""
KW="as async await break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while abstract become box do final macro override priv try typeof unsized virtual yield".split()
S=lambda k:'ty' if k=='type' else k+'_'
o=['pub open spec fn kw_of(s: Seq<char>) -> Option<Seq<char>> {']
for k in KW: o.append('    if s == "%s"@ { Some("%s"@) } else'%(k,S(k)))
o+=['    { None }','}','#[verifier::external_body] pub broadcast axiom fn str_ext(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;'.replace('#[verifier::external_body] pub broadcast axiom','pub axiom').replace('#[trigger] ','')]
o+=['pub proof fn kw_literals(s: &str)','    ensures'] 
o+=['        %s,'%' && '.join('(s == "%s") == (s@ == "%s"@)'%(k,k) for k in KW[i:i+4]) for i in range(0,len(KW),4)]
o+=['{']+['    str_ext(s, "%s");'%k for k in KW]+['}']
L=sorted(set(KW)|set(map(S,KW)))
def lit(k): return '"%s"@.len() == %d && '%(k,len(k))+' && '.join('"%s"@[%d] == \'%s\''%(k,i,c) for i,c in enumerate(k))
o+=['pub open spec fn lits() -> bool {']+['    &&& '+lit(k) for k in L]+['}']
o+=['pub proof fn kw_lits() ensures lits() {']+['    reveal_strlit("%s"); assert(%s);'%(k,lit(k)) for k in L]+['}']
o+=['// a replacement is never a keyword, and different keywords have different replacements',
'#[verifier::rlimit(60)]',
'pub proof fn prop_g06_replacements(a: Seq<char>, b: Seq<char>)',
'    requires kw_of(a) is Some,',
'    ensures kw_of(kw_of(a)->0) is None, kw_of(b) is Some && a != b ==> kw_of(a)->0 != kw_of(b)->0, fix(a) == kw_of(a)->0,',
'{','    kw_lits();']+['    assert("%s"@ =~= "%s"@.push(\'_\'));'%(S(k),k) for k in KW if k!='type']+['    assert(kw_of(a)->0 == a.push(\'_\') || a == "type"@);','    assert(kw_of(b) is Some ==> kw_of(b)->0 == b.push(\'_\') || b == "type"@);',
'    if kw_of(b) is Some && a != b && a != "type"@ && b != "type"@ { assert(a.push(\'_\').drop_last() =~= a); assert(b.push(\'_\').drop_last() =~= b); }','}']
open('kw.vx','w').write('\n'.join(o)+'\n')
