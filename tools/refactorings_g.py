"""Behaviour-preserving edits of butte-build/src, used to see that the G checks stay quiet.
usage: refactorings_g.py [name ...]   (each on a scratch copy under /tmp/rfg)"""
import os, re, shutil, subprocess, sys
R={}
def r(name,props,*subs): R[name]=(props.split(),subs)
C='butte-build/src/codegen.rs'; T='butte-build/src/ir/transform.rs'; Y='butte-build/src/ir/types.rs'; K='butte-build/src/ir/keywords.rs'; P='butte-build/src/ast/parser.rs'
r('req-accessor-match','G01',(C,'''                        self.table
                            .get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)?
                            .ok_or(butte::Error::RequiredFieldMissing(#snake_name_str))''','''                        match self.table.get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)? {
                            Some(value) => Ok(value),
                            None => Err(butte::Error::RequiredFieldMissing(#snake_name_str)),
                        }'''))
r('accessor-let','G01',(C,'''                        self.table
                            .get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)
                    }''','''                        let slot = #struct_id::#offset_name;
                        let default_value = #default_value;
                        self.table.get::<#ty_wrapped>(slot, default_value)
                    }'''))
r('accessor-question','G01',(C,'''                        self.table
                            .get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)
                    }''','''                        let value = self.table
                            .get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)?;
                        Ok(value)
                    }'''))
r('create-match','G01',(C,'''                        if let Some(x) = args.#field_id { builder.#add_field_method(x); }''','''                        match args.#field_id {
                            Some(x) => builder.#add_field_method(x),
                            None => {}
                        }'''))
r('create-varname','G01',(C,'''                        if let Some(x) = args.#field_id { builder.#add_field_method(x); }''','''                        if let Some(offset) = args.#field_id {
                            builder.#add_field_method(offset);
                        }'''))
r('create-rename-builder','G01',(C,'''                    let mut builder = #builder_type::new(fbb);
                    #(#builder_add_calls)*
                    builder.finish()''','''                    let mut table_builder = #builder_type::new(fbb);
                    #(#builder_add_calls)*
                    table_builder.finish()'''),(C,'quote!(builder.#add_field_method(args.#field_id);)','quote!(table_builder.#add_field_method(args.#field_id);)'),(C,'''{ builder.#add_field_method(x); }''','''{ table_builder.#add_field_method(x); }'''))
r('create-reverse','G01 G03',(C,'''        let builder_add_calls = fields.iter().map(''','''        let builder_add_calls = fields.iter().rev().map('''))
r('create-by-size','G01',(C,'''        let builder_add_calls = fields.iter().map(''','''        // references first, then the scalars
        let (inline, refs): (Vec<_>, Vec<_>) = fields.iter().partition(|f| f.ty.is_scalar());
        let builder_add_calls = refs.into_iter().chain(inline).map('''))
r('finish-let','G01',(C,'''                    let o = self.fbb.end_table(self.start);
                    #(#required_fields)*
                    butte::WIPOffset::new(o.value())''','''                    let start = self.start;
                    let o = self.fbb.end_table(start);
                    #(#required_fields)*
                    let finished = o.value();
                    butte::WIPOffset::new(finished)'''))
r('new-self','G01',(C,'''                    let start = fbb.start_table();
                    #builder_type {
                        fbb, start
                    }''','''                    Self {
                        start: fbb.start_table(),
                        fbb,
                    }'''))
r('add-let','G01',(C,'''                quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, #field_id))
            };

            quote! {''','''                quote! {
                    let slot = #field_offset;
                    self.fbb.push_slot_always::<#arg_ty>(slot, #field_id)
                }
            };

            quote! {'''))
r('add-pub','G01',(C,'''                fn #add_method_name(&mut self, #field_id: #arg_ty) {
                    #body;
                }''','''                pub fn #add_method_name(&mut self, #field_id: #arg_ty) {
                    #body
                }'''))
r('add-param','G01',(C,'''(#field_offset, #field_id, #default_value))
                } else {
                    quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, #field_id))
                }
            } else {
                quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, #field_id))''','''(#field_offset, value, #default_value))
                } else {
                    quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, value))
                }
            } else {
                quote!(self.fbb.push_slot_always::<#arg_ty>(#field_offset, value))'''),(C,'fn #add_method_name(&mut self, #field_id: #arg_ty)','fn #add_method_name(&mut self, value: #arg_ty)'))
r('get-root-map','G01',(C,'''                    let table = butte::Table::get_root(buf)?;
                    Ok(Self { table })''','''                    butte::Table::get_root(buf).map(|table| Self { table })'''))
r('get-root-from','G01',(C,'''                    let table = butte::Table::get_root(buf)?;
                    Ok(Self { table })''','''                    let table = butte::Table::get_root(buf)?;
                    Ok(Self::from(table))'''))
r('follow-inline','G01',(C,'''                    let table = butte::Table::new(buf, loc);
                    Ok(Self { table })''','''                    Ok(Self { table: butte::Table::new(buf, loc) })'''))
r('try-from-ok','G02 G05',(C,'''                        #scalar_value => Ok(<#enum_id>::#variant_name)''','''                        #scalar_value => <#enum_id>::#variant_name'''),(C,'''                    match value {
                        #(#from_base_to_enum_variants,)*
                        _ => Err(butte::Error::UnknownEnumVariant)
                    }''','''                    Ok(match value {
                        #(#from_base_to_enum_variants,)*
                        _ => return Err(butte::Error::UnknownEnumVariant),
                    })'''))
r('from-cast','G02',(C,'''                    match value {
                        #(#from_enum_variant_to_base),*
                    }''','''                    value as #base_type'''),(C,'''        let from_enum_variant_to_base =
            variants_and_scalars
                .clone()
                .map(|(variant_name, scalar_value, _)| {
                    quote! {
                        <#enum_id>::#variant_name => #scalar_value
                    }
                });
''',''))
r('push-into','G02',(C,'''                    let scalar = <#base_type>::from(*self);
                    butte::emplace_scalar::<#base_type>(dst, scalar);''','''                    let scalar: #base_type = (*self).into();
                    butte::emplace_scalar(dst, scalar);'''))
r('follow-and-then','G02',(C,'''                    let scalar = butte::read_scalar_at::<#base_type>(buf, loc)?;
                    <Self as std::convert::TryFrom<#base_type>>::try_from(scalar)''','''                    use std::convert::TryFrom;
                    butte::read_scalar_at::<#base_type>(buf, loc).and_then(Self::try_from)'''))
r('enum-reorder-impls','G02',(C,'''            pub fn #enum_id_fn_name(e: #enum_id) -> &'static str {
                match e {
                    #(#names_to_strings),*
                }
            }
''','''            /// The name of a variant
            pub fn #enum_id_fn_name(variant: #enum_id) -> &'static str {
                match variant {
                    #(#names_to_strings,)*
                }
            }
'''))
r('enum-values-loop','G02',(C,'''        let variants_and_scalars = variants.iter().scan(
            0,
            |next_value: &mut ast::IntegerConstant,
             ir::EnumVariant {
                 ident: key,
                 value,
                 doc,
             }| {
                // format the value with the correct type, i.e., base_type
                let scalar_value = value.unwrap_or(*next_value);
                *next_value = scalar_value + 1;
                let formatted_value = scalar_value.fmt_lit(base_type.to_token_stream());
                Some((quote!(#key), quote!(#formatted_value), doc))
            },
        );''','''        let mut next_value: ast::IntegerConstant = 0;
        let mut numbered = Vec::new();
        for ir::EnumVariant { ident: key, value, doc } in variants {
            let scalar_value = match value {
                Some(v) => *v,
                None => next_value,
            };
            next_value = scalar_value + 1;
            let formatted_value = scalar_value.fmt_lit(base_type.to_token_stream());
            numbered.push((quote!(#key), quote!(#formatted_value), doc));
        }
        let variants_and_scalars = numbered.into_iter();'''))
r('union-ifs','G01',(C,'''                              None | Some(#enum_ident::None) => None
                            })''','''                              Some(#enum_ident::None) => None,
                              None => None,
                            })'''))
r('union-type-let','G01',(C,'''                            Ok(match self.#type_snake_name()? {
                              #(#names_to_enum_variant,)*
                              None | Some''','''                            let tag = self.#type_snake_name()?;
                            Ok(match tag {
                              #(#names_to_enum_variant,)*
                              None | Some'''))
r('union-map-closure','G01',(C,'''                                    .map(#union_ident::#variant_ident)''','''                                    .map(|value| #union_ident::#variant_ident(value))'''))
r('default-impl-spread','G01',(C,'''                    fn default() -> Self {
                        Self {
                            #(#args_fields_defaults),*
                        }
                    }''','''                    fn default() -> Self {
                        #args {
                            #(#args_fields_defaults,)*
                        }
                    }'''))
r('inline-always','G01',(C,'''                    #doc
                    #[inline]
                    #allow_type_complexity
                    pub fn #snake_name(&self) -> Result<Option<#ty_ret>, butte::Error> {''','''                    #doc
                    #[inline(always)]
                    #[must_use]
                    #allow_type_complexity
                    pub fn #snake_name(&self) -> Result<Option<#ty_ret>, butte::Error> {'''))
r('fully-qualified','G01',(C,'''                    pub fn #snake_name(&self) -> Result<Option<#ty_ret>, butte::Error> {
                        self.table''','''                    pub fn #snake_name(&self) -> ::std::result::Result<::std::option::Option<#ty_ret>, butte::Error> {
                        self.table'''))
r('relative-loop','G04',(Y,'''            let common_prefix_len = self.parts[..self.parts.len() - 1]
                .iter()
                .zip(ns.parts.iter())
                .take_while(|(a, b)| a == b)
                .count();
''','''            let limit = std::cmp::min(self.parts.len() - 1, ns.parts.len());
            let mut common_prefix_len = 0;
            while common_prefix_len < limit
                && self.parts[common_prefix_len] == ns.parts[common_prefix_len]
            {
                common_prefix_len += 1;
            }
'''))
r('keywords-generic','G06',(K,'''        "as" => "as_",
        "async" => "async_",''','''        "async" => "async_",
        "as" => "as_",'''))
r('crate-paths','G04',(Y,'''            let parts = std::iter::repeat(Ident::keyword("super"))
                .take(ns.len() - common_prefix_len)
                .chain(self.parts[common_prefix_len..].to_vec())
                .collect();''','''            let mut parts = vec![Ident::keyword("super"); ns.len() - common_prefix_len];
            parts.extend_from_slice(&self.parts[common_prefix_len..]);'''))
r('int-literal','G05',(P,'''    map_res(
        recognize(preceded(opt(plus_or_minus), digit1)),
        IntegerConstant::from_str,
    )(input)''','''    let (rest, text) = recognize(preceded(opt(plus_or_minus), digit1))(input)?;
    match text.parse::<IntegerConstant>() {
        Ok(value) => Ok((rest, value)),
        Err(_) => map_res(digit1, IntegerConstant::from_str)(input),
    }'''))
r('underscore-default','G05 G02',(C,'''        syn::LitInt::new(&format!("{}{}", self, int_ty), ty.span()).to_token_stream()''','''        syn::LitInt::new(&format!("{}_{}", self, int_ty), ty.span()).to_token_stream()'''))
r('float-exp','G05',(C,'''            "f32" => ((*self as f32).to_string(), (*self as f32).is_finite()),
            _ => (self.to_string(), self.is_finite()),''','''            "f32" => (format!("{:e}", *self as f32), (*self as f32).is_finite()),
            _ => (format!("{:e}", self), self.is_finite()),'''))
r('table-fields-iter','G01 G04',(T,'''                let required = match &f.metadata {
                    Some(m) => matches!(m.values.get(&ast::Ident::from("required")), Some(None)),
                    None => false,
                };''','''                let required = f.metadata.as_ref().map_or(false, |m| {
                    matches!(m.values.get(&ast::Ident::from("required")), Some(None))
                });'''))
r('offset-helper','G01',(C,'''            let offset_value = butte::field_index_to_field_offset(index as VOffsetT);
            quote! {
                pub const #offset_name: butte::VOffsetT = #offset_value;
            }''','''            let offset_value = 4 + 2 * index as VOffsetT;
            quote! {
                /// where the field stands in the vtable
                pub const #offset_name: butte::VOffsetT = #offset_value;
            }'''))
r('offset-self','G01',(C,'''                        self.table
                            .get::<#ty_wrapped>(#struct_id::#offset_name, #default_value)
                    }''','''                        self.table
                            .get::<#ty_wrapped>(#struct_id::<&[u8]>::#offset_name, #default_value)
                    }'''))
def make(name,base='/tmp/rfg'):
    d=os.path.join(base,name); shutil.rmtree(d,ignore_errors=True); os.makedirs(base,exist_ok=True)
    shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('target','.git'))
    for f,a,b in R[name][1]:
        p=os.path.join(d,f); t=open(p).read()
        assert t.count(a)>=1,(name,f,'text not found: '+a[:80])
        open(p,'w').write(t.replace(a,b))
    return d
if __name__=='__main__':
    for n in sys.argv[1:] or R:
        d=make(n)
        q=subprocess.run('cargo test -q --workspace 2>&1 | grep -E "^test result|FAILED|error|panicked" | sort | uniq -c',shell=True,cwd=d,env=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_TARGET_DIR='/tmp/rfgt'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        print('==',n,'tests', 'ok' if 'FAILED' not in q.stdout and 'error' not in q.stdout else q.stdout[-600:],flush=True)
        for p in R[n][0]:
            q=subprocess.run(['python3','/verif/check.py',p,'quick'],env=dict(os.environ,BUTTE_REPO=d,BUTTE_EVIDENCE=d+'/ev'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            ls=q.stdout.strip().split('\n'); und=[l for l in ls if l.startswith('UNDECIDED') and 'more than 100' not in l]
            print('  ',p,'exit',q.returncode,ls[-1][:150],'|',(und or [''])[0][:200],flush=True)
            if q.returncode: print('\n'.join(l[:300] for l in ls[:14]),flush=True)
        shutil.rmtree(d)
