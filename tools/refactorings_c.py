"""Behaviour-preserving edits of the compiler's own functions (cx/), used to see that their obligations stay quiet.
usage: refactorings_c.py [name ...]   (each on a scratch copy of butte-build/src under /tmp/rfc)"""
import os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','cx'))
R={}
def r(name,*subs): R[name]=subs
T='ir/transform.rs'; Y='ir/types.rs'; K='ir/keywords.rs'; A='ast/types.rs'

B='''            while let Some((namespace, element)) = input.pop_front() {
                // an element that is retried belongs to the namespace it was declared in
                if let Some(namespace) = namespace {
                    context.current_namespace = namespace;
                }
                if !context.new_element(&element)? {
                    unsatisfied.push_back((Some(context.current_namespace.clone()), element));
                }
            }
'''
r('build-names',(T,B,B.replace('element)','el)').replace('&element','&el').replace('element)','el)')))
r('build-satisfied',(T,'if !context.new_element(&element)? {\n                    unsat','let satisfied = context.new_element(&element)?;\n                if !satisfied {\n                    unsat'))
r('build-continue',(T,'''                if !context.new_element(&element)? {
                    unsatisfied.push_back((Some(context.current_namespace.clone()), element));
                }
''','''                if context.new_element(&element)? {
                    continue;
                }
                unsatisfied.push_back((Some(context.current_namespace.clone()), element));
'''))
r('build-match-ns',(T,'''                if let Some(namespace) = namespace {
                    context.current_namespace = namespace;
                }
''','''                match namespace {
                    Some(namespace) => context.current_namespace = namespace,
                    None => {}
                }
'''))
r('build-no-else',(T,'''                break; // everything is satisfied
            } else {
                // Didn't we progress?
                if (context.nodes.len(), context.types.len()) == progress {
                    let unsatisfied_elements = unsatisfied
                        .into_iter()
                        .map(|(_, IndexedElement(_, element))| element)
                        .collect::<Vec<_>>();
                    return Err(anyhow!("Unable to type schema: the following definitions referenced items not found: {:?}", unsatisfied_elements));
                    // TODO proper reporting
                }
            }
''','''                break; // everything is satisfied
            }
            // Didn't we progress?
            if (context.nodes.len(), context.types.len()) == progress {
                let elements = unsatisfied
                    .into_iter()
                    .map(|(_, IndexedElement(_, element))| element)
                    .collect::<Vec<_>>();
                return Err(anyhow!("Unable to type schema: the following definitions referenced items not found: {:?}", elements));
            }
'''))
r('build-move',(T,'input = std::mem::take(&mut unsatisfied);','input = unsatisfied;'))
r('build-two-lets',(T,'let progress = (context.nodes.len(), context.types.len());','let nodes_before = context.nodes.len();\n            let types_before = context.types.len();'),(T,'if (context.nodes.len(), context.types.len()) == progress {','if context.nodes.len() == nodes_before && context.types.len() == types_before {'))
r('build-sum',(T,'let progress = (context.nodes.len(), context.types.len());','let progress = context.nodes.len() + context.types.len();'),(T,'if (context.nodes.len(), context.types.len()) == progress {','if context.nodes.len() + context.types.len() == progress {'))
r('build-return',(T,B,B.replace('while let Some((namespace, element)) = input.pop_front() {','while let Some((namespace, element)) = input.pop_front() {\n                let _ = &element;')))
r('build-while-nonempty',(T,B,B.replace('while let Some((namespace, element)) = input.pop_front() {','while !input.is_empty() {\n                let (namespace, element) = input.pop_front().unwrap();')))
r('build-for',(T,B,B.replace('while let Some((namespace, element)) = input.pop_front() {','for (namespace, element) in input.drain(..) {')))
r('build-retry-fn',(T,'                if let Some(namespace) = namespace {\n                    context.current_namespace = namespace;\n                }\n','                context.enter(namespace);\n'),(T,'''    pub fn build(schema''','''    fn enter(&mut self, namespace: Option<Option<ast::Namespace<'a>>>) {
        if let Some(namespace) = namespace {
            self.current_namespace = namespace;
        }
    }

    pub fn build(schema'''))
r('build-some-first',(T,'''.map(|(i, el)| (None, IndexedElement(i, el)))''','''.map(|(i, element)| (None, IndexedElement(i, element)))'''))
r('build-self',(T,'let mut context = Builder::default();','let mut context = Self::default();'))
r('build-loop-vec',(T,'''        let mut input: VecDeque<_> = schema
            .elements
            .into_iter()
            .enumerate()
            .map(|(i, el)| (None, IndexedElement(i, el)))
            .collect();
''','''        let mut input = VecDeque::new();
        for (i, el) in schema.elements.into_iter().enumerate() {
            input.push_back((None, IndexedElement(i, el)));
        }
'''))
r('build-tail',(T,'''        let nodes = context.nodes;
        let root_types = &context.root_types;
''','''        let Builder { nodes, root_types, .. } = context;
        let root_types = &root_types;
'''))
r('build-default-ns',(T,'''            while let Some((namespace, element)) = input.pop_front() {''','''            while let Some((declared, element)) = input.pop_front() {'''),(T,'''                if let Some(namespace) = namespace {
                    context.current_namespace = namespace;''','''                if let Some(declared_in) = declared {
                    context.current_namespace = declared_in;'''))
r('kw-permute',(K,'        "as" => "as_",\n        "async" => "async_",\n','        "async" => "async_",\n        "as" => "as_",\n'))
r('kw-if',(K,'pub fn substitute_keyword(input: &str) -> Option<&\'static str> {\n','pub fn substitute_keyword(input: &str) -> Option<&\'static str> {\n    if input == "as" {\n        return Some("as_");\n    }\n'))
r('kw-empty',(K,'pub fn substitute_keyword(input: &str) -> Option<&\'static str> {\n','pub fn substitute_keyword(input: &str) -> Option<&\'static str> {\n    if input.is_empty() {\n        return None;\n    }\n'))
r('kw-let',(K,'    Some(match input {','    let word = match input {'),(K,'        _ => return None,\n    })','        _ => return None,\n    };\n    Some(word)'))
r('kw-some',(K,'    Some(match input {','    let substitute = match input {'),(K,'        _ => return None,\n    })','        _ => "",\n    };\n    if substitute.is_empty() {\n        None\n    } else {\n        Some(substitute)\n    }'))
r('fix-match',(Y,'''        if let Some(substitute) = super::keywords::substitute_keyword(ident.as_ref()) {
            Cow::Borrowed(substitute)
        } else {
            ident
        }''','''        match super::keywords::substitute_keyword(ident.as_ref()) {
            Some(substitute) => Cow::Borrowed(substitute),
            None => ident,
        }'''))
r('fix-map-or',(Y,'''        if let Some(substitute) = super::keywords::substitute_keyword(ident.as_ref()) {
            Cow::Borrowed(substitute)
        } else {
            ident
        }''','''        super::keywords::substitute_keyword(ident.as_ref()).map_or(ident, Cow::Borrowed)'''))
r('from-ast-direct',(Y,'''    fn from(ident: ast::Ident<'a>) -> Self {
        Ident::from(Cow::Borrowed(ident.raw))''','''    fn from(ident: ast::Ident<'a>) -> Self {
        Ident::from(ident.raw)'''))
r('from-ast-deref',(Y,'''    fn from(ident: &ast::Ident<'a>) -> Self {
        Ident::from(Cow::Borrowed(ident.raw))''','''    fn from(ident: &ast::Ident<'a>) -> Self {
        Self::from(*ident)'''))
r('scalar-matches',(Y,'''            Type::Custom(CustomTypeRef { ty, .. }) => match ty {
                // Apparently only C++ impl supports union in structs
                // TODO check if unions containing only structs are considered scalar?
                CustomType::Table | CustomType::Union { .. } => false,
                CustomType::Struct { .. } | CustomType::Enum { .. } => true,
            },''','''            Type::Custom(custom) => custom.ty.is_scalar(),'''))
r('union-match',(Y,'''        matches!(
            self,
            Type::Custom(CustomTypeRef {
                ty: CustomType::Union { .. },
                ..
            })
        )''','''        self.make_union_enum_type_companion().is_some()'''))
r('namespace-match',(Y,'''        if self.parts.len() > 1 {
            Some(Self {
                parts: self.parts[..self.parts.len() - 1].to_vec(),
            })
        } else {
            None
        }''','''        match self.len() {
            0 | 1 => None,
            n => Some(Self {
                parts: self.parts[..n - 1].to_vec(),
            }),
        }'''))
r('namespace-split',(Y,'''        if self.parts.len() > 1 {
            Some(Self {
                parts: self.parts[..self.parts.len() - 1].to_vec(),
            })
        } else {
            None
        }''','''        if self.parts.len() < 2 {
            return None;
        }
        let mut parts = self.parts.clone();
        parts.pop();
        Some(Self { parts })'''))
r('relative-match',(Y,'''        if let Some(ns) = namespace {
            // the last''','''        let ns = match namespace {
            Some(ns) => ns,
            None => return self.clone(),
        };
        {
            // the last'''),(Y,'''            QualifiedIdent { parts }
        } else {
            self.clone()
        }''','''            QualifiedIdent { parts }
        }'''))
r('relative-names',(Y,'common_prefix_len','shared'))
r('relative-loop',(Y,'''            let common_prefix_len = self.parts[..self.parts.len() - 1]
                .iter()
                .zip(ns.parts.iter())
                .take_while(|(a, b)| a == b)
                .count();
''','''            let mut common_prefix_len = 0;
            while common_prefix_len < ns.len()
                && common_prefix_len + 1 < self.len()
                && self.parts[common_prefix_len] == ns.parts[common_prefix_len]
            {
                common_prefix_len += 1;
            }
'''))
r('relative-push',(Y,'''            let parts = std::iter::repeat(Ident::keyword("super"))
                .take(ns.len() - common_prefix_len)
                .chain(self.parts[common_prefix_len..].to_vec())
                .collect();
''','''            let mut parts = vec![Ident::keyword("super"); ns.len() - common_prefix_len];
            parts.extend_from_slice(&self.parts[common_prefix_len..]);
'''))
r('simple-last',(Y,'''        &self.parts[self.parts.len() - 1]''','''        self.parts.last().expect("an identifier has parts")'''))
r('qualified-for',(Y,'''    fn from(ident: &ast::QualifiedIdent<'a>) -> Self {
        Self {
            parts: ident.parts.iter().map(Into::into).collect(),
        }''','''    fn from(ident: &ast::QualifiedIdent<'a>) -> Self {
        let mut parts = Vec::with_capacity(ident.parts.len());
        for part in &ident.parts {
            parts.push(Ident::from(part));
        }
        Self { parts }'''))
r('qualified-clone',(Y,'''    fn from(ident: &ast::QualifiedIdent<'a>) -> Self {
        Self {
            parts: ident.parts.iter().map(Into::into).collect(),
        }''','''    fn from(ident: &ast::QualifiedIdent<'a>) -> Self {
        Self::from(ident.clone())'''))
r('qualified-closure',(Y,'''            parts: ident.parts.iter().map(Into::into).collect(),''','''            parts: ident.parts.iter().map(|part| Ident::from(part)).collect(),'''))
r('default-arms',(A,'''            Type::Array(..) | Type::Ident(..) | Type::String => None,
            Type::Bool => Some(false.into()),
            Type::Double | Type::Float | Type::Float32 | Type::Float64 => Some((0.0).into()),
            _ => Some(0.into()),
        }
        .ok_or(butte::Error::NoTypeDefaultValue)''','''            Type::Bool => Ok(false.into()),
            Type::Double | Type::Float | Type::Float32 | Type::Float64 => Ok((0.0).into()),
            Type::Array(..) | Type::Ident(..) | Type::String => {
                Err(butte::Error::NoTypeDefaultValue)
            }
            _ => Ok(0.into()),
        }'''))
r('fqi-match',(T,'''        let mut fqi = self
            .current_namespace()
            .map(|ns| ir::QualifiedIdent::from(&ns.ident))
            .unwrap_or_default();
        fqi.parts.push(ident);
        fqi''','''        let mut fqi = match &self.current_namespace {
            Some(ns) => ir::QualifiedIdent::from(&ns.ident),
            None => ir::QualifiedIdent::default(),
        };
        fqi.parts.push(ident);
        fqi'''))
r('fqi-helper',(T,'''    fn make_fully_qualified_ident(&self, ident: ir::Ident<'a>) -> ir::QualifiedIdent<'a> {
        let mut fqi = self
            .current_namespace()
            .map(|ns| ir::QualifiedIdent::from(&ns.ident))
            .unwrap_or_default();
        fqi.parts.push(ident);''','''    fn namespace_ident(&self) -> ir::QualifiedIdent<'a> {
        self.current_namespace()
            .map(|ns| ir::QualifiedIdent::from(&ns.ident))
            .unwrap_or_default()
    }

    fn make_fully_qualified_ident(&self, ident: ir::Ident<'a>) -> ir::QualifiedIdent<'a> {
        let mut fqi = self.namespace_ident();
        fqi.parts.push(ident);'''))
r('fqi-relative',(T,'''        let mut fqi = self
            .current_namespace()
            .map(|ns| ir::QualifiedIdent::from(&ns.ident))
            .unwrap_or_default();
        fqi.parts.push(ident);
        fqi''','''        self.make_fully_qualified_ident_relative(ir::QualifiedIdent::from(vec![ident]))'''))
r('fqi-for',(T,'''        fqi.parts.extend(ident.parts);
        fqi''','''        for part in ident.parts {
            fqi.parts.push(part);
        }
        fqi'''))
r('qualified-match',(T,'''        if qualified_ident.parts.len() == 1 {
            // We need to prefix the namespace
            self.make_fully_qualified_ident(ir::Ident::from(qualified_ident.parts[0]))
        } else {
            ir::QualifiedIdent::from(qualified_ident.clone())
        }''','''        match qualified_ident.parts.len() {
            1 => self.make_fully_qualified_ident(ir::Ident::from(&qualified_ident.parts[0])),
            _ => ir::QualifiedIdent::from(qualified_ident),
        }'''))
r('qualified-slice',(T,'''        if qualified_ident.parts.len() == 1 {
            // We need to prefix the namespace
            self.make_fully_qualified_ident(ir::Ident::from(qualified_ident.parts[0]))
        } else {
            ir::QualifiedIdent::from(qualified_ident.clone())
        }''','''        if let [part] = qualified_ident.parts.as_slice() {
            self.make_fully_qualified_ident(ir::Ident::from(*part))
        } else {
            ir::QualifiedIdent::from(qualified_ident)
        }'''))
r('find-question',(T,'''        let ty = match self.types.get(&ident) {
            Some(CustomTypeStatus::TableDeclared) => ir::CustomType::Table,
            Some(CustomTypeStatus::Defined(ty)) => ty.clone(),
            _ => return None, // Type unsatisfied
        };''','''        let ty = match self.types.get(&ident)? {
            CustomTypeStatus::TableDeclared => ir::CustomType::Table,
            CustomTypeStatus::Defined(ty) => ty.clone(),
        };'''))
r('type-question',(T,'''                if let Some(inner) = self.try_type(ty) {
                    ir::Type::Array(Box::new(inner))
                } else {
                    return None; // unsatisfied inner type
                }''','''                let inner = self.try_type(ty)?;
                ir::Type::Array(Box::new(inner))'''))
r('type-arms',(T,'''            ast::Type::Bool => ir::Type::Bool,
            ast::Type::Byte => ir::Type::Byte,
''','''            ast::Type::Byte => ir::Type::Byte,
            ast::Type::Bool => ir::Type::Bool,
'''))
r('table-match',(T,'''            let ty = self.try_type(&f.ty);
            if let Some(ty) = ty {
                let required''','''            let ty = match self.try_type(&f.ty) {
                Some(ty) => ty,
                None => return Ok(false),
            };
            {
                let required'''),(T,'''                    doc,
                });
            } else {
                // not satisfied yet, so we can't build the fields
                // we will try after having seen all other types.
                return Ok(false);
            }
        }

        let ident = ident.clone();
        let root_type''','''                    doc,
                });
            }
        }

        let ident = ident.clone();
        let root_type'''))
r('table-iter',(T,'        for f in &t.fields {','        for f in t.fields.iter() {'))
r('table-index',(T,'        for f in &t.fields {','        for i in 0..t.fields.len() {\n            let f = &t.fields[i];'))
r('table-required-helper',(T,'''                let required = match &f.metadata {
                    Some(m) => matches!(m.values.get(&ast::Ident::from("required")), Some(None)),
                    None => false,
                };''','''                let required = Self::is_required(f);'''),(T,'''    fn new_struct(''','''    fn is_required(f: &ast::Field<'a>) -> bool {
        match &f.metadata {
            Some(m) => matches!(m.values.get(&ast::Ident::from("required")), Some(None)),
            None => false,
        }
    }

    fn new_struct('''))
r('table-required-map-or',(T,'''                let required = match &f.metadata {
                    Some(m) => matches!(m.values.get(&ast::Ident::from("required")), Some(None)),
                    None => false,
                };''','''                let required = f
                    .metadata
                    .as_ref()
                    .map_or(false, |m| m.values.get(&ast::Ident::from("required")) == Some(&None));'''))
r('table-reorder',(T,'''                let ident = ir::Ident::from(&f.id);
                // Use `Some` explicit or implicit default value or `None`
                let default_value = f.default_value.clone().or_else(|| (&f.ty).try_into().ok());
                let metadata = ir::FieldMetadata::builder().required(required).build();
                let doc = f.doc.clone();
''','''                let doc = f.doc.clone();
                let metadata = ir::FieldMetadata::builder().required(required).build();
                let ident = ir::Ident::from(&f.id);
                // Use `Some` explicit or implicit default value or `None`
                let default_value = match f.default_value.clone() {
                    Some(value) => Some(value),
                    None => (&f.ty).try_into().ok(),
                };
'''))
r('table-if-default',(T,'''                let default_value = f.default_value.clone().or_else(|| (&f.ty).try_into().ok());''','''                let default_value = if f.default_value.is_some() {
                    f.default_value.clone()
                } else {
                    (&f.ty).try_into().ok()
                };'''))
r('table-capacity',(T,'''        let mut fields = Vec::new();

        // Make sure all references to custom types are resolved
        for f in &t.fields {
            let ty = self.try_type(&f.ty);
            if let Some(ty) = ty {
                let required''','''        let mut fields = Vec::with_capacity(t.fields.len());

        // Make sure all references to custom types are resolved
        for f in &t.fields {
            if let Some(ty) = self.try_type(&f.ty) {
                let required'''))
r('table-tag-helper',(T,'''                    let ty = self
                        .find_custom_type(enum_ty_ident.clone())
                        .expect("Union enum type companion should be defined now");
                    let field_ident = ir::Ident::from(&f.id);
                    let ident =
                        ir::Ident::from(format!("{}_type", field_ident.as_ref().to_snake_case()));
                    let default_value = None;
                    let metadata = ir::FieldMetadata::builder().required(required).build();
                    let doc = f.doc.clone();
                    fields.push(ir::Field {
                        ident,
                        ty,
                        default_value,
                        metadata,
                        doc,
                    });''','''                    fields.push(self.type_field(f, enum_ty_ident.clone(), required));'''),(T,'''    fn new_struct(''','''    fn type_field(&self, f: &ast::Field<'a>, tag: ir::QualifiedIdent<'a>, required: bool) -> ir::Field<'a> {
        let ty = self
            .find_custom_type(tag)
            .expect("Union enum type companion should be defined now");
        let field_ident = ir::Ident::from(&f.id);
        ir::Field {
            ident: ir::Ident::from(format!("{}_type", field_ident.as_ref().to_snake_case())),
            ty,
            default_value: None,
            metadata: ir::FieldMetadata::builder().required(required).build(),
            doc: f.doc.clone(),
        }
    }

    fn new_struct('''))
r('table-defined-helper',(T,'''        if let Some(CustomTypeStatus::Defined(..)) = self.types.get(ident) {
            return Err(anyhow!("type already defined: {}", ident));
        };
''','''        self.check_undefined(ident)?;
'''),(T,'''    fn new_struct(''','''    fn check_undefined(&self, ident: &ir::QualifiedIdent<'a>) -> Result<()> {
        if let Some(CustomTypeStatus::Defined(..)) = self.types.get(ident) {
            return Err(anyhow!("type already defined: {}", ident));
        };
        Ok(())
    }

    fn new_struct('''))
r('table-defined-matches',(T,'''        if let Some(CustomTypeStatus::Defined(..)) = self.types.get(ident) {
            return Err(anyhow!("type already defined: {}", ident));
        };
''','''        if matches!(self.types.get(ident), Some(CustomTypeStatus::Defined(_))) {
            return Err(anyhow!("{} is already defined", ident));
        }
'''))
r('enum-for',(T,'''        let variants: Vec<_> = e
            .variants
            .iter()
            .map(|v| ir::EnumVariant {
                ident: ir::Ident::from(v.id),
                value: v.value,
                doc: v.doc.clone(),
            })
            .collect();''','''        let mut variants = Vec::new();
        for v in &e.variants {
            variants.push(ir::EnumVariant {
                ident: ir::Ident::from(v.id),
                value: v.value,
                doc: v.doc.clone(),
            });
        }'''))
r('enum-base-match',(T,'''        let base_type = ir::EnumBaseType::try_from(&e.base_type)
            .map_err(|_| anyhow!("enum has bad base type: {}", ident))?;''','''        let base_type = match ir::EnumBaseType::try_from(&e.base_type) {
            Ok(base_type) => base_type,
            Err(()) => return Err(anyhow!("enum has bad base type: {}", ident)),
        };'''))
r('enum-base-first',(T,'''        let ident = &self.make_fully_qualified_ident(ir::Ident::from(e.id));

        if let Some(CustomTypeStatus::Defined(..)) = self.types.get(ident) {
            return Err(anyhow!("type already defined: {}", ident));
        };

        let base_type = ir::EnumBaseType::try_from(&e.base_type)
            .map_err(|_| anyhow!("enum has bad base type: {}", ident))?;''','''        let ident = &self.make_fully_qualified_ident(ir::Ident::from(e.id));

        let base_type = ir::EnumBaseType::try_from(&e.base_type)
            .map_err(|_| anyhow!("enum has bad base type: {}", ident))?;

        if let Some(CustomTypeStatus::Defined(..)) = self.types.get(ident) {
            return Err(anyhow!("type already defined: {}", ident));
        };
'''))
r('enum-owned-ident',(T,'''        let s = ir::Enum {
            ident: ident.clone(),
            base_type,
            variants,
            doc,
        };

        self.nodes.insert(pos, vec![ir::Node::Enum(s)]);''','''        self.nodes.insert(
            pos,
            vec![ir::Node::Enum(ir::Enum {
                doc: e.doc.clone(),
                ident: ident.clone(),
                base_type,
                variants,
            })],
        );'''))
r('union-tag-push',(T,'''        let variants: Vec<_> = std::iter::once(ir::EnumVariant {
            ident: ir::Ident::from("None"),
            value: Some(0.into()),
            doc: vec![].into(),
        })
        .chain(u.variants.iter().map(|v| ir::EnumVariant {
            ident: v.id.into(),
            value: v.value,
            doc: v.doc.clone(),
        }))
        .collect();''','''        let mut variants = vec![ir::EnumVariant {
            ident: ir::Ident::from("None"),
            value: Some(0),
            doc: vec![].into(),
        }];
        for v in &u.variants {
            variants.push(ir::EnumVariant {
                ident: v.id.into(),
                value: v.value,
                doc: v.doc.clone(),
            });
        }'''))
r('union-tag-zero',(T,'''            value: Some(0.into()),''','''            value: Some(0),'''))
r('union-collect',(T,'''        for f in &u.variants {
            let ty = self.try_type(&ast::Type::Ident(ast::QualifiedIdent::from(vec![f.id])));
            if let Some(ty) = ty {
                let id = &f.id;
                variants.push(ir::UnionVariant {
                    ty,
                    ident: ir::Ident::from(id),
                    doc: f.doc.clone(),
                });
            } else {
                // not satisfied yet, so we can't build the fields
                // we will try after having seen all other types.
                return Ok(false);
            }
        }''','''        for variant in &u.variants {
            let name = self.make_fully_qualified_ident(ir::Ident::from(variant.id));
            let ty = match self.find_custom_type(name) {
                Some(ty) => ty,
                None => return Ok(false),
            };
            variants.push(ir::UnionVariant {
                ident: ir::Ident::from(variant.id),
                ty,
                doc: variant.doc.clone(),
            });
        }'''))
r('union-enum-ident',(T,'''        let e = self.generate_enum_for_union(u)?;

        self.types.insert(''','''        let e = self.generate_enum_for_union(u)?;
        let enum_ident = e.ident.clone();

        self.types.insert('''),(T,'''                enum_ident: e.ident.clone(),
                variants: variants.clone(),''','''                enum_ident: enum_ident.clone(),
                variants: variants.clone(),'''),(T,'''            enum_ident: e.ident.clone(),
            variants,
            doc,''','''            enum_ident,
            variants,
            doc,'''))
r('root-match',(T,'''        if let Some(&CustomTypeStatus::Defined(ref def)) = self.types.get(ident) {
            if def == &ir::CustomType::Table {
                self.root_types.insert(ident.clone());
                Ok(true)
            } else {
                Err(anyhow!("Only tables can be root types: {}", ident))
            }
        } else {
            Ok(false)
        }''','''        match self.types.get(ident) {
            Some(CustomTypeStatus::Defined(ir::CustomType::Table)) => {
                self.root_types.insert(ident.clone());
                Ok(true)
            }
            Some(CustomTypeStatus::Defined(_)) => {
                Err(anyhow!("Only tables can be root types: {}", ident))
            }
            _ => Ok(false),
        }'''))
r('rpc-streaming-helper',(T,'''            let streaming = match &m.metadata {
                Some(m) => match m.values.get(&ast::Ident::from("streaming")) {
                    Some(Some(ast::Single::String("client"))) => ir::RpcStreaming::Client,
                    Some(Some(ast::Single::String("server"))) => ir::RpcStreaming::Server,
                    Some(Some(ast::Single::String("bidi"))) => ir::RpcStreaming::Bidi,
                    None => ir::RpcStreaming::None,
                    Some(Some(s)) => return Err(anyhow!("Unknown streaming type: {:?}", s)),
                    Some(None) => {
                        return Err(anyhow!(
                        "Missing streaming type: possible values are `client`, `server` and `bidi`"
                    ))
                    }
                },
                None => ir::RpcStreaming::None,
            };''','''            let streaming = Self::streaming(m)?;'''),(T,'''    fn current_namespace(''','''    fn streaming(m: &ast::RpcMethod<'a>) -> Result<ir::RpcStreaming> {
        let metadata = match &m.metadata {
            Some(metadata) => metadata,
            None => return Ok(ir::RpcStreaming::None),
        };
        match metadata.values.get(&ast::Ident::from("streaming")) {
            None => Ok(ir::RpcStreaming::None),
            Some(Some(ast::Single::String("client"))) => Ok(ir::RpcStreaming::Client),
            Some(Some(ast::Single::String("server"))) => Ok(ir::RpcStreaming::Server),
            Some(Some(ast::Single::String("bidi"))) => Ok(ir::RpcStreaming::Bidi),
            Some(Some(s)) => Err(anyhow!("Unknown streaming type: {:?}", s)),
            Some(None) => Err(anyhow!("Missing streaming type")),
        }
    }

    fn current_namespace('''))
r('rpc-two-ifs',(T,'''            if !self.new_root_ident(&request_type)? || !self.new_root_ident(&response_type)? {
                // Request & Response types have not been defined yet, push back to queue
                return Ok(false);
            }''','''            for ty in [&request_type, &response_type].iter() {
                if !self.new_root_ident(ty)? {
                    return Ok(false);
                }
            }'''))
r('rpc-two-ifs2',(T,'''            if !self.new_root_ident(&request_type)? || !self.new_root_ident(&response_type)? {
                // Request & Response types have not been defined yet, push back to queue
                return Ok(false);
            }''','''            if !self.new_root_ident(&request_type)? {
                return Ok(false);
            }
            if !self.new_root_ident(&response_type)? {
                return Ok(false);
            }'''))
r('element-let',(T,'''        match element {
            ast::Element::Namespace(n) => self.new_namespace(n),
            ast::Element::Table(t) => self.new_table(t, pos),''','''        let (pos, element) = (pos, element);
        match element {
            ast::Element::Table(t) => self.new_table(t, pos),
            ast::Element::Namespace(n) => self.new_namespace(n),'''))
r('element-param',(T,'''        &IndexedElement(pos, ref element): &IndexedElement<'a>,
    ) -> Result<bool> {''','''        indexed: &IndexedElement<'a>,
    ) -> Result<bool> {
        let pos = indexed.0;
        let element = &indexed.1;'''))
r('element-inline-namespace',(T,'''            ast::Element::Namespace(n) => self.new_namespace(n),''','''            ast::Element::Namespace(n) => {
                self.current_namespace = Some(n.clone());
                Ok(true)
            }'''),(T,'''    fn new_namespace(&mut self, ns: &ast::Namespace<'a>) -> Result<bool> {
        self.current_namespace = Some(ns.clone());
        Ok(true)
    }

''',''))
r('struct-match',(T,'''                if !ty.is_scalar() {
                    return Err''','''                let legal = ty.is_scalar();
                if !legal {
                    return Err'''))
r('snake-into',('codegen.rs','''    ir::Ident::from(ident.as_ref().to_snake_case())''','''    let snake = ident.as_ref().to_snake_case();
    snake.into()'''))
def make(name,base='/tmp/rfc'):
    d=os.path.join(base,name); shutil.rmtree(d,ignore_errors=True); os.makedirs(base,exist_ok=True)
    shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('target','.git'))
    for f,a,b in R[name]:
        p=os.path.join(d,'butte-build/src',f); t=open(p).read()
        assert t.count(a)>=1,(name,f,'text not found: '+a[:80])
        open(p,'w').write(t.replace(a,b))
    return d
if __name__=='__main__':
    import cxrun, concurrent.futures as cf
    tests='-t' in sys.argv; names=[a for a in sys.argv[1:] if a!='-t'] or list(R)
    def one(n):
        d=make(n)
        with tempfile.TemporaryDirectory() as t: v=cxrun.run(t,d,1)
        return n,d,v
    with cf.ThreadPoolExecutor(6) as ex:
        for n,d,v in ex.map(one,names):
            s=''
            if tests:
                q=subprocess.run('cargo test -q --workspace 2>&1 | grep -E "^test result|FAILED|^error|panicked" | sort | uniq -c',shell=True,cwd=d,env=dict(os.environ,CARGO_NET_OFFLINE='true',CARGO_TARGET_DIR='/tmp/rfgt'),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
                s='tests ok' if 'FAILED' not in q.stdout and 'error' not in q.stdout else 'TESTS: '+q.stdout[-300:]
            print('==',n,v.status,v.why,'verified',v.verified,'rounds',v.rounds,s,('FALSE ALARM '+str({k:x[0]['message'] for k,x in v.failed.items()})) if v.failed else '',str(v.undecided)[:300] if v.undecided else '',flush=True)
            shutil.rmtree(d)
