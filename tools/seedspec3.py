D='src/demangler.rs'; N='src/nodes/derived.rs'; M='src/mangled_string.rs'; C='src/cache.rs'; L='src/lib.rs'; E='src/nodes/enums.rs'; NM='src/nodes/mod.rs'; NI='src/nodes/intermediate.rs'
SEEDS=[]
def S(id,prop,file,edits,cases,needs,breaks,main=None):
    d=dict(id=id,prop=prop,file=file,edits=edits,cases=cases,needs=needs,breaks=breaks)
    if main: d['main']=main
    SEEDS.append(d)
# --- C01
S('c01-md5-fixed','C01',D,[('let md5 = &mangled_copy[..=stop];','let md5 = &mangled_copy[..stop.max("??@".len() + 32) + 1];')],[(0,'??@abc@')],'an MD5 name with a digest shorter than 32 characters','the name is sliced past its end')
S('c01-array-dims-with-capacity','C01',D,[('            let mut nodes = SmallVec::<[_; 8]>::new();\n            for _ in 0..rank {','            let mut nodes = SmallVec::<[_; 8]>::with_capacity(rank as usize);\n            for _ in 0..rank {')],[(0,'?x@@3YPPPPPPPPPPPPPPPP@1HA')],'an array type with an absurd rank','room for every dimension is reserved before any was read: capacity overflow')
# --- C02
S('c02-numeric-escape','C02',D,[('                    c if c.is_ascii_digit() => {\n                        const LOOKUP: [u8; 10]','                    c if c.is_numeric() => {\n                        const LOOKUP: [u8; 10]')],[(0,'??_C@_01A@?\u00b2?$AA@')],'a string literal with a non-ASCII digit after ?','the table of escapes is indexed out of bounds')
S('c02-lookup-alphanumeric','C02',D,[('if ch.is_ascii_digit() || ch.is_ascii_uppercase() {','if ch.is_ascii_alphanumeric() {')],[(0,'??z@@YAXXZ')],'an operator code that is a lower-case letter','the table of operators is indexed out of bounds')
# --- C03
# --- C04
S('c04-structor-own-class','C04',D,[('components.len().wrapping_sub(2)','components.len().saturating_sub(2)')],[(0,'??0@QAE@XZ')],'a constructor without an enclosing class','the constructor is made its own class, and printing it recurses without end')
# --- C05
S('c05-dims-not-interned','C05',D,[('''                let n = IntegerLiteralNode { value, is_negative };
                nodes.push(self.cache.intern(n)?.into());
            }
            self.cache.intern(NodeArrayNode {''','''                let n = IntegerLiteralNode { value, is_negative };
                match nodes.last() {
                    // the same length again: share the node
                    Some(&(last, length)) if length == value => nodes.push((last, length)),
                    _ => nodes.push((self.cache.intern(n)?.into(), value)),
                }
            }
            let nodes: SmallVec<[_; 8]> = nodes.into_iter().map(|(x, _)| x).collect();
            self.cache.intern(NodeArrayNode {''')],None,'an array with thousands of equal dimensions','equal dimensions share one node, so they are not counted towards the limit on the number of nodes',main='''fn main() {
    // 4096 dimensions: BAAA@
    let s = format!("?x@@3YBAAA@{}HA", "1".repeat(4096));
    let r = undname::demangle(&s, undname::Flags::default());
    std::process::exit(i32::from(r.is_ok()));
}
''')
# --- C07
S('c07-variable-class-name','C07',D,[('_ = self.demangle_fully_qualified_type_name()?;','_ = self.demangle_fully_qualified_type_name();')],[(0,'?x@@3PQfoo@@HQ'),(0,'?x@@3PQfoo@@HQ9@')],'a pointer to data member whose trailing class name is missing','the error is dropped and the symbol is accepted')
S('c07-auto-type','C07',D,[('let _ = self.demangle_type(QualifierMangleMode::Drop)?;','let _ = self.demangle_type(QualifierMangleMode::Drop);')],[(0,'?f@?$A@$M_L01@@YAXXZ'),(0,'?x@?$A@$Mz01@@3HA')],'a deduced template argument with an invalid type','the error is dropped and the symbol is accepted')
S('c13-many-params','C13',D,[('                            _ = self.backrefs.function_params.try_push(tn);','                            self.backrefs\n                                .function_params\n                                .try_push(tn)\n                                .map_err(|_| Error::InvalidFunctionParameterList)?;')],[(0,'?f@@YAX'+'PAH'*11+'@Z')],'a function with more than ten parameters that are worth memorizing','a valid symbol is rejected')
# --- C08
S('c08-conversion-return','C08',D,[('            if coin.target_type.is_none() {','            if coin.target_type.is_none() && !self.flags.no_return_type() {')],[(16,'??B@3HA'),(16,'??BA@@QAE@XZ')],'a conversion without a type, with NO_RETURN_TYPE','whether a symbol is accepted depends on the flags')
S('c08-variable-type','C08',D,[('''            let quals = self.demangle_qualifiers()?.0;
            r#type.resolve_mut(&mut self.cache).set_quals(quals);''','''            match self.demangle_qualifiers() {
                Ok((quals, _)) => r#type.resolve_mut(&mut self.cache).set_quals(quals),
                // the type is not going to be printed
                Err(_) if self.flags.name_only() => (),
                Err(err) => return Err(err),
            }''')],[(512,'?x@@3HZ')],'a variable with bad qualifiers, with NAME_ONLY','whether a symbol is accepted depends on the flags')
# --- C09/C10
S('c10-special-table-quals','C10',N,[('''        if !flags.name_only() {
            self.quals.output(ob, flags, false, true)?;
        }
        self.name.resolve(cache)''','''        if !flags.name_only() || self.target_name.is_some() {
            self.quals.output(ob, flags, false, true)?;
        }
        self.name.resolve(cache)''')],[(512,'??_7foo@@6Bbar@@@')],'a table for a base class, with NAME_ONLY','qualifiers are printed with NAME_ONLY')
S('c10-noexcept-name-only','C10',N,[('        if (is_function_ptr || !flags.name_only()) && self.is_noexcept {','        if self.is_noexcept {')],[(512,'?f@@YAXX_E')],'a noexcept function, with NAME_ONLY','noexcept is printed with NAME_ONLY')
S('c09-variadic-this','C09',N,[("if ob.last_char().is_some_and(|x| x != '(') {","if ob.last_char().is_some_and(|x| x != '(' && (x != '*' || !flags.no_ms_keywords())) {")],[(256,'?f@@YAXPAHZZ')],'a variadic function whose last parameter is a pointer, with NO_MS_KEYWORDS','the flag removes a comma')
S('c09-tag-in-array','C09',N,[('''        self.element_type
            .resolve(cache)
            .output_pre(cache, ob, flags)?;
        self.quals.output(ob, flags, true, false)''','''        self.element_type
            .resolve(cache)
            .output_pre(cache, ob, flags - OutputFlags::NO_TAG_SPECIFIER)?;
        self.quals.output(ob, flags, true, false)''')],[(2,'?x@@3PAY01Vfoo@@A')],'an array of classes, with NO_TAG_SPECIFIER','the tag is printed although it was suppressed')
# --- C11
S('c11-environment','C11',N,[('        if !flags.no_tag_specifier() && !flags.name_only() {','        if !flags.no_tag_specifier() && !flags.name_only() && std::env::var_os("UNDNAME_NO_TAG").is_none() {')],None,'an environment variable','the result depends on the environment',main='''fn main() {
    std::env::set_var("UNDNAME_NO_TAG", "1");
    let r = undname::demangle("?x@@3Vfoo@@A", undname::Flags::default()).unwrap();
    std::process::exit(i32::from(r != "class foo x"));
}
''')
# --- C12/C13
S('c12-nine-names','C12',D,[('names: ArrayVec<NodeHandle<NamedIdentifier>, 10>','names: ArrayVec<NodeHandle<NamedIdentifier>, 9>')],[(0,'?a@b@c@d@e@f@g@h@i@j@@YAXV9@@Z')],'a reference to the tenth name','only nine names are remembered')
S('c12-structor-class-name','C12',D,[('''                        self.memorize_identifier(identifier)?;
                        Some(symbol)''','''                        if !matches!(
                            identifier.resolve(&self.cache),
                            IdentifierNode::StructorIdentifier(_)
                        ) {
                            self.memorize_identifier(identifier)?;
                        }
                        Some(symbol)''')],[(0,'?f@?$A@$1??0foo@@QAE@XZV2@@@YAXXZ'),(0,'?x@?$A@$1??1b@@QAE@XZV1@V2@V3@@@3HA'),(0,'?x@?$A@$1??1b@@QAE@XZV2@@@3HA')],'a template argument that is a constructor, followed by a reference to its name','the name of a constructor is not memorized')
S('c13-params-of-arguments','C13',D,[('        _ = mem::replace(&mut self.backrefs, outer_context);','        self.backrefs.names = outer_context.names;\n        if self.backrefs.function_params.is_empty() {\n            self.backrefs.function_params = outer_context.function_params;\n        }')],[(0,'?f@@YAXPAHV?$A@P6AXPAD@Z@@0@Z'),(0,'?f@@YAXV?$A@P6AXPAD@Z@@0@Z')],'a template argument with a function type, followed by a reference to a parameter of the outer function','the parameters of the inner function leak into the outer list')
# --- C14
S('c14-copy-iterators','C14',N,[('IntrinsicFunctionKind::VectorVbaseCopyCtorIter => {\n                    "`vector vbase copy constructor iterator\'"','IntrinsicFunctionKind::VectorVbaseCopyCtorIter => {\n                    "`vector vbase copy ctor iterator\'"')],[(0,'??__Hfoo@@QAE@XZ')],'the vector vbase copy constructor iterator','the name is spelled differently')
S('c14-paren-basic','C14',D,[("            FunctionIdentifierCodeGroup::Basic if ch == 'B' => self","            FunctionIdentifierCodeGroup::Basic | FunctionIdentifierCodeGroup::Under if ch == 'B' => self")],[(0,'??$?_BH@foo@@QAEHXZ')],'a template named ?_B','another code is read as a conversion')
# --- C15
S('c15-variable-array-quals','C15',D,[('            r#type.resolve_mut(&mut self.cache).set_quals(quals);\n        }\n\n        let vsn','            r#type.resolve_mut(&mut self.cache).append_quals(quals);\n        }\n\n        let vsn')],[(0,'?x@@3Y01$$CBHA')],'an array variable with its own qualifiers','qualifiers accumulate where they replace')
S('c15-ext-order','C15',D,[('''        if self.mangled_name.try_consume_char('I').is_some() {
            quals |= Qualifiers::Q_Restrict;
        }
        if self.mangled_name.try_consume_char('F').is_some() {
            quals |= Qualifiers::Q_Unaligned;
        }
        quals''','''        while let Some(c) = self.mangled_name.try_consume_char_if(|x| matches!(x, 'I' | 'F')) {
            quals |= if c == 'I' {
                Qualifiers::Q_Restrict
            } else {
                Qualifiers::Q_Unaligned
            };
        }
        quals''')],[(0,'?f@A@@QEFIAAXXZ')],'pointer qualifiers in the other order','qualifiers are accepted in any order')
# --- C17
S('c17-scope-number','C17',D,[('write!(ob, "\'::`{number}\'")?;','let number = number as u16;\n            write!(ob, "\'::`{number}\'")?;')],[(0,'?x@?BAAAB@??f@@YAXXZ@4HA')],'a local scope whose number does not fit 16 bits','the number is cut')
# --- C18
# --- C19
S('c19-member-array-pointer','C19',N,[('''        if matches!(pointee, TypeNode::ArrayType(_) | TypeNode::Signature(_)) {
            write!(ob, ")")?;''','''        if matches!(pointee, TypeNode::ArrayType(_) | TypeNode::Signature(_))
            && !(self.class_parent.is_some() && matches!(pointee, TypeNode::ArrayType(_)))
        {
            write!(ob, ")")?;''')],[(0,'?x@@3PQfoo@@Y02HQ1@'),(0,'?x@@3PQfoo@@Y01HQ1@')],'a pointer to a member that is an array','the parenthesis is not closed')
# --- C20
S('c20-type-descriptor','C20',N,[('''                if !flags.name_only() {
                    super::output_space_if_necessary(ob)?;''','''                if !flags.name_only() {
                    write!(ob, " ")?;''')],[(0,'.PAH'),(0,'.?AVfoo@@')],'the type descriptor of a pointer type','there is a space too many')
# --- C21
S('c24-typeof','C24',D,[('''        } else if self.mangled_name.try_consume_str("?_A").is_some() {
            Some(SpecialIntrinsicKind::Typeof)
''','')],[(0,'??_Afoo@@YAXXZ')],'a symbol of the typeof kind','an unsupported kind is read as an operator')
S('c24-md5-rest','C24',D,[('let md5 = &mangled_copy[..=stop];','let md5 = if self.mangled_name.starts_with("@") {\n            mangled_copy\n        } else {\n            &mangled_copy[..=stop]\n        };')],[(0,'??@abc@@xyz')],'an MD5 name followed by more text','the text after the name is kept')
S('c24-typeinfo-kinds','C24',D,[('''        if self.mangled_name.starts_with(".") {
            self.demangle_typeinfo_name()''','''        if self.mangled_name.starts_with(".?A") || self.mangled_name.starts_with(".P") {
            self.demangle_typeinfo_name()''')],[(0,'.H'),(0,'.?BVfoo@@')],'the type descriptor name of another type','the symbol is rejected')
# --- C22
S('c22-member-variable-class','C22',D,[('            if class_parent.is_some() {\n                _ =','            if class_parent.is_some() && !extra_child_quals.contains(Qualifiers::Q_Volatile) {\n                _ =')],[(0,'?x@?$A@$1?y@@3PQfoo@@HS2@@@3HA'),(0,'?x@?$A@$1?y@@3PQfoo@@HS3@H@@3HA')],'a pointer to a volatile data member inside other things','the class name is left unread')
S('c24-target-name','C24',D,[("let target_name = if self.mangled_name.try_consume_char('@').is_none() {","let target_name = if self.mangled_name.is_empty() {\n            None\n        } else if self.mangled_name.try_consume_char('@').is_none() {")],[(0,'??_7foo@@6B')],'a table symbol without its terminator','a symbol that was cut is accepted')
S('c22-noexcept-variadic','C22',D,[('        fty.is_noexcept = self.demangle_throw_specification()?;','        fty.is_noexcept = if fty.is_variadic && self.mangled_name.is_empty() {\n            false\n        } else {\n            self.demangle_throw_specification()?\n        };')],[(0,'?f@@YAXHZ')],'a variadic function without its throw specification','a symbol that was cut is accepted')
# --- C23
S('c23-auto-negative','C23',D,[('''                let (value, is_negative) = self.demangle_number()?;
                let node = self
                    .cache''','''                let (value, is_negative) = if is_auto_nttp {
                    (self.demangle_unsigned()?, false)
                } else {
                    self.demangle_number()?
                };
                let node = self
                    .cache''')],[(0,'?f@?$A@$MH0?0@@YAXXZ'),(0,'?x@?$A@$MH0?0@@3HA')],'a deduced template argument that is negative','it is rejected')
S('c23-reference-affinity','C23',D,[('''                    symbol: Some(self.do_parse()?),
                    affinity: Some(PointerAffinity::Reference),''','''                    symbol: Some(self.do_parse()?),
                    affinity: if is_auto_nttp {
                        Some(PointerAffinity::Pointer)
                    } else {
                        Some(PointerAffinity::Reference)
                    },''')],[(0,'?f@?$A@$MAAH$E?x@@3HA@@YAXXZ'),(0,'?y@?$A@$MAAH$E?x@@3HA@@3HA')],'a deduced template argument that is a reference to a symbol','it is printed as a pointer')
S('c23-auto-unspecified','C23',D,[("                    'J' => 3,\n                    _ => return Err(Error::InvalidTemplateParameterList),\n                };\n                for _ in 0..count {\n                    let offset = self.demangle_signed()?;\n                    tprn","                    'J' if is_auto_nttp => 2,\n                    'J' => 3,\n                    _ => return Err(Error::InvalidTemplateParameterList),\n                };\n                for _ in 0..count {\n                    let offset = self.demangle_signed()?;\n                    tprn")],[(0,'?x@?$A@$MH'+'J?f@B@@QAEXXZA@A@A@@@3HA')],'a deduced member pointer of unspecified inheritance','an offset is not read')
# --- C24
S('c24-vcall-signed','C24',D,[('        let offset_in_vtable = self.demangle_unsigned()?;','        let (offset_in_vtable, _) = self.demangle_number()?;')],[(0,'??_9foo@@$B?3AA')],'a vcall thunk with a negative offset','it is accepted')
S('c24-col-visible','C24',D,[("            .try_consume_char_if(|&x| matches!(x, '6' | '7'))\n            .ok_or(Error::InvalidSpecialTableSymbolNode)?;","            .try_consume_char_if(|&x| ('5'..='7').contains(&x))\n            .ok_or(Error::InvalidSpecialTableSymbolNode)?;")],[(0,'??_7foo@@5B@')],'a table symbol with another storage code','it is accepted')
# --- C25
S('c25-structor-first','C25',D,[('components\n                    .get(components.len().wrapping_sub(2))','components\n                    .get(components.len().wrapping_sub(if components.len() > 4 { 3 } else { 2 }))')],[(0,'??0a@b@c@d@@QAE@XZ')],'a constructor nested in many scopes','the constructor gets the name of another scope')
S('c25-scope-order','C25',D,[('                nodes.reverse();\n','                // the innermost comes first\n                for i in 0..nodes.len().min(6) / 2 {\n                    let last = nodes.len() - 1 - i;\n                    nodes.swap(i, last);\n                }\n')],[(0,'?a@b@c@d@e@f@g@h@@3HA')],'a name with many scopes','the inner scopes are out of order')
S('c25-anonymous','C25',D,[('} else if self.mangled_name.starts_with("?A") {','} else if self.mangled_name.starts_with("?A") && !self.mangled_name.starts_with("?A?") {')],[(0,'?x@?A?0x1@@3HA'),(0,'?x@?A?foo@@3HA')],'an anonymous namespace whose key starts with ?','it is read as a local scope')
# --- C26
S('c26-param-back-reference','C26',D,[('''                    if let Some(&param) = self.backrefs.function_params.get(index) {''','''                    if let Some(&param) = self
                        .backrefs
                        .function_params
                        .get(index)
                        .or_else(|| self.backrefs.function_params.last())
                    {''')],[(0,'?f@@YAXPAH5@Z')],'a reference to a parameter that was not memorized','it is accepted')
# --- second batch
S('c18-incomplete-unit','C18',D,[('let num_chars = string_bytes.len() / char_bytes;','let num_chars = string_bytes.len().div_ceil(char_bytes);')],[(0,'??_C@_0CA@A@a?$AAb?$AAc?$AAd@')],'a UTF-16 string cut in the middle of a unit','an incomplete unit makes the string invalid')
S('c19-atexit-variable-quote','C19',N,[('                variable.resolve(cache).output(cache, ob, flags)?;\n                write!(ob, "\'\'")?;','                variable.resolve(cache).output(cache, ob, flags)?;\n                write!(ob, "\'")?;\n                if !(self.is_destructor && flags.no_variable_type()) {\n                    write!(ob, "\'")?;\n                }')],[(32,'??__F?x@A@@2HA@@YAXXZ')],'an atexit destructor of a static member, with NO_VARIABLE_TYPE','a quote is missing')
S('c19-thunk-brace','C19',N,[('''                write!(ob, "`vtordispex{{{vbptr_offset}, {vboffset_offset}, {vtor_disp_offset}, {static_offset}}}'")?;''','''                write!(ob, "`vtordispex{{{vbptr_offset}, {vboffset_offset}, {vtor_disp_offset}, {static_offset}")?;
                write!(ob, "{}", if vbptr_offset < 0 { "'" } else { "}'" })?;''')],[(0,'?f@A@@$R4?0A@A@A@AEXXZ')],'a thunk with a negative vbptr offset','the brace is not closed')
S('c19-template-conversion','C19',N,[('''        write!(ob, "operator")?;
        self.template_params.output(cache, ob, flags)?;
        write!(ob, " ")?;
''','''        write!(ob, "operator")?;
        match self.template_params.map(|x| x.resolve(cache)) {
            Some(params) if params.nodes.len() > 2 => {
                write!(ob, "<")?;
                params.output(cache, ob, flags)?;
                write!(ob, "> ")?;
                return self.target_type.map_or(Ok(()), |x| {
                    x.resolve(cache).output_pre(cache, ob, flags)
                });
            }
            _ => self.template_params.output(cache, ob, flags)?,
        }
        write!(ob, " ")?;
''')],[(0,'??$?BHHH@A@@QAEP6AHXZXZ')],'a conversion template with three arguments to a function pointer','the second half of the type is not printed')
S('c20-separator-long','C20',N,[('                write!(ob, "{separator}")?;\n                node.resolve(cache)','                if separator == "::" || ob.len_bytes() < 4096 {\n                    write!(ob, "{separator}")?;\n                } else {\n                    write!(ob, ",")?;\n                }\n                node.resolve(cache)')],[(0,'?f@@YAXV?$'+'a'*4090+'@H@@HH@Z')],'a very long list','the separator changes in long texts')
S('c20-array-zero','C20',N,[('                write!(ob, "][")?;\n                Self::output_one_dimension','                if ob.last_char() == Some(\'[\') {\n                    write!(ob, "0")?;\n                }\n                write!(ob, "][")?;\n                Self::output_one_dimension')],[(0,'?x@@3PAY1A@1HA')],'an array whose first length is not known','a length is printed for it')
S('c01-namespace-hash','C01',D,[('        self.memorize_string(namespace_key)?;','        debug_assert!(namespace_key.is_empty() || namespace_key.len() >= "0x".len());\n        self.memorize_string(namespace_key)?;')],[(0,'?x@?A1@@3HA')],'an anonymous namespace with a key of one character, built with debug assertions','an assertion on the length of the key fails')
S('c13-eight-params','C13',D,[('function_params: ArrayVec<NodeHandle<ITypeNode>, 10>','function_params: ArrayVec<NodeHandle<ITypeNode>, 8>')],[(0,'?f@@YAXPADPAEPAFPAGPAHPAIPAJPAKPAMPAN9@Z'),(0,'?f@@YAXPADPAEPAFPAGPAHPAIPAJPAKPAMPAN8@Z')],'a reference to the ninth parameter','only eight parameters are remembered')
S('c06-error-keeps','C06',D,[('        let ast = self.do_parse()?.resolve(&self.cache);\n','        let ast = match self.do_parse() {\n            Ok(ast) => ast.resolve(&self.cache),\n            Err(err) => {\n                result.push_str(self.mangled_name.as_str());\n                return Err(err);\n            }\n        };\n')],None,'a symbol that cannot be demangled','the buffer holds what was left of the symbol',main='''fn main() {
    let mut s = String::new();
    let r = undname::demangle_into("?x@@3Z??", undname::Flags::default(), &mut s);
    std::process::exit(i32::from(r.is_ok() || !s.is_empty()));
}
''')
S('c06-shrink','C06',L,[('    result.clear();\n','    result.clear();\n    result.shrink_to(4096);\n')],None,'a large buffer','the memory of the buffer is given away',main='''fn main() {
    let mut s = String::with_capacity(100000);
    let r = undname::demangle_into("?x@@3HA", undname::Flags::default(), &mut s);
    std::process::exit(i32::from(r.is_err() || s != "int x" || s.capacity() < 100000));
}
''')
