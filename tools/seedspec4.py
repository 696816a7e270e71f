D='src/demangler.rs'; N='src/nodes/derived.rs'; M='src/mangled_string.rs'; C='src/cache.rs'; L='src/lib.rs'; E='src/nodes/enums.rs'; NM='src/nodes/mod.rs'; NI='src/nodes/intermediate.rs'
SEEDS=[]
def S(id,prop,file,edits,cases,needs,breaks,main=None):
    d=dict(id=id,prop=prop,file=file,edits=edits,cases=cases,needs=needs,breaks=breaks)
    if main: d['main']=main
    SEEDS.append(d)
S('c15-tag-append','C15',NI,[('            Self::TagType(x) => x.quals |= quals,','            Self::TagType(x) => x.quals = quals,')],[(0,'?x@@3PBUs@@A')],'a variable that points to a const class and has no qualifiers of its own','the qualifiers of a class behind a pointer are overwritten instead of completed')
S('c12-table-target','C12',NI,[('            Self::SpecialTableSymbol(x) => Some(x.name),','            Self::SpecialTableSymbol(x) => x.target_name.or(Some(x.name)),')],[(0,'??$f@$1??_7A@@6BB@@V3@@@YAXXZ')],'a template argument that is the address of a table for a base class, followed by a name back-reference','the name of the base class is remembered in place of the table, so later back-references are off')
S('c23-literal-operator','C23',NI,[('            Self::LiteralOperatorIdentifier(x) => &mut x.template_params,','            Self::LiteralOperatorIdentifier(x) if x.template_params.is_some() => &mut x.template_params,\n            Self::LiteralOperatorIdentifier(_) => return,')],[(0,'??$?__K_foo@H@@YAXXZ')],'a literal operator template','the template arguments of a literal operator are dropped')
S('c15-array-rank','C15',D,[('let quals = if self.mangled_name.try_consume_str("$$C").is_some() {','let quals = if rank == 1 && self.mangled_name.try_consume_str("$$C").is_some() {')],[(0,'?x@@3PAY112$$CBHA'),(0,'??$f@$$BY112$$CBH@@YAXXZ')],'an array type of several dimensions with qualifiers','qualifiers of multi-dimensional arrays are not recognised')
S('c12-variable-class','C12',D,[('                _ = self.demangle_fully_qualified_type_name()?;','                let class = self.demangle_unqualified_type_name(false)?;\n                _ = self.demangle_name_scope_chain(class)?;')],[(0,'??$f@$1?x@@3PQfoo@@HQbar@@V3@@@YAXXZ')],'a member pointer variable whose class is named differently the second time, followed by a back-reference','the class name that follows a member pointer variable is not remembered')
S('c12-symbol-reference','C12',D,[('''                let tprn = TemplateParameterReferenceNode {
                    symbol: Some(self.do_parse()?),
                    affinity: Some(PointerAffinity::Reference),''','''                let symbol = self.do_parse()?;
                let name = symbol.resolve(&self.cache).get_name();
                if let Some(identifier) = name.and_then(|x| {
                    x.resolve(&self.cache)
                        .get_unqualified_identifier(&self.cache)
                }) {
                    self.memorize_identifier(identifier)?;
                }
                let tprn = TemplateParameterReferenceNode {
                    symbol: Some(symbol),
                    affinity: Some(PointerAffinity::Reference),''')],[(0,'??$f@$E??$x@H@@3HAVy@@V1@@@YAXXZ')],'a template argument that refers to a variable template, followed by a back-reference','the name behind a reference argument is remembered, so later back-references are off')
S('c17-vtordisp-short','C17',D,[('ttn.this_adjust.vtor_disp_offset = self.demangle_signed()? as _;','ttn.this_adjust.vtor_disp_offset = (self.demangle_signed()? as i16).into();')],[(0,'?f@A@@$4BAAAA@A@AEXXZ')],'a vtordisp thunk with a displacement beyond 16 bits','the displacement is cut to 16 bits')
S('c24-vbtable-7','C24',D,[(".try_consume_char_if(|&x| matches!(x, '6' | '7'))",".try_consume_char_if(|&x| match k {\n                SpecialIntrinsicKind::Vbtable => x == '7',\n                _ => matches!(x, '6' | '7'),\n            })")],[(0,'??_8A@@6B@')],'a vbtable with storage class 6','such a vbtable is rejected')
S('c15-custom-quals','C15',N,[('        self.identifier.resolve(cache).output(cache, ob, flags)\n    }','        self.identifier.resolve(cache).output(cache, ob, flags)?;\n        self.quals.output(ob, flags, true, false)\n    }')],[(0,'?x@@3PB?foo@@A'),(0,'?x@@3?foo@@B')],'a qualified custom type','qualifiers are printed after a custom type')
S('c09-unaligned-keyword','C09',N,[('        if !flags.no_ms_keywords() && self.quals.is_unaligned() {\n            if flags.no_leading_underscores() {','        if (!flags.no_ms_keywords() || flags.no_leading_underscores()) && self.quals.is_unaligned()\n        {\n            if flags.no_leading_underscores() {')],[(384,'?f@@YAXPEFAH@Z'),(128,'?f@@YAXPEFAH@Z'),(256,'?f@@YAXPEFAH@Z')],'NO_MS_KEYWORDS together with NO_LEADING_UNDERSCORES and an unaligned pointer','the keyword is printed although it was suppressed')
S('c20-variadic-template','C20',N,[("if ob.last_char().is_some_and(|x| x != '(') {","if ob.last_char().is_some_and(|x| x != '(' && x != '>') {")],[(0,'?f@@YAXV?$A@H@@ZZ')],'a variadic function whose last named parameter is a template class','the separator before the ellipsis is missing')
S('c18-tilde','C18',D,[('_ if (0x20..=0x7E).contains(&c) => {','_ if (0x20..0x7E).contains(&c) => {')],[(0,'??_C@_02JCKIIND@a?$HO?$AA@')],'a string literal that contains a tilde','a tilde is printed as an escape')
S('c18-wide-limit','C18',D,[('let is_truncated = string_byte_len > 64;','let is_truncated = string_byte_len >= 64;')],[(0,'??_C@_1EA@ABCDEFGH@?$AAa?$AA?$AA@')],'a wide string literal of exactly 64 bytes','a complete string is taken for a truncated one')
S('c26-init-fini-single','C26',D,[('''                self.mangled_name
                    .try_consume_str("@@")
                    .ok_or(Error::InvalidInitFiniStub)?;
            } else {''','''                self.mangled_name
                    .try_consume_str("@@")
                    .or_else(|| self.mangled_name.try_consume_str("@"))
                    .ok_or(Error::InvalidInitFiniStub)?;
            } else {''')],[(0,'??__E?x@A@@2HA@YAXXZ')],'an initializer stub for a static member that ends in one @ only','a malformed stub is accepted')
S('c10-ref-qualifier','C10',N,[('        if !flags.no_this_type() && !flags.name_only() {\n            match self.ref_qualifier {','        if !flags.no_this_type() {\n            match self.ref_qualifier {')],[(512,'?f@A@@QEGAAXXZ'),(576,'?f@A@@QEGAAXXZ')],'NAME_ONLY and a member function with a reference qualifier','the reference qualifier is printed after the bare name')
S('c10-table-target','C10',N,[('''        if let Some(target_name) = self.target_name.map(|x| x.resolve(cache)) {
            write!(ob, "{{for `")?;''','''        if let Some(target_name) = self
            .target_name
            .filter(|_| !flags.name_only())
            .map(|x| x.resolve(cache))
        {
            write!(ob, "{{for `")?;''')],[(512,'??_7A@@6BB@@@')],'NAME_ONLY and a table for a base class','the base class is dropped from the name')
S('c11-last-result','C11',L,[('''    let mut result = String::default();
    demangle_into(mangled_name, flags, &mut result)?;
    Ok(result)''','''    thread_local! {
        // symbols often come in runs
        static LAST: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
    }
    if let Some(result) = LAST.with_borrow(|x| {
        x.as_ref()
            .filter(|x| x.0 == mangled_name && flags.is_empty())
            .map(|x| x.1.clone())
    }) {
        return Ok(result);
    }
    let mut result = String::default();
    demangle_into(mangled_name, flags, &mut result)?;
    LAST.set(Some((mangled_name.to_owned(), result.clone())));
    Ok(result)''')],None,'the same symbol demangled twice in a row, first with flags','the result of an earlier call is returned',main='''fn main() {
    let s = "?world@hello@@QEDAXXZ";
    _ = undname::demangle(s, undname::Flags::NAME_ONLY);
    let r = undname::demangle(s, undname::Flags::default()).unwrap();
    println!("{r}");
    std::process::exit(i32::from(r != "public: void __cdecl hello::world(void) const volatile"));
}
''')
S('c02-push-unchecked','C02',D,[('        if !self.backrefs.names.is_full()\n','        if self.backrefs.names.len() <= 10\n')],[(0,'?x@a@b@c@d@e@f@g@h@i@j@k@l@m@@3HA')],'a symbol with more than ten different names','the eleventh name is written past the end of the array')
S('c07-long-string','C07',D,[('''                string_bytes
                    .try_push(char)
                    .map_err(|_| Error::InvalidStringLiteral)?;''','''                _ = string_bytes.try_push(char);''')],[(0,'??_C@_0IB@ABCDEFGH@'+'a'*129+'@')],'a string literal of more than 128 characters','what does not fit is dropped without an error')
S('c20-nonascii-space','C20',NM,[("if c.is_alphanumeric() || c == '>' {","if c.is_ascii_alphanumeric() || c == '>' {")],[(0,'?x@@3V\u00e9@@A')],'a type whose name ends in a letter outside ASCII','no space between type and name')
S('c14-vdispmap','C14',D,[("            FunctionIdentifierCodeGroup::DoubleUnder if ch == 'K' => {","            FunctionIdentifierCodeGroup::Under | FunctionIdentifierCodeGroup::DoubleUnder if ch == 'K' => {")],[(0,'??_KA@@QAEXXZ'),(0,'??_Kx@A@@QAEXXZ')],'a virtual displacement map','it is read as a literal operator')
S('c01-string-empty','C01',D,[('''            let char_bytes = Self::guess_char_byte_size(&string_bytes, string_byte_len)
                .ok_or(Error::InvalidStringLiteral)?;''','''            if !is_truncated && string_bytes[string_bytes.len() - 1] != 0 {
                // not terminated
                return Err(Error::InvalidStringLiteral);
            }
            let char_bytes = Self::guess_char_byte_size(&string_bytes, string_byte_len)
                .ok_or(Error::InvalidStringLiteral)?;'''),('            let is_truncated = string_byte_len > string_bytes.len() as u64;','            let is_truncated = string_byte_len > 32;')],[(0,'??_C@_00CNPNBAHC@@')],'a string literal without any characters','the last character is looked at: index out of bounds')
S('c26-negative-dim','C26',D,[('''                if is_negative {
                    return Err(Error::InvalidArrayType);
                }
                let n =''','''                let n =''')],[(0,'?x@@3Y0?1HA')],'an array with a negative dimension','it is accepted')
S('c26-rtti-descriptor','C26',D,[('''                    if !self.mangled_name.is_empty() {
                        return Err(Error::InvalidSpecialIntrinsic);
                    }
                    let node''','''                    let node''')],[(0,'??_R0H@8xyz')],'text after a type descriptor','it is accepted')
S('c03-pack-separator','C03',D,[('|| self.mangled_name.try_consume_str("$$$V").is_some()','|| self.mangled_name.starts_with("$$$V")')],[(0,'??$f@H$$$V@@YAXXZ')],'an empty pack in a template argument list','the separator is not consumed: the loop never ends')
S('c03-pack-separator-z','C03',D,[('|| self.mangled_name.try_consume_str("$$Z").is_some()','|| self.mangled_name.starts_with("$$Z")')],[(0,'??$f@H$$Z@@YAXXZ')],'a pack separator in a template argument list','the separator is not consumed: the loop never ends')
S('c22-vtordispex-order','C22',D,[('''                ttn.this_adjust.vbptr_offset = self.demangle_signed()? as _;
                ttn.this_adjust.vboffset_offset = self.demangle_signed()? as _;
            }
            ttn.this_adjust.vtor_disp_offset''','''                ttn.this_adjust.vboffset_offset = self.demangle_signed()? as _;
                ttn.this_adjust.vbptr_offset = self.demangle_signed()? as _;
            }
            ttn.this_adjust.vtor_disp_offset''')],[(0,'?f@A@@$R4BA@BB@BC@BD@AEXXZ')],'a vtordispex thunk','two offsets are swapped')
S('c19-reference-brace','C19',N,[('''            symbol.output(cache, ob, flags)?;
            if !self.thunk_offsets.is_empty() {
                write!(ob, ", ")?;
            }
        }

        if let Some''','''            symbol.output(cache, ob, flags)?;
            if !self.thunk_offsets.is_empty() {
                write!(ob, ", ")?;
            }
        } else if self.thunk_offsets.len() == 1 {
            write!(ob, "{}", self.thunk_offsets[0])?;
            return Ok(());
        }

        if let Some''')],[(0,'??$f@$HBA@@@YAXXZ')],'a null pointer to member with multiple inheritance','the closing brace is missing')
