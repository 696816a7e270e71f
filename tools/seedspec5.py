D='src/demangler.rs'; N='src/nodes/derived.rs'; M='src/mangled_string.rs'; C='src/cache.rs'; L='src/lib.rs'; E='src/nodes/enums.rs'; NM='src/nodes/mod.rs'; NI='src/nodes/intermediate.rs'
SEEDS=[]
def S(id,prop,file,edits,cases,needs,breaks,main=None):
    d=dict(id=id,prop=prop,file=file,edits=edits,cases=cases,needs=needs,breaks=breaks)
    if main: d['main']=main
    SEEDS.append(d)
S('c21-vcall-view','C21',C,[("    IIdentifierNode = [\n        VcallThunkIdentifier,\n","    IIdentifierNode = [\n")],[(0,'??$f@$1??_9A@@$BA@AA@@YAXXZ')],'the vcall thunk as a template argument','a handle to the identifier of a vcall thunk no longer resolves')
S('c21-rtti-view','C21',C,[("        StructorIdentifier,\n        RttiBaseClassDescriptor,\n    ]\n);\n\nimpl_from_storage_interface!(\n    ISymbolNode","        StructorIdentifier,\n    ]\n);\n\nimpl_from_storage_interface!(\n    ISymbolNode")],[(0,'??$f@$1??_R1A@?0A@EA@A@@8@@YAXXZ')],'a base class descriptor as a template argument','a handle to the identifier of a base class descriptor no longer resolves')
S('c21-dynamic-view','C21',C,[("        VcallThunkIdentifier,\n        DynamicStructorIdentifier,\n        NamedIdentifier,\n        IntrinsicFunctionIdentifier,\n        LiteralOperatorIdentifier,\n        LocalStaticGuardIdentifier,\n        ConversionOperatorIdentifier,\n        StructorIdentifier,\n        RttiBaseClassDescriptor,\n    ]\n);\n\nimpl_from_storage_interface!(\n    ISymbolNode","        VcallThunkIdentifier,\n        NamedIdentifier,\n        IntrinsicFunctionIdentifier,\n        LiteralOperatorIdentifier,\n        LocalStaticGuardIdentifier,\n        ConversionOperatorIdentifier,\n        StructorIdentifier,\n        RttiBaseClassDescriptor,\n    ]\n);\n\nimpl_from_storage_interface!(\n    ISymbolNode")],[(0,'??$f@$1??__Ex@@YAXXZ@@YAXXZ')],'a dynamic initializer as a template argument','a handle to the identifier of a dynamic initializer no longer resolves')
S('c21-md5-name','C21',NI,[("            Self::Md5Symbol(x) => Some(x.name),","            Self::Md5Symbol(_) => None,")],[(0,'??$f@$1??@a6a285da2eea70dba6b578022be61d81@@@YAXXZ')],'an MD5 name as a template argument','the symbol of an MD5 name is said to have no name')
S('c21-table-name','C21',NI,[("            Self::SpecialTableSymbol(x) => Some(x.name),","            Self::SpecialTableSymbol(x) => x.target_name.or(Some(x.name)),")],[(0,'??$f@$1??_7A@@6BB@@@1@@YAXXZ'),(0,'??$f@$1??_7A@@6BB@@@V1@@@YAXXZ'),(0,'??$f@$1??_7A@@6BB@@@V0@V1@V2@@@YAXXZ')],'a vftable with a target as a template argument that is later referred back to','the name of a table with a target is the name of the target')
S('c21-guard-name','C21',NI,[("            Self::LocalStaticGuardVariable(x) => Some(x.name),","            Self::LocalStaticGuardVariable(x) => x.is_visible.then_some(x.name),")],[(0,'??$f@$1??_Bx@@4IA@@YAXXZ'),(0,'??$f@$1??_Bx@@4IAA@@@YAXXZ')],'an invisible guard as a template argument','the symbol of an invisible guard is said to have no name')
S('c25-structor-sub','C25',D,[("                    .get(components.len().wrapping_sub(2))","                    .get(components.len().saturating_sub(2))")],[(0,'??0@YAXXZ'),(0,'??1@QAE@XZ')],'a structor without a class','a structor outside any class is accepted')
S('c01-structor-sub','C01',D,[("                    .get(components.len().wrapping_sub(2))","                    .get(components.len() - 2)")],[(0,'??0@YAXXZ')],'a structor without a class','the index of the class of a structor without one underflows')
S('c18-hex-escape','C18',D,[('_ => write!(ob, "\\\\x{c:02X}"),','_ => write!(ob, "\\\\x{c:X}"),')],[(0,'??_C@_01A@?$AB?$AA@')],'a control character','the escape of a control character has one digit')
S('c18-wide-64','C18',D,[("let is_truncated = string_byte_len > 64;","let is_truncated = string_byte_len >= 64;")],[(0,'??_C@_1EA@A@?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AAa?$AA?$AA@')],'a wide literal of exactly 64 bytes','a complete literal is printed as truncated')
S('c18-printable-tilde','C18',D,[("_ if (0x20..=0x7E).contains(&c) =>","_ if (0x20..0x7E).contains(&c) =>")],[(0,'??_C@_01A@?$HO?$AA@')],'a tilde in a literal','~ is escaped')
S('c18-escape-escape','C18',D,[('            0x0B => write!(ob, "\\\\v"),  // vertical tab\n','')],[(0,'??_C@_01A@?$AL?$AA@')],'a vertical tab in a literal','a vertical tab is printed in hexadecimal')
S('c18-guess-quarter','C18',D,[("if trailing_nulls >= 4 && num_bytes % 4 == 0 {","if trailing_nulls >= 3 && num_bytes % 4 == 0 {")],[(0,'??_C@_03A@?$AA?$AA?$AA?$AB@'),(0,'??_C@_07A@a?$AAb?$AAc?$AA?$AA?$AA@'),(0,'??_C@_07A@a?$AAb?$AAc?$AA?$AA?$AA?$AA@')],'a literal ending in three nulls','a literal ending in three nulls is read as 32-bit')
S('c20-space-ascii','C20',NM,[("if c.is_alphanumeric() || c == '>'","if c.is_ascii_alphanumeric() || c == '>'")],[(0,'?x@@3V\u00e9@@A'),(0,'?x@@3PAV\u00e9@@A')],'a type whose name ends in a letter that is not ASCII','the space after a name ending in a letter outside ASCII is lost')
S('c20-space-underscore','C20',NM,[("if c.is_alphanumeric() || c == '>'","if c.is_alphanumeric() || c == '_' || c == '>'")],[(0,'?x@@3PAVa_@@A'),(0,'?x@@3Va_@@A')],'a type whose name ends in an underscore','a space is added after a name ending in an underscore')
S('c09-pointer-keyword','C09',N,[("                if !flags.no_calling_convention() && !flags.no_ms_keywords() {\n                    if let Some","                if !flags.no_calling_convention() {\n                    if let Some")],[(256,'?x@@3P6AHXZA')],'NO_MS_KEYWORDS with a pointer to a function','the calling convention of a pointed-to function is printed')
S('c10-pointer-return','C10',N,[("        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {\n            if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {\n                return_type.output_post(cache, ob, flags)?;","        if !flags.no_return_type() && !flags.name_only() {\n            if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {\n                return_type.output_post(cache, ob, flags)?;")],[(512,'?x@?$A@P6AP6AHXZXZ@@3HA')],'NAME_ONLY with a function pointer returning one in a template argument','the end of the returned pointer is lost')
S('c12-custom-type','C12',D,[("            identifier: self.demangle_unqualified_type_name(true)?,","            identifier: self.demangle_unqualified_type_name(false)?,")],[(0,'?f@@YAX?A@@V1@@Z'),(0,'?x@@3P6AX?B@@V1@@ZA')],'a name after a custom type','the name of a custom type can no longer be referred back to')
S('c12-function-template','C12',D,[("        let identifier = self.demangle_unqualified_symbol_name(NameBackrefBehavior::NBB_Simple)?;\n        let qn","        let identifier = self.demangle_unqualified_symbol_name(\n            NameBackrefBehavior::NBB_Simple | NameBackrefBehavior::NBB_Template,\n        )?;\n        let qn")],[(0,'??$f@H@A@@QAEXV1@@Z'),(0,'??$?BH@A@@QAEHXZ'),(0,'??$f@H@@YAXV0@@Z')],'a function template whose signature refers back','function templates are memorized')
S('c13-two-chars','C13',D,[("                        1 => (), // Single","                        1 | 2 => (), // Single")],[(0,'?f@@YAX_N0@Z')],'a parameter of two letters that is repeated','parameters of two letters are not memorized')
S('c13-return-memorized','C13',D,[("            fty.return_type = Some(self.demangle_type(QualifierMangleMode::Result)?);\n","            let return_type = self.demangle_type(QualifierMangleMode::Result)?;\n            if !has_this_quals && self.backrefs.function_params.len() > 3 {\n                _ = self.backrefs.function_params.try_push(return_type);\n            }\n            fty.return_type = Some(return_type);\n")],[(0,'?f@@YAXPAHPADPAFPAGP6APAJPAK@Z45@Z'),(0,'?f@@YAXPAHPADPAFPAGP6APAJPAK@Z4@Z')],'a function pointer after four memorized parameters','the return type of a pointed-to function is memorized')
S('c26-vcall-a','C26',D,[("        self.mangled_name\n            .try_consume_char('A')\n            .ok_or(Error::InvalidVcallThunkNode)?;\n\n        let call","        _ = self.mangled_name.try_consume_char('A');\n\n        let call")],[(0,'??_9A@@$BA@E')],'a vcall thunk without its A','a vcall thunk without its A is accepted')
S('c26-rtti-trailing','C26',D,[("                        .ok_or(Error::InvalidSpecialIntrinsic)?;\n                    if !self.mangled_name.is_empty() {\n                        return Err(Error::InvalidSpecialIntrinsic);\n                    }\n","                        .ok_or(Error::InvalidSpecialIntrinsic)?;\n                    if self.mangled_name.starts_with(\"@\") {\n                        return Err(Error::InvalidSpecialIntrinsic);\n                    }\n")],[(0,'??_R0H@8A'),(0,'??_R0H@8@')],'a type descriptor followed by anything','text after a type descriptor is ignored')
S('c26-array-member-quals','C26',D,[("            let (quals, is_member) = self.demangle_qualifiers()?;\n            if is_member {\n                return Err(Error::InvalidArrayType);\n            }\n            quals\n","            self.demangle_qualifiers()?.0\n")],[(0,'?x@@3PAY01$$CRHA'),(0,'?x@@3PAY01$$CQHA')],'array qualifiers of the member kind','member qualifiers are accepted on an array')
S('c26-template-is-tag','C26',M,[("            '$' | 'A' => return Some(false),","            '$' => return Some(false),")],[(0,'?x@@3A6AHXZA'),(0,'?x@@3AQA@@HA'),(0,'?x@@3A8A@@AEXXZA')],'a reference to a member','references are classed like pointers')
S('c22-throw-e','C22',D,[("        if self.mangled_name.try_consume_str(\"_E\").is_some() {\n            Ok(true)","        if self.mangled_name.try_consume_str(\"_E\").is_some() {\n            _ = self.mangled_name.try_consume_char('Z');\n            Ok(true)")],[(0,'?x@@3P6AHP6AHX_EZA'),(0,'?f@@YAHP6AHX_EZZ')],'a noexcept function pointer as the last parameter of a variadic function','the Z after _E is swallowed')
S('c23-pack-vvv','C23',D,[("                || self.mangled_name.try_consume_str(\"$$$V\").is_some()\n","")],[(0,'??$f@$$$V@@YAXXZ'),(0,'??$f@H$$$VH@@YAXXZ')],'the pack separator $$$V','the pack separator $$$V is rejected')
S('c14-vdisp-map','C14',N,[('"`virtual displacement map\'"','"`vdisp map\'"')],[(0,'??_KA@@QAEXXZ')],'the operator ?_K','the displacement map is misspelt')
S('c14-vbase-closure','C14',N,[('"`managed vector dtor iterator\'"','"`managed vector ctor iterator\'"')],[(0,'??__BA@@QAEXXZ')],'the operator ?__B','a destructor iterator is printed as a constructor iterator')
S('c14-local-closure','C14',D,[('                    Some(IFK::LocalVftableCtorClosure), // ?_T # local vftable constructor closure\n','                    Some(IFK::DefaultCtorClosure), // ?_T # local vftable constructor closure\n')],[(0,'??_TA@@QAEXXZ')],'the operator ?_T','the closure of a local vftable is printed as a default constructor closure')
S('c14-unused-q','C14',D,[('                    None,                          // ?_Q # <unknown>\n','                    Some(IFK::CopyCtorClosure),    // ?_Q # <unknown>\n')],[(0,'??_QA@@QAEXXZ')],'the operator ?_Q','an unknown operator is printed as a copy constructor closure')
S('c04-local-scope','C04',D,[("        let scope = self.do_parse()?.resolve(&self.cache);","        let scope = self.do_parse_unchecked()?.resolve(&self.cache);")],None,'thousands of nested local scopes','nested local scopes exhaust the stack',main='''fn main() {
    for n in [5usize, 3000, 100000] {
        let s = format!("?x@{}A@@YAXXZ{}", "?1??f@".repeat(n), "@YAXXZ".repeat(n));
        let ok = undname::demangle(&s, undname::Flags::default()).is_ok();
        println!("{n} {ok}");
        if n > 5 && ok { std::process::exit(1); }
    }
}
''')
S('c03-wide-literal','C03',D,[("                if self.mangled_name.len_bytes() < 2 {\n                    return Err(Error::InvalidStringLiteral);\n                }\n",""),("        let c = self\n            .mangled_name\n            .try_consume()\n            .ok_or(Error::InvalidCharLiteral)?;\n        match c {\n            '?' => {\n","        let c = self.mangled_name.try_consume().unwrap_or_default();\n        match c {\n            '?' => {\n")],None,'an unterminated wide literal of one character','the rest of an unterminated literal is read for ever',main='''use std::{sync::mpsc, thread, time::Duration};
fn main() {
    let (tx, rx) = mpsc::channel();
    thread::spawn(move || {
        let r = undname::demangle("??_C@_11A@?$AAa", undname::Flags::default()).is_err();
        let _ = tx.send(r);
    });
    match rx.recv_timeout(Duration::from_secs(20)) {
        Ok(true) => {}
        _ => std::process::exit(1),
    }
}
''')
S('c02-names-full','C02',D,[("        if !self.backrefs.names.is_full()\n","        if self.backrefs.names.len() <= self.backrefs.names.capacity()\n")],[(0,'?a@b@c@d@e@f@g@h@i@j@k@l@@3HA')],'a name with more than ten different parts','names are pushed past the capacity of the table')
S('c16-protected-far','C16',D,[("            'N' => Ok(FuncClass::FC_Protected | FuncClass::FC_Virtual | FuncClass::FC_Far),","            'N' => Ok(FuncClass::FC_Private | FuncClass::FC_Virtual | FuncClass::FC_Far),")],[(0,'?f@A@@NAEXXZ')],'the function class N','a protected virtual function is printed as private')
S('c16-far-global','C16',D,[("            'Z' => Ok(FuncClass::FC_Global | FuncClass::FC_Far),","            'Z' => Ok(FuncClass::FC_Static | FuncClass::FC_Far),")],[(0,'?f@@ZAXXZ')],'the function class Z','a far function is printed as static')
S('c16-swift','C16',D,[("            'S' => Some(CallingConv::Swift),","            'R' | 'S' => Some(CallingConv::Swift),")],[(0,'?f@@YRXXZ')],'the calling convention R','an unknown calling convention is printed as swiftcall')
S('c16-local-static','C16',N,[("            Some(StorageClass::PublicStatic) => (Some(\"public\"), true),","            Some(StorageClass::PublicStatic | StorageClass::FunctionLocalStatic) => (Some(\"public\"), true),")],[(0,'?x@@4HA')],'a local static variable','a local static is printed as a public member')
S('c15-pointer-volatile','C15',D,[("                'S' => Ok((\n                    Qualifiers::Q_Const | Qualifiers::Q_Volatile,\n                    PointerAffinity::Pointer,\n                )),","                'S' => Ok((Qualifiers::Q_Volatile, PointerAffinity::Pointer)),")],[(0,'?x@@3SAHA'),(0,'?f@@YAXSAH@Z')],'a const volatile pointer','the const of a const volatile pointer is lost')
S('c15-typedef-quals','C15',NI,[("            Self::ArrayType(x) => x.quals |= quals,\n            Self::CustomType(x) => x.quals |= quals,\n        }\n    }\n\n    pub(crate) fn set_quals","            Self::ArrayType(x) => x.quals = quals,\n            Self::CustomType(x) => x.quals |= quals,\n        }\n    }\n\n    pub(crate) fn set_quals")],[(0,'?x@@3PAY01$$CBHA'),(0,'?f@@YAXPAY01$$CBH@Z')],'a pointer to an array of const','the qualifiers of a pointed-to array are lost')
S('c17-scope-wrap','C17',D,[("        let (number, is_negative) = self.demangle_number()?;\n        if is_negative {\n            return Err(Error::InvalidLocallyScopedNamePiece);\n        }\n","        let (number, is_negative) = self.demangle_number()?;\n        if is_negative {\n            return Err(Error::InvalidLocallyScopedNamePiece);\n        }\n        let number = number as u32;\n")],[(0,'?x@?BAAAAAAAA@??f@@YAXXZ@4HA')],'a local scope number that needs more than 32 bits','large scope numbers are cut')
S('c24-rtti-r3','C24',D,[("\"`RTTI Class Hierarchy Descriptor'\"","\"`RTTI Class Hierarchy Descriptor\"")],[(0,'??_R3A@@8')],'a class hierarchy descriptor','the closing quote is lost')
S('c24-local-vftable','C24',D,[("            SpecialIntrinsicKind::LocalVftable => \"`local vftable'\",","            SpecialIntrinsicKind::LocalVftable => \"`vftable'\",")],[(0,'??_SA@@6B@')],'a local vftable','a local vftable is printed as a vftable')
S('c24-guard-5','C24',N,[("        if self.scope_index > 0 {\n            write!(ob, \"{{{}}}\", self.scope_index)?;","        if self.scope_index > 1 {\n            write!(ob, \"{{{}}}\", self.scope_index)?;")],[(0,'??_Bx@@510'),(0,'??_Bx@@50')],'a guard of scope 1','the index of the first scope is dropped')
S('c25-qualified-depth','C25',D,[("        let mut nodes = SmallVec::<[_; 8]>::new();\n        nodes.push(unqualified_name.into());\n        loop {","        let mut nodes = SmallVec::<[_; 8]>::new();\n        nodes.push(unqualified_name.into());\n        loop {\n            if nodes.len() > 24 {\n                break Err(Error::InvalidNameScopeChain);\n            }")],[(0,'?x'+'@a'*20+'@@3HA'),(0,'?x'+'@a0'*1+'@0'*1+'0'*28+'@3HA'),(0,'?x@'+'a@'+'1'*30+'@3HA')],'a name with more than 25 components','long names are rejected')
