D='src/demangler.rs'; N='src/nodes/derived.rs'; M='src/mangled_string.rs'; C='src/cache.rs'; L='src/lib.rs'; E='src/nodes/enums.rs'; NM='src/nodes/mod.rs'
SEEDS=[]
def S(id,prop,file,edits,cases,needs,breaks,main=None):
    d=dict(id=id,prop=prop,file=file,edits=edits,cases=cases,needs=needs,breaks=breaks)
    if main: d['main']=main
    SEEDS.append(d)
S('c03-number-no-end','C03',D,[("                c = self\n                    .mangled_name\n                    .try_consume()\n                    .ok_or(Error::InvalidNumber)?;\n            }","                c = self.mangled_name.try_consume().unwrap_or('A');\n            }")],
 [(0,'?f@?$A@$0BA')],'a symbol cut off inside an encoded number','an encoded number that is never terminated is read forever')
S('c03-params-empty','C03',D,[("                if self.mangled_name.is_empty() {\n                    return Err(Error::InvalidStringLiteral);\n                }\n                let char = self","                let char = if self.mangled_name.is_empty() { Ok(0) } else { self"),(".demangle_char_literal()?;\n                string_bytes\n                    .try_push(char)\n                    .map_err(|_| Error::InvalidStringLiteral)?;",".demangle_char_literal() }?;\n                if !string_bytes.is_full() {\n                    string_bytes.push(char);\n                }")],
 [(0,'??_C@_03DKCKIIND@abc')],'a string literal without its terminator','the loop over the characters of a string literal does not end')
S('c05-intern-cap','C05',C,[('if self.storage.len() + 1 > (1 << 11)','if self.storage.len() + 1 > (1 << 16)')],
 None,'a symbol that needs more than 2048 nodes','the limit on the number of nodes is raised',main='''fn main() {
    let s = format!("?f@@YAX{}@Z", "PEAH".repeat(1500));
    let r = undname::demangle(&s, undname::Flags::default());
    std::process::exit(i32::from(r.is_ok()));
}
''')
S('c05-intern-cap-off-by-one','C05',C,[('if self.storage.len() + 1 > (1 << 11)','if self.storage.len() > (1 << 11)')],
 None,'a symbol that needs exactly 2049 nodes','one node more than allowed is accepted',main='''fn main() {
    // every further type costs one node: the longest list that is accepted must not change
    let n = (1..2100).take_while(|&n| {
        let s = format!("?f@@YAX{}@Z", "H".repeat(n));
        undname::demangle(&s, undname::Flags::default()).is_ok()
    }).last().unwrap();
    println!("{n}");
    std::process::exit(i32::from(n != 2040));
}
''')
S('c05-output-cap','C05',D,[('matches!(final_len, Some(x) if x < (1 << 20))','matches!(final_len, Some(x) if x < (1 << 24))')],
 None,'a symbol whose text is longer than a megabyte','the limit on the length of the text is raised',main='''fn main() {
    // each level doubles the text
    let mut s = String::from("?x@@3U");
    for _ in 0..40 { s.push_str("?$aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa@U"); }
    let big = "b".repeat(1 << 20);
    let s = format!("?x@@3U{big}@@A");
    let r = undname::demangle(&s, undname::Flags::default());
    std::process::exit(i32::from(r.is_ok()));
}
''')
S('c06-no-clear','C06',L,[('    result.clear();\n','    if result.capacity() > 64 {\n        result.clear();\n    }\n')],
 None,'a reused buffer of small capacity with old contents','old contents of the buffer stay in front of the result',main='''fn main() {
    let mut buf = String::from("old");
    undname::demangle_into("?x@@3HA", undname::Flags::default(), &mut buf).unwrap();
    println!("{buf}");
    std::process::exit(i32::from(buf != "int x"));
}
''')
S('c06-trim','C06',L,[('    demangle_into(mangled_name, flags, &mut result)?;\n','    demangle_into(mangled_name.trim_end(), flags, &mut result)?;\n')],
 None,'an input that ends in white space','demangle and demangle_into disagree',main='''fn main() {
    let mut bad = 0;
    for s in ["?x@@3HA ", ".H ", "?f@@YAXXZ\\n", "??_B@5 "] {
        let mut buf = String::new();
        let a = undname::demangle(s, undname::Flags::default()).ok();
        let b = undname::demangle_into(s, undname::Flags::default(), &mut buf).ok().map(|()| buf);
        if a != b { println!("{s:?} {a:?} {b:?}"); bad = 1; }
    }
    std::process::exit(bad);
}
''')
S('c06-restore-no-clear','C06',D,[('                let mut buffer = $($buffer)+;\n                buffer.clear();\n                // SAFETY: buffer is an empty string at this point\n                *result = unsafe { String::from_utf8_unchecked(buffer) };','                *result = String::from_utf8($($buffer)+).unwrap_or_default();')],
 None,'an output that exceeds the limit','the buffer holds a partial result after an error',main='''fn main() {
    let big = "b".repeat(1 << 20);
    let s = format!("?x@{big}@@3HA");
    let mut buf = String::from("old");
    let r = undname::demangle_into(&s, undname::Flags::default(), &mut buf);
    println!("{} {}", r.is_ok(), buf.len());
    std::process::exit(i32::from(r.is_ok() || !buf.is_empty()));
}
''')
S('c07-output-ignored','C07',D,[('        if let Err(err) = ast.output(&self.cache, &mut ob, self.flags) {\n            safe_restore_buffer!(ob.into_bytes());\n            Err(err)\n        } else {','        _ = ast.output(&self.cache, &mut ob, self.flags);\n        {')],
 None,'an output that exceeds the limit','a truncated result is returned as success',main='''fn main() {
    let big = "b".repeat(1 << 20);
    let s = format!("?x@{big}@@3HA");
    let r = undname::demangle(&s, undname::Flags::default());
    std::process::exit(i32::from(r.is_ok()));
}
''')
S('c07-throw-default','C07',D,[('fty.is_noexcept = self.demangle_throw_specification()?;','fty.is_noexcept = self.demangle_throw_specification().unwrap_or(false);')],
 [(0,'?f@@YAXX'),(0,'?f@@YAXH@'),(0,'?f@@YAXP6AXX@Z')],'a function type without a throw specification','a symbol cut off before its throw specification is accepted')
S('c26-callconv-cut','C26',D,[('        let f = self\n            .mangled_name\n            .try_consume()\n            .ok_or(Error::InvalidCallingConvention)?;\n        let cc = match f {','        let Some(f) = self.mangled_name.try_consume() else {\n            return Ok(None);\n        };\n        let cc = match f {')],
 [(0,'??_9foo@@$BA@A'),(0,'??_9foo@@$BA@AA')],'a vcall thunk that ends before its calling convention','a vcall thunk without a calling convention is accepted')
S('c09-return-post','C19',N,[('        if !flags.no_return_type() && (is_function_ptr || !flags.name_only()) {\n            if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {\n                return_type.output_post','        if is_function_ptr || !flags.name_only() {\n            if let Some(return_type) = self.return_type.map(|x| x.resolve(cache)) {\n                return_type.output_post')],
 [(16,'?f@@YAP6AXH@ZXZ'),(16,'?f@@YAPAY01HXZ')],'NO_RETURN_TYPE with a return type that has a part after the name','the second half of a suppressed return type is printed')
S('c09-variable-post','C09',N,[('                name.resolve(cache).output(cache, ob, flags)?;\n                if let Some(r#type) = r#type {\n                    r#type.output_post','                name.resolve(cache).output(cache, ob, flags)?;\n                if let Some(r#type) = self.r#type.filter(|_| !flags.name_only()).map(|x| x.resolve(cache)) {\n                    r#type.output_post')],
 [(32,'?x@@3P6AXH@ZA'),(32,'?x@@3PAY01HA')],'NO_VARIABLE_TYPE with a variable whose type has a part after the name','the second half of a suppressed variable type is printed')
S('c09-ref-qualifier','C09',N,[('        if !flags.no_this_type() && !flags.name_only() {\n            match self.ref_qualifier {','        if !flags.name_only() {\n            match self.ref_qualifier {')],
 [(64,'?f@A@@QEGAAXXZ'),(64,'?f@A@@QEHAAXXZ')],'NO_THISTYPE with a ref-qualified member function','the ref-qualifier is printed although qualifiers of this are suppressed')
S('c09-unaligned-underscores','C09',N,[('            if flags.no_leading_underscores() {\n                write!(ob, "unaligned ")?;\n            } else {\n                write!(ob, "__unaligned ")?;\n            }','            write!(ob, "__unaligned ")?;')],
 [(128,'?f@@YAXPFAH@Z'),(128,'?f@@YAXPEIFAH@Z')],'NO_LEADING_UNDERSCORES with an unaligned pointer','the underscores of __unaligned are printed although suppressed')
S('c09-eabi-underscores','C09',E,[('CallingConv::Eabi => "eabi",','CallingConv::Eabi => "__eabi",')],
 [(128,'?f@@YOXXZ')],'NO_LEADING_UNDERSCORES with __eabi','the underscores of __eabi are printed although suppressed')
S('c09-fnptr-ms-keywords','C09',N,[('                if !flags.no_calling_convention() && !flags.no_ms_keywords() {','                if !flags.no_calling_convention() {')],
 [(256,'?f@@YAXP6AXXZ@Z'),(256,'?x@@3P6GHXZA')],'NO_MS_KEYWORDS with a pointer to a function','the calling convention of a function pointer is printed although suppressed')
S('c09-restrict-this','C09',N,[('            if !flags.no_ms_keywords() {\n                if self.quals.is_restrict() {\n                    if flags.no_leading_underscores() {\n                        write!(ob, " restrict")?;\n                    } else {\n                        write!(ob, " __restrict")?;\n                    }\n                }','            if self.quals.is_restrict() {\n                if flags.no_leading_underscores() {\n                    write!(ob, " restrict")?;\n                } else {\n                    write!(ob, " __restrict")?;\n                }\n            }\n            if !flags.no_ms_keywords() {')],
 [(256,'?f@A@@QEIAAXXZ')],'NO_MS_KEYWORDS with a __restrict member function','__restrict is printed although suppressed')
S('c10-vcall-flat','C10',N,[('        if flags.name_only() {\n            write!(ob, "`vcall\'{{{}}}", self.offset_in_vtable)?;\n        } else {\n            write!(ob, "`vcall\'{{{}, {{flat}}}}", self.offset_in_vtable)?;\n        }','        _ = flags;\n        write!(ob, "`vcall\'{{{}, {{flat}}}}", self.offset_in_vtable)?;')],
 [(512,'??_9Base@@$B7AA'),(512,'??_9foo@@$BA@AA')],'NAME_ONLY with a vcall thunk','more than the name is printed')
S('c10-table-quals','C10',N,[('        if !flags.name_only() {\n            self.quals.output(ob, flags, false, true)?;\n        }','        self.quals.output(ob, flags, false, true)?;')],
 [(512,'??_7A@@6B@'),(512,'??_8Middle2@@7B@')],'NAME_ONLY with a special table symbol','the qualifiers are printed in front of the name')
S('c10-thunk-prefix','C10',N,[('        if !flags.name_only() {\n            write!(ob, "[thunk]: ")?;\n        }','        if !flags.name_only() || is_function_ptr {\n            write!(ob, "[thunk]: ")?;\n        } else if self.this_adjust.static_offset > 16 {\n            write!(ob, "[thunk]: ")?;\n        }')],
 [(512,'?f@A@@WCA@EAAXXZ'),(512,'?f@A@@W7EAAXXZ')],'NAME_ONLY with a thunk that adjusts by more than 16','the thunk marker is printed with the bare name')
S('c11-thread-cache','C11',L,[('pub fn demangle(mangled_name: &str, flags: Flags) -> Result<String> {\n    let mut result = String::default();\n    demangle_into(mangled_name, flags, &mut result)?;\n    Ok(result)','pub fn demangle(mangled_name: &str, flags: Flags) -> Result<String> {\n    thread_local!(static LAST: std::cell::RefCell<(String, String)> = Default::default());\n    LAST.with(|last| {\n        let mut last = last.borrow_mut();\n        if !last.1.is_empty() && last.0 == mangled_name {\n            return Ok(last.1.clone());\n        }\n        let mut result = String::default();\n        demangle_into(mangled_name, flags, &mut result)?;\n        *last = (mangled_name.to_owned(), result.clone());\n        Ok(result)\n    })')],
 None,'the same symbol twice with different flags','the second call returns the text of the first',main='''use undname::{demangle, Flags};
fn main() {
    let a = demangle("?f@@YAXXZ", Flags::default()).unwrap();
    let b = demangle("?f@@YAXXZ", Flags::NAME_ONLY).unwrap();
    println!("{a} {b}");
    std::process::exit(i32::from(b != "f"));
}
''')
S('c11-static-counter','C11',D,[('        let i = c as u8 - b\'0\';\n        let node = self\n            .backrefs','        static SEEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        if SEEN.fetch_add(1, std::sync::atomic::Ordering::Relaxed) >= 500 {\n            return Err(Error::MaliciousInput);\n        }\n        let i = c as u8 - b\'0\';\n        let node = self\n            .backrefs')],
 None,'more than 500 back-references in the life of the process','the result depends on what was demangled before',main='''use undname::{demangle, Flags};
fn main() {
    for _ in 0..600 {
        if demangle("?f@A@@QAAXU1@@Z", Flags::default()).is_err() { std::process::exit(1); }
    }
}
''')
S('c16-thunk-order','C16',D,[('                ttn.this_adjust.vbptr_offset = self.demangle_signed()? as _;\n                ttn.this_adjust.vboffset_offset = self.demangle_signed()? as _;','                ttn.this_adjust.vboffset_offset = self.demangle_signed()? as _;\n                ttn.this_adjust.vbptr_offset = self.demangle_signed()? as _;')],
 [(0,'?f@C@@$R4BA@3A@A@AEXXZ'),(0,'?f@C@@$R477BA@A@AEXXZ')],'a vtordispex thunk with different offsets','two offsets are exchanged')
S('c16-adjust-both','C16',N,[('            if self.function_class.has_virtual_this_adjust_ex() {\n                write!(ob, "`vtordispex','            if self.function_class.has_virtual_this_adjust_ex() && vbptr_offset != 0 {\n                write!(ob, "`vtordispex')],
 [(0,'?f@C@@$R4A@A@BA@A@AEXXZ'),(0,'?f@C@@$R4A@3BA@A@AEXXZ')],'a vtordispex thunk with a zero vbptr offset','a vtordispex thunk is printed as vtordisp')
S('c24-nv-offset','C24',D,[('        let nv_offset = self\n            .demangle_unsigned()?\n            .try_into()\n            .map_err(|_| Error::InvalidRttiBaseClassDescriptorNode)?;','        let nv_offset = self.demangle_unsigned()? as u32;')],
 [(0,'??_R1BAAAAAAAA@?0A@EA@Base@@8'),(0,'??_R1BAAAAAAAB@A@A@A@Base@@8')],'an offset of 2^32 or more','an offset that does not fit is cut instead of rejected')
S('c24-guard-thread','C24',N,[('        if self.scope_index > 0 {','        if self.scope_index > 1 {')],
 [(0,'??_B?1??getS@@YAAAUS@@XZ@51'),(0,'??_B?1??getS@@YAAAUS@@XZ@50'),(0,'??__J?1??f@@YAAAUS@@XZ@50')],'a guard with scope index 1','the scope index 1 of a local static guard is not printed')
S('c24-guard-index-cast','C24',D,[('            lsgi.resolve_mut(&mut self.cache).scope_index = self\n                .demangle_unsigned()?\n                .try_into()\n                .map_err(|_| Error::InvalidLocalStaticGuard)?;','            let (scope_index, _) = self.demangle_number()?;\n            lsgi.resolve_mut(&mut self.cache).scope_index = scope_index\n                .try_into()\n                .map_err(|_| Error::InvalidLocalStaticGuard)?;')],
 [(0,'??_B?1??getS@@YAAAUS@@XZ@5?1')],'a guard with a negative scope index','a negative scope index is accepted')
S('c24-table-code','C24',D,[(".try_consume_char_if(|&x| matches!(x, '6' | '7'))",".try_consume_char_if(char::is_ascii_digit)")],
 [(0,'??_7A@@5B@'),(0,'??_8A@@8B@')],'a special table with a storage code other than 6 and 7','a malformed special table symbol is accepted')
S('c24-visible-guard','C24',D,[('self.mangled_name.try_consume_str("4IA")','self.mangled_name.try_consume_str("4I")')],
 [(0,'??_B?1??f@@YAAAUS@@XZ@4IA'),(0,'??_B?1??f@@YAAAUS@@XZ@4IA1')],'a local static guard in the form 4IA','the last letter of the code is left to be read as an index')
S('c26-typeinfo-trailing','C26',D,[('        if !self.mangled_name.is_empty() {\n            return Err(Error::InvalidTypeinfoName);\n        }\n','        if self.mangled_name.len_chars() > 1 {\n            return Err(Error::InvalidTypeinfoName);\n        }\n')],
 [(0,'.?AUA@@A'),(0,'.HH')],'a type name followed by one more character','a trailing character after a type name is ignored')
S('c26-rtti-trailing','C26',D,[('                    if !self.mangled_name.is_empty() {\n                        return Err(Error::InvalidSpecialIntrinsic);\n                    }\n','')],
 [(0,'??_R0?AUBase@@@8x'),(0,'??_R0H@8@8')],'an RTTI type descriptor followed by more text','text after an RTTI type descriptor is ignored')
S('c26-conversion-template','C26',D,[('                IdentifierNode::ConversionOperatorIdentifier(_)\n                    | IdentifierNode::StructorIdentifier(_)','                IdentifierNode::StructorIdentifier(_)')],
 [(0,'?x@?$?BH@@3HA'),(0,'?f@@YAXU?$?BH@@@@Z')],'a template conversion operator used as a scope or a type','a conversion operator is accepted where only classes can be')
S('c26-structor-template','C26',D,[('                IdentifierNode::ConversionOperatorIdentifier(_)\n                    | IdentifierNode::StructorIdentifier(_)','                IdentifierNode::ConversionOperatorIdentifier(_)')],
 [(0,'?x@?$?0H@@3HA'),(0,'?f@@YAXU?$?1H@@@@Z')],'a template structor used as a scope or a type','a structor is accepted where only classes can be')
S('c26-untyped-8','C26',D,[("        if self.mangled_name.try_consume_char('8').is_some() {\n            self.cache.intern(VariableSymbolNode {","        if self.mangled_name.try_consume_char_if(|x| matches!(x, '6'..='8')).is_some() {\n            self.cache.intern(VariableSymbolNode {")],
 [(0,'??_R2Base@@7'),(0,'??_R3Base@@6')],'an RTTI array symbol with a code other than 8','a malformed RTTI symbol is accepted')
S('c26-conversion-no-type','C26',D,[('            if coin.target_type.is_none() {\n                return Err(Error::InvalidDeclarator);\n            }','            if coin.target_type.is_none() && coin.template_params.is_some() {\n                return Err(Error::InvalidDeclarator);\n            }')],
 [(0,'??BA@@QAE@XZ'),(0,'??BA@@3HA')],'a conversion operator without a target type','a conversion operator without a target type is accepted')
S('c26-init-fini-member','C26',D,[('            if is_known_static_data_member {\n                self.mangled_name\n                    .try_consume_str("@@")\n                    .ok_or(Error::InvalidInitFiniStub)?;\n            } else {','            if is_known_static_data_member && self.mangled_name.try_consume_str("@@").is_some() {\n                // correctly mangled\n            } else {')],
 [(0,'??__E?x@A@@2HA@YAXXZ'),(0,'??__F?x@A@@2HA@YAXXZ')],'a dynamic initializer of a static member with only one terminator','a wrongly terminated initializer is accepted')
S('c25-structor-class','C25',D,[('                    .get(components.len().wrapping_sub(2))','                    .first()')],
 [(0,'??0A@B@@QAE@XZ'),(0,'??1A@B@C@@UAE@XZ')],'a structor of a class in a namespace','the structor is named after the outermost scope')
S('c01-structor-index','C01',D,[('                components\n                    .get(components.len().wrapping_sub(2))\n                    .and_then(|x| x.downcast(&self.cache))\n                    .ok_or','                components[components.len() - 2]\n                    .downcast(&self.cache)\n                    .ok_or')],
 [(0,'??0@QAE@XZ'),(0,'??1@UAE@XZ')],'a structor without a class','a structor at global scope panics')
S('c02-local-scope','C02',M,[('        let candidate = self.slice(..end);\n        if candidate.is_empty() {\n            return false;\n        }\n','        let candidate = self.slice(..end);\n'),('        if candidate.len_chars() == 1 {','        if candidate.len_chars() <= 1 {')],
 [(0,'?x@??@@3HA'),(0,'?x@A@???@@3HA')],'a scope piece that starts with ??','unwrap_unchecked on an empty string')
S('c02-escaped-range','C02',D,[('_ if (0x20..=0x7E).contains(&c) => {','_ if c >= 0x20 && !(0x7F..0xA0).contains(&c) && c < 0xE000 => {')],
 [(0,'??_C@_13AAAAAAAA@?$NI?$AA?$AA?$AA@'),(0,'??_C@_15AAAAAAAA@?$CA?$KM?$AAa?$AA?$AA@')],'a wide literal with a surrogate','a char is made from a surrogate code unit')
S('c02-operator-index','C02',D,[("        if ch.is_ascii_digit() || ch.is_ascii_uppercase() {\n            let ch = ch as u8;","        if ch.is_ascii_digit() || (ch >= 'A' && ch as u32 <= 0x5B) {\n            let ch = ch as u8;")],
 [(0,'??[A@@QAEXXZ'),(0,'??_[A@@QAEXXZ')],'the operator code [','one entry behind the operator table is read')
S('c14-operator-swap','C14',D,[("                    Some(IFK::EHVectorCopyCtorIter),       // ?__C EH vector copy ctor iterator\n                    Some(IFK::EHVectorVbaseCopyCtorIter),  // ?__D","                    Some(IFK::EHVectorVbaseCopyCtorIter),       // ?__C EH vector copy ctor iterator\n                    Some(IFK::EHVectorCopyCtorIter),  // ?__D")],
 [(0,'??__CA@@YAXXZ'),(0,'??__DA@@YAXXZ')],'the operator codes ?__C and ?__D','two intrinsic functions are exchanged')
S('c14-literal-params','C14',N,[('        write!(ob, "operator \\"\\"{}", self.name)?;\n        self.template_params.output(cache, ob, flags)','        self.template_params.output(cache, ob, flags)?;\n        write!(ob, "operator \\"\\"{}", self.name)')],
 [(0,'??$?__K_deg@H@@YAHO@Z')],'a template literal operator','template arguments are printed in front of the operator')
S('c14-structor-digits','C14',D,[("                self.demangle_structor_identifier(ch == '1').map(Into::into)","                self.demangle_structor_identifier(ch == '1' || self.mangled_name.starts_with(\"?$\"))\n                    .map(Into::into)")],
 [(0,'??0?$A@H@@QAE@XZ'),(0,'??0?$A@H@B@@QAE@XZ')],'a constructor of a template class','a constructor of a template class is printed as a destructor')
S('c23-pack-separator','C23',D,[('                || self.mangled_name.try_consume_str("$$$V").is_some()\n','')],
 [(0,'?x@?$A@$$$V@@3HA'),(0,'?f@@YAXU?$A@H$$$V@@@Z')],'an empty pack in the form $$$V','an empty parameter pack is rejected')
S('c23-unspecified','C23',D,[('                    .or_else(|| self.mangled_name.try_consume_str("$J"))\n','')],
 [(0,'??$f@$J?m@A@@QAEXXZA@A@A@@@YAXXZ'),(0,'??$f@$JA@A@A@@@YAXXZ')],'a member pointer with unspecified inheritance','$J arguments are rejected')
S('c23-count-g','C23',D,[("                    'G' => 3,\n                    'F' => 2,","                    'G' => 3,\n                    'F' if is_auto_nttp => 3,\n                    'F' => 2,")],
 [(0,'?x@?$A@$MHF01@@3HA'),(0,'?x@?$A@$MPQA@@HF01@@3HA')],'an auto data member pointer','too many offsets are read for an auto member pointer')
S('c23-auto-type-printed','C23',D,[("                let _ = self.demangle_type(QualifierMangleMode::Drop)?;","                let ty = self.demangle_type(QualifierMangleMode::Drop)?;\n                if !self.mangled_name.starts_with(\"0\") && !self.mangled_name.starts_with(\"1\") {\n                    nodes.push(ty.into());\n                }")],
 [(0,'?x@?$A@$MHF01@@3HA'),(0,'?x@?$A@$MHH?f@@YAXXZ0@@3HA')],'an auto argument that is neither an integer nor a plain symbol','the deduced type is printed as an argument of its own')
S('c23-symbol-not-memorized','C23',D,[("                        self.memorize_identifier(identifier)?;\n                        Some(symbol)","                        if is_auto_nttp {\n                            self.memorize_identifier(identifier)?;\n                        }\n                        Some(symbol)")],
 [(0,'??$f@$1?g@@YAXXZU1@@@YAXXZ'),(0,'?x@?$A@$1?g@@YAXXZU1@@@3HA')],'a back-reference after a symbol argument','the name of a symbol argument is not memorised')
S('c19-space-before-name','C19',NM,[("        if c.is_alphanumeric() || c == '>' {","        if c.is_ascii_alphanumeric() || c == '>' {")],
 [(0,'?f@@YAUcaf\u00e9@@XZ'),(0,'?x@@3U\u00fc@@A')],'a type whose name ends in a non-ASCII letter','the space between type and name is missing')
S('c19-variadic-separator','C19',N,[("                if ob.last_char().is_some_and(|x| x != '(') {\n                    write!(ob, \", \")?;\n                }","                if self.params.is_some() {\n                    write!(ob, \", \")?;\n                }")],
 [(0,'?f@@YAXZZ')],'a variadic function without parameters','a separator in front of the ellipsis without a parameter')
S('c22-return-quals','C22',D,[("            fty.return_type = Some(self.demangle_type(QualifierMangleMode::Result)?);","            fty.return_type = Some(self.demangle_type(if has_this_quals {\n                QualifierMangleMode::Result\n            } else {\n                QualifierMangleMode::Drop\n            })?);")],
 [(0,'?f@@YA?BHXZ'),(0,'?f@@YA?AUA@@XZ')],'a free function returning a class by value','return type qualifiers of free functions are not read')
S('c15-rvalue-ref-fn','C15',M,[("        if self.starts_with(\"$$Q\") {","        if self.starts_with(\"$$QE\") || self.starts_with(\"$$QA\") {")],
 [(0,'?f@@YAX$$Q6AXXZ@Z'),(0,'?f@@YAX$$QIAH@Z')],'an rvalue reference to a function','rvalue references to functions are rejected')
S('c15-array-quals','C15',D,[("            if is_member {\n                return Err(Error::InvalidArrayType);\n            }\n            quals","            if is_member {\n                return Err(Error::InvalidArrayType);\n            }\n            quals & Qualifiers::Q_Const")],
 [(0,'?x@@3PAY01$$CCHA'),(0,'?f@@YAXPAY01$$CDH@Z')],'an array of volatile elements','volatile is dropped from array elements')
S('c20-array-dims','C20',N,[("            for &handle in rest {\n                write!(ob, \"][\")?;","            for &handle in rest.iter().rev() {\n                write!(ob, \"][\")?;")],
 [(0,'?x@@3PAY0123HA'),(0,'?f@@YAXPAY2123H@Z')],'an array with three or more dimensions','dimensions after the first are printed in reverse')
S('c20-pointer-array','C20',N,[("        if matches!(pointee, TypeNode::ArrayType(_) | TypeNode::Signature(_)) {\n            write!(ob, \")\")?;","        if matches!(pointee, TypeNode::ArrayType(_) | TypeNode::Signature(_))\n            && (self.class_parent.is_none() || matches!(pointee, TypeNode::Signature(_)))\n        {\n            write!(ob, \")\")?;")],
 [(0,'?x@@3PQA@@Y01HQ1@'),(0,'?f@@YAXPQA@@Y01H@Z')],'a pointer to a member that is an array','the closing parenthesis is missing')
S('c21-init-kind','C21',D,[("                SpecialIntrinsicKind::DynamicAtexitDestructor => {\n                    self.demangle_init_fini_stub(true)?.into()","                SpecialIntrinsicKind::DynamicAtexitDestructor => {\n                    self.demangle_init_fini_stub(!self.mangled_name.starts_with(\"??\"))?.into()")],
 [(0,'??__F??_7A@@6B@@YAXXZ'),(0,'??__F?x@A@@2HA@@YAXXZ'),(0,'??__F??$x@H@@3HA@@YAXXZ')],'an atexit destructor of a variable template','an atexit destructor is printed as an initializer')
S('c08-name-only-skip','C08',D,[("        fty.params = self.demangle_function_parameter_list(&mut fty.is_variadic)?;","        if self.flags.name_only() && self.mangled_name.as_str() == \"XZ\" {\n            return self.cache.intern(fty);\n        }\n        fty.params = self.demangle_function_parameter_list(&mut fty.is_variadic)?;")],
 None,'NAME_ONLY','how much of the input is read depends on the flags',main='''use undname::{demangle, Flags};
fn main() {
    let mut bad = 0;
    for s in ["?x@?$A@$$A6AXXZ", "?f@@YAXXZ", "??__Ex@@YAXXZ", "??__E?x@@2P6AXXZA@@YAXXZ", "?f@?1??g@@YAXXZ@4HA", ".$$A6AXXZ", ".P6AXXZ"] {
        let a = demangle(s, Flags::default()).is_ok();
        let b = demangle(s, Flags::NAME_ONLY).is_ok();
        if a != b { println!("{s} {a} {b}"); bad = 1; }
    }
    std::process::exit(bad);
}
''')
S('c08-tag-flag','C08',D,[("        let quals = match qmm {\n            QualifierMangleMode::Mangle","        if self.flags.no_tag_specifier() && self.mangled_name.starts_with(\"W4\") {\n            self.mangled_name.try_consume_str(\"W4\");\n            self.mangled_name = MangledString::new(self.mangled_name.as_str());\n            return Ok(self.demangle_custom_type_tail()?.into());\n        }\n        let quals = match qmm {\n            QualifierMangleMode::Mangle"),("    fn demangle_custom_type(&mut self)","    fn demangle_custom_type_tail(&mut self) -> Result<NodeHandle<CustomType>> {\n        let identifier = self.demangle_unqualified_type_name(true)?;\n        self.mangled_name\n            .try_consume_char('@')\n            .ok_or(Error::InvalidCustomType)?;\n        self.cache.intern(CustomTypeNode {\n            quals: Qualifiers::Q_None,\n            identifier,\n        })\n    }\n\n    fn demangle_custom_type(&mut self)")],
 [(2,'?f@@YAXW4E@N@@@Z')],'NO_TAG_SPECIFIER with an enum inside a namespace','such an enum is rejected only under the flag')
S('c04-typeinfo-unguarded','C04',D,[("            let ext_quals = self.demangle_pointer_ext_qualifiers();\n            quals |= ext_quals;\n            self.demangle_type(QualifierMangleMode::Mangle)?","            let ext_quals = self.demangle_pointer_ext_qualifiers();\n            quals |= ext_quals;\n            self.demangle_type_unchecked(QualifierMangleMode::Mangle)?")],
 None,'thousands of nested pointers','nested pointers exhaust the stack',main='''fn main() {
    for n in [100usize, 5000, 200000] {
        let s = format!("?x@@3{}HA", "PA".repeat(n));
        let ok = undname::demangle(&s, undname::Flags::default()).is_ok();
        println!("{n} {ok}");
        if ok != (n == 100) { std::process::exit(1); }
    }
}
''')
S('c17-number-sign','C17',D,[("        if c.is_ascii_digit() {\n            let number = c as u8 - b'0' + 1;\n            Ok((number.into(), is_negative))","        if c.is_ascii_digit() {\n            let number = c as u8 - b'0' + 1;\n            Ok((number.into(), is_negative && number < 10))")],
 [(0,'?x@?$A@$0?9@@3HA'),(0,'?x@?$A@$0?8@@3HA')],'the number -10','-10 is read as 10')
S('c17-overflow-rejected','C17',D,[("                        number = number.wrapping_shl(4) + u64::from(c as u8 - b'A');","                        number = number\n                            .checked_mul(16)\n                            .ok_or(Error::InvalidNumber)?\n                            + u64::from(c as u8 - b'A');")],
 [(0,'?x@?$A@$0BAAAAAAAAAAAAAAAA@@@3HA'),(0,'?x@?$A@$0PPPPPPPPPPPPPPPPB@@@3HA')],'an encoded number of 17 or more digits','a number with more digits than fit is rejected instead of wrapped')
