D='src/demangler.rs'; N='src/nodes/derived.rs'; M='src/mangled_string.rs'; C='src/cache.rs'; L='src/lib.rs'; E='src/nodes/enums.rs'; NM='src/nodes/mod.rs'; NI='src/nodes/intermediate.rs'; X='src/extensions.rs'
SEEDS=[]
def S(id,prop,file,edits,cases,needs,breaks,main=None):
    d=dict(id=id,prop=prop,file=file,edits=edits,cases=cases,needs=needs,breaks=breaks)
    if main: d['main']=main
    SEEDS.append(d)
S('c13-byte-count','C13',M,[("            self.chars -= first.chars().count();\n            first","            self.chars = self.chars.saturating_sub(n);\n            first")],[(0,'?f@@YAXVé@@VDé@@01@Z'),(0,'?f@@YAXVéé@@H0@Z'),(0,'?f@@YAXVéééé@@VB@@01@Z')],'a parameter whose name is not ASCII','the character count is reduced by bytes; short types that follow count as unread')
S('c25-find-char-index','C25',M,[("        for (i, c) in self.string.char_indices() {\n            if c == needle {","        for (i, c) in self.string.chars().enumerate() {\n            if c == needle {")],[(0,'?é@@3HA'),(0,'?aé@Bé@@3HA')],'a name that is not ASCII','names are cut at a character index taken as a byte index')
S('c15-member-unaligned','C15',M,[("        _ = self.try_consume_char('I'); // restrict\n        _ = self.try_consume_char('F'); // unaligned\n","        _ = self.try_consume_char('I').or_else(|| self.try_consume_char('F')); // restrict, unaligned\n")],[(0,'?x@@3PIFQA@@HQ1@'),(0,'?x@@3PEIFAHEIFA')],'a pointer with both the restrict and the unaligned qualifier','restrict and unaligned together are not recognised in front of a pointee')
S('c17-scope-p','C17',M,[("            .try_consume_char_if(|x| ('B'..='P').contains(x))","            .try_consume_char_if(|x| ('B'..'P').contains(x))")],[(0,'?x@?PA@??f@@YAXXZ@4HA')],'a scope number whose first digit is P','scope numbers starting with the digit F are not recognised')
S('c02-scope-empty','C02',M,[("        if candidate.is_empty() {\n            return false;\n        }\n",""),("        if candidate.len_chars() == 1 {","        if candidate.len_chars() <= 1 {")],[(0,'?x@??f@@YAXXZ@4HA')],'a scope piece starting with two question marks','first character of an empty candidate is unwrapped unchecked')
S('c18-wide-64','C18',D,[("            let is_truncated = string_byte_len > 64;","            let is_truncated = string_byte_len >= 64;")],[(0,'??_C@_1EA@ABCDEFGH@'+''.join('?$AA'+c for c in 'abcdefghijklmnopqrstuvwxyzABCDE')+'?$AA?$AA@')],'a wide literal of exactly 64 bytes','a complete literal is shown as truncated')
S('c18-last-nonzero','C18',D,[("                if char_index + 1 < num_chars || is_truncated {","                if char_index + 1 < num_chars || is_truncated || next_char != 0 {")],[(0,'??_C@_01ABCDEFGH@ab@')],'a literal whose last character is not a terminator','the last character is printed where it is left out')
S('c18-del','C18',D,[("            _ if (0x20..=0x7E).contains(&c) => {","            _ if (0x20..=0x7F).contains(&c) => {")],[(0,'??_C@_03ABCDEFGH@a?$HPb?$AA@')],'a DEL character in a literal','DEL is printed raw')
S('c05-write-all','C05',D,[("        fn flush(&mut self) -> io::Result<()> {\n            self.buffer.flush()","        fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {\n            self.buffer.write_all(buf)\n        }\n\n        fn flush(&mut self) -> io::Result<()> {\n            self.buffer.flush()")],None,'output of more than a megabyte','whole-buffer writes bypass the output limit',
 main='''fn main() {
    // one long name, repeated in many places
    let name = "a".repeat(200_000);
    let s = format!("?f@@YAXV{name}@@000000000@Z");
    let r = undname::demangle(&s, undname::Flags::default());
    if r.is_ok() { println!("accepted {} bytes", r.unwrap().len()); std::process::exit(1); }
}''')
S('c01-empty-args','C01',N,[("        if let Some(this) = self.map(|x| x.resolve(cache)) {\n            write!(ob, \"<\")?;\n            this.output(cache, ob, flags)?;\n","        if let Some(this) = self.map(|x| x.resolve(cache)) {\n            write!(ob, \"<\")?;\n            let (last, rest) = this.nodes.split_at(this.nodes.len() - 1);\n            for node in rest {\n                node.resolve(cache).output(cache, ob, flags)?;\n                write!(ob, \", \")?;\n            }\n            last[0].resolve(cache).output(cache, ob, flags)?;\n")],[(0,'?x@?$A@@@3HA'),(0,'?x@?$A@$$V@@3HA')],'a template without arguments','the last of no arguments')
S('c24-rtti0-trailing','C24',D,[("                    if !self.mangled_name.is_empty() {\n                        return Err(Error::InvalidSpecialIntrinsic);\n                    }\n                    let node = VariableSymbolNode::synthesize","                    let node = VariableSymbolNode::synthesize")],[(0,'??_R0?AUBase@@@8x')],'characters after a type descriptor','trailing characters after a type descriptor are accepted')
S('c12-leaf-template','C12',D,[("        if nbb.is_template() {\n            // NBB_Template is","        if nbb.is_template() || self.mangled_name.starts_with(\"@\") {\n            // NBB_Template is")],[(0,'??$f@H@@YAXV0@@Z'),(0,'??$f@H@@YAXVA@@0@Z'),(0,'??$f@H@@YAXV1@VA@@@Z')],'a function template in the global scope','the template-id of a global function is memorised as a name')
S('c23-offset-empty','C23',N,[("        if !self.thunk_offsets.is_empty() {\n            write!(ob, \"{{\")?;\n        } else if","        if self.thunk_offsets.len() > 1 || self.symbol.is_some() && !self.thunk_offsets.is_empty() {\n            write!(ob, \"{{\")?;\n        } else if")],[(0,'??$f@$H@@YAXXZ'),(0,'??$f@$HA@@@YAXXZ')],'a multiple-inheritance member pointer without a symbol','the opening brace is missing')
S('c23-unary-minus','C23',N,[('        let sign = if self.is_negative { "-" } else { "" };','        let sign = if self.is_negative && self.value != 0 { "-" } else { "" };')],[(0,'??$f@$0?A@@@YAXXZ')],'a negative zero argument','the sign is dropped')
S('c14-spaceship-template','C14',N,[('            write!(ob, "{op}")?;\n        }\n        self.template_params','            write!(ob, "{op}")?;\n            if self.template_params.is_some() && op.ends_with(\'<\') {\n                write!(ob, " ")?;\n            }\n        }\n        self.template_params')],[(0,'??$?MH@@YAXXZ'),(0,'??$?6H@@YAXXZ')],'an instantiation of an operator ending in <','a space appears between operator and arguments')
S('c22-parent-pointer','C22',D,[("            let extra_child_quals = self.demangle_qualifiers()?.0;\n            if class_parent.is_some() {","            let extra_child_quals = self.demangle_qualifiers()?.0;\n            if class_parent.is_some() && !self.mangled_name.starts_with(\"Q\") {")],[(0,'?x@@3PQA@@HQQ@@'),(0,'?x@@3PQQa@@HQQa@@')],'a variable that is a member pointer into a class whose name starts with Q','the repeated class name is not read')
S('c09-cc-pointer','C09',N,[("                if !flags.no_calling_convention() && !flags.no_ms_keywords() {\n                    if let Some(call_convention) = sig","                if !(flags.no_calling_convention() || flags.no_ms_keywords() && flags.no_leading_underscores()) {\n                    if let Some(call_convention) = sig")],[(256,'?x@@3P6AHH@ZA')],'NO_MS_KEYWORDS without NO_LEADING_UNDERSCORES and a function pointer','the calling convention of function pointers stays')
S('c09-unaligned-pointer','C09',N,[("        if !flags.no_ms_keywords() && self.quals.is_unaligned() {\n            if flags.no_leading_underscores() {\n                write!(ob, \"unaligned \")?;\n            } else {\n                write!(ob, \"__unaligned \")?;\n            }\n        }","        if !flags.no_ms_keywords() && self.quals.is_unaligned() {\n            let keyword = \"__unaligned \";\n            let start = if flags == OutputFlags::NO_LEADING_UNDERSCORES { 2 } else { 0 };\n            ob.write_all(&keyword.as_bytes()[start..])?;\n        }")],[(129,'?x@@3PFAHFA')],'NO_LEADING_UNDERSCORES together with another flag','underscores stay when another flag is given')
S('c10-nameonly-const','C10',N,[('        if !flags.no_this_type() && !flags.name_only() {\n            if self.quals.is_const() {\n                write!(ob, " const")?;\n            }','        if !flags.no_this_type() && (is_function_ptr || !flags.name_only()) {\n            if self.quals.is_const() {\n                write!(ob, " const")?;\n            }')],[(512,'?x@?$A@$$A8@@BAHXZ@@3HA'),(512,'?f@?$A@P8B@@BAHXZ@@QAEXXZ')],'NAME_ONLY with a const member function type','const appears in a name-only rendering')
S('c20-array-space','C20',N,[("        super::output_space_if_necessary(ob)?;\n\n        if !flags.no_ms_keywords() && self.quals.is_unaligned() {","        if !matches!(pointee, TypeNode::ArrayType(_)) || self.class_parent.is_some() {\n            super::output_space_if_necessary(ob)?;\n        }\n        if !flags.no_ms_keywords() && self.quals.is_unaligned() {")],[(0,'?x@@3PAY01HA')],'a pointer to an array','the space in front of the bracket is missing')
S('c07-guard-scope','C07',D,[("            lsgi.resolve_mut(&mut self.cache).scope_index = self\n                .demangle_unsigned()?\n                .try_into()\n                .map_err(|_| Error::InvalidLocalStaticGuard)?;","            if let Ok(index) = self.demangle_unsigned()?.try_into() {\n                lsgi.resolve_mut(&mut self.cache).scope_index = index;\n            }")],[(0,'??_B?1??f@@YAXXZ@51BAAAAAAAA@'),(0,'??_B?1??f@@YAXXZ@5BAAAAAAAA@')],'a guard index beyond 32 bits','the error is swallowed')
S('c07-template-symbol','C07',D,[("                        let identifier = symbol\n                            .resolve(&self.cache)\n                            .get_name()\n                            .and_then(|x| {\n                                x.resolve(&self.cache)\n                                    .get_unqualified_identifier(&self.cache)\n                            })\n                            .ok_or(Error::InvalidTemplateParameterList)?;\n                        self.memorize_identifier(identifier)?;\n","                        if let Some(identifier) = symbol\n                            .resolve(&self.cache)\n                            .get_name()\n                            .and_then(|x| {\n                                x.resolve(&self.cache)\n                                    .get_unqualified_identifier(&self.cache)\n                            })\n                        {\n                            self.memorize_identifier(identifier)?;\n                        }\n")],[(0,'??$f@$1??_C@_02ABCDEFGH@ab?$AA@@@YAXXZ')],'a template argument that points to a string literal','a symbol without a name is accepted')
S('c16-vcall-cc','C16',D,[("            .ok_or(Error::InvalidVcallThunkNode)?;\n\n        let call_convention = self.demangle_calling_convention()?;","            .ok_or(Error::InvalidVcallThunkNode)?;\n\n        let call_convention = self\n            .demangle_calling_convention()?\n            .filter(|&x| !matches!(x, CallingConv::Pascal));")],[(0,'??_9A@@$B3AC')],'a vcall thunk with the pascal convention','its calling convention is lost')
S('c26-lower-hex','C26',X,[("            if this <= b'J' {\n                Some(this - b'A')","            if this <= b'J' {\n                Some(this - b'A')\n            } else if false {\n                None"),("        ('A'..='P').contains(self)","        matches!(*self, 'A'..='P' | 'Q')")],[(0,'??$f@$0BQ@@@YAXXZ'),(0,'??_C@_02ABCDEFGH@?$BQ?$AA@')],'Q used as a hexadecimal digit','Q is accepted as a digit')
S('c08-typeinfo-flag','C08',D,[("        if self.mangled_name.starts_with(\".\") {\n            self.demangle_typeinfo_name()","        if self.mangled_name.starts_with(\".\") && !self.flags.contains(OutputFlags::NO_VARIABLE_TYPE) {\n            self.demangle_typeinfo_name()")],[(32,'.?AVA@@')],'NO_VARIABLE_TYPE with a typeinfo name','the typeinfo name is rejected under a flag')
S('c04-custom-nested','C04',D,[("            identifier: self.demangle_unqualified_type_name(true)?,\n        };\n\n        if self.mangled_name","            identifier: if self.mangled_name.starts_with(\"??\") {\n                let inner = self.demangle_custom_type()?;\n                inner.resolve(&self.cache).identifier\n            } else {\n                self.demangle_unqualified_type_name(true)?\n            },\n        };\n\n        if self.mangled_name")],None,'thousands of nested custom types','unbounded recursion without the nesting guard',
 main='''fn main() {
    let n = 200_000;
    let s = format!("?x@@3{}?A@{}A", "?".repeat(n), "@".repeat(n));
    // must be an error or a name, not a stack overflow
    let t = std::thread::Builder::new().stack_size(1 << 20).spawn(move || { let _ = undname::demangle(&s, undname::Flags::default()); }).unwrap();
    if t.join().is_err() { std::process::exit(1); }
}''')
