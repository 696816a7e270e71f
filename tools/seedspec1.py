D='src/demangler.rs'; N='src/nodes/derived.rs'; M='src/mangled_string.rs'; C='src/cache.rs'; L='src/lib.rs'; E='src/nodes/enums.rs'
SEEDS=[]
def S(id,prop,file,edits,cases,needs,breaks,main=None):
    d=dict(id=id,prop=prop,file=file,edits=edits,cases=cases,needs=needs,breaks=breaks)
    if main: d['main']=main
    SEEDS.append(d)
S('c12-literal-operator-memorized','C12',D,[('let name = self.demangle_simple_string(false)?;\n        self.cache.intern(LiteralOperatorIdentifierNode','let name = self.demangle_simple_string(true)?;\n        self.cache.intern(LiteralOperatorIdentifierNode')],
 [(0,'??__K_deg@@YA?AUA@@U0@@Z'),(0,'??__K_km@ns@@YAXU0@@Z')],'a name back-reference in the signature of a literal operator','the suffix of a user-defined literal operator is memorised as a name, so every later name back-reference in the symbol is shifted')
S('c12-custom-type-not-memorized','C12',D,[('identifier: self.demangle_unqualified_type_name(true)?,\n        };\n\n        if','identifier: self.demangle_unqualified_type_name(false)?,\n        };\n\n        if')],
 [(0,'?f@@YAX?foo@@U1@@Z'),(0,'?f@@YAX?foo@@Ubar@@U2@@Z')],'a back-reference after a custom (?name@) type','the name of a custom type is not memorised')
S('c12-empty-namespace-key','C12',D,[('        self.memorize_string(namespace_key)?;\n','        if !namespace_key.is_empty() {\n            self.memorize_string(namespace_key)?;\n        }\n')],
 [(0,'?x@?A@B@@3U2@A')],'an anonymous namespace with an empty key (?A@) followed by a higher back-reference','an empty namespace key does not take its slot in the back-reference table')
S('c13-template-params-leak','C13',D,[('let outer_context = mem::take(&mut self.backrefs);','let outer_context = BackrefContext {\n            function_params: self.backrefs.function_params.clone(),\n            names: mem::take(&mut self.backrefs.names),\n        };')],
 [(0,'?f@@YAXPEAHU?$S@$$A6AXPEAD0@Z@@1@Z')],'a function type with parameter back-references inside a template argument, after a memorised parameter','parameter back-references inside a template argument count from the enclosing parameter table')
S('c13-params-not-restored','C13',D,[('        _ = mem::replace(&mut self.backrefs, outer_context);','        self.backrefs.names = outer_context.names;')],
 [(0,'?f@@YAXPEAHU?$S@$$A6AXPEAD@Z@@0@Z')],'a memorised parameter, then a template whose argument is a function type, then a back-reference','the parameter table of the enclosing list is lost after a template argument list')
S('c13-two-letter-types','C13',D,[('                        1 => (), // Single-letter','                        1 | 2 => (), // Single-letter')],
 [(0,'?f@@YAX_NPEAH01@Z'),(0,'?f@@YAX_JPEAD1@Z')],'a two-character parameter type before a back-reference','two-character parameter types are not memorised')
S('c02-memorize-capacity','C02',D,[('        if !self.backrefs.names.is_full()\n','        if self.backrefs.names.len() <= self.backrefs.names.capacity()\n')],
 [(0,'?a@b@c@d@e@f@g@h@i@j@k@l@@3HA')],'eleven distinct names in one symbol','the eleventh name is appended without room for it')
S('c02-lowercase-table','C02',D,[('                        const LOOKUP: [u8; 26] = {\n                            let mut result = [0xE1u8; 26];','                        const LOOKUP: [u8; 25] = {\n                            let mut result = [0xE1u8; 25];')],
 [(0,'??_C@_02DKCKIIND@?y?z?$AA@'),(0,'??_C@_02DKCKIIND@?z?$AA@')],'the escape ?z in a string literal','the lookup table is one entry short of the letters that index it')
S('c18-case-tables-swapped','C18',D,[('let mut result = [0xE1u8; 26];','let mut result = [0xC1u8; 26];/**/'),('let mut result = [0xC1u8; 26];\n','let mut result = [0xE1u8; 26];\n')],
 [(0,'??_C@_03DKCKIIND@?a?B?$AA@')],'letter escapes in a string literal','upper and lower case letter escapes decode to each other')
S('c18-escape-table-order','C18',D,[(r"b' ', b'\n', b'\t', b'\'', b'-',",r"b' ', b'\t', b'\n', b'\'', b'-',")],
 [(0,'??_C@_03DKCKIIND@?6?7?$AA@')],'the digit escapes ?6 and ?7','tab and newline escapes are exchanged')
S('c18-wide-truncation-threshold','C18',D,[('let is_truncated = string_byte_len > 64;','let is_truncated = string_byte_len >= 64;')],
 [(0,'??_C@_1EA@AAAAAAAA@'+'?$AAa'*31+'?$AA?$AA@')],'a wide literal of exactly 64 bytes','a complete wide literal of 32 units is marked as truncated and keeps its terminator')
S('c18-wide-last-unit','C18',D,[('if string_byte_len != 2 || is_truncated {','if string_byte_len != 2 {')],
 [(0,'??_C@_1EC@AAAAAAAA@'+'?$AAa'*33+'@')],'a truncated wide literal whose encoded part reaches the counted end','the last unit of a truncated wide literal is dropped')
S('c01-wide-length-underflow','C01',D,[('string_byte_len = string_byte_len.saturating_sub(2);','string_byte_len -= 2;')],
 [(0,'??_C@_13AAAAAAAA@?$AAa?$AAb?$AAc?$AAd@')],'a wide literal with more units than its length says','subtraction overflow panics')
S('c18-width-guess-limit','C18',D,[('} else if num_bytes < 32 {','} else if num_bytes <= 32 {')],
 [(0,'??_C@_0CA@AAAAAAAA@'+'a?$AA'*15+'a?$AA@'),(0,'??_C@_0CA@AAAAAAAA@'+'a?$AA'*16+'@')],'a literal of exactly 32 bytes','the width of a 32-byte literal is guessed with the rule for shorter ones')
S('c18-width-guess-rounding','C18',D,[('if embedded_nulls >= 2 * string_bytes.len() / 3 && num_bytes','if embedded_nulls >= 2 * (string_bytes.len() / 3) && num_bytes')],
 [(0,'??_C@_0DA@AAAAAAAA@'+'a'*12+'?$AA'*20+'@')],'a truncated literal with 20 of 32 bytes null','the width guess rounds in the wrong place: U"" instead of u""')
S('c18-delete-printed-raw','C18',D,[('(0x20..=0x7E).contains(&c)','(0x20..=0x7F).contains(&c)')],
 [(0,'??_C@_03DKCKIIND@a?$HP?$AA@')],'the byte 0x7F in a literal','a control character is printed raw')
S('c18-hex-width','C18',D,[('write!(ob, "\\\\x{c:02X}")','write!(ob, "\\\\x{c:X}")')],
 [(0,'??_C@_03DKCKIIND@a?$AB?$AA@')],'a control character below 0x10 without an escape of its own','the hex escape loses its leading zero')
S('c17-signed-cast','C17',D,[('        number\n            .try_into()\n            .map(|x: i64| if is_negative { -x } else { x })\n            .map_err(|_| Error::InvalidSigned)','        let number = number as i64;\n        Ok(if is_negative { number.wrapping_neg() } else { number })')],
 [(0,'?f@@WPPPPPPPPPPPPPPPP@AAXXZ'),(0,'?f@?$A@$HIAAAAAAAAAAAAAAA@@@3HA')],'an offset of 2^63 or more','an offset that does not fit is wrapped to another value instead of rejected')
S('c01-number-multiply','C01',D,[('number = number.wrapping_shl(4) + u64::from','number = number * 16 + u64::from')],
 [(0,'?f@?$A@$0BAAAAAAAAAAAAAAAA@@@3HA')],'an encoded number of 17 or more hexadecimal digits','multiplication overflow panics')
S('c16-class-n-not-virtual','C16',D,[("'N' => Ok(FuncClass::FC_Protected | FuncClass::FC_Virtual | FuncClass::FC_Far),","'N' => Ok(FuncClass::FC_Protected | FuncClass::FC_Far),")],
 [(0,'?f@A@@NEAAXXZ')],'function class N (far)','a protected virtual far member is printed without virtual')
S('c16-vtordisp-3','C16',D,[("'3' => Ok(FuncClass::FC_Protected\n                        | FuncClass::FC_Virtual\n                        | vflag","'3' => Ok(FuncClass::FC_Private\n                        | FuncClass::FC_Virtual\n                        | vflag")],
 [(0,'?f@A@@$33A@AEAAXXZ')],'function class $3','a protected vtordisp thunk is printed as private')
S('c16-eabi-p','C16',D,[("'M' | 'N' => Some(CallingConv::Clrcall),\n            'O' | 'P' =>","'M' => Some(CallingConv::Clrcall),\n            'N'..='P' =>")],
 [(0,'?f@@YNXXZ'),(0,'?f@@YPXXZ')],'calling convention N','the exported form of __clrcall is printed as __eabi')
S('c24-static-adjust-signed','C16',N,[('    pub(crate) static_offset: u32,','    pub(crate) static_offset: i32,')],
 [(0,'?f@A@@W?7AAXXZ'),(0,'?f@A@@G?7AAXXZ')],'a thunk with a negative static adjustment','the adjustment is printed as a negative number')
S('c25-find-char-index','C25',M,[('        for (i, c) in self.string.char_indices() {\n            if c == needle {','        for (i, c) in self.string.chars().enumerate() {\n            if c == needle {')],
 [(0,'?caf\u00e9@@3HA'),(0,'?x@\u00fcber@@3HA')],'a name with a non-ASCII character','names containing non-ASCII characters are cut at the wrong place or rejected')
S('c01-char-count','C01',M,[('            self.chars -= first.chars().count();','            self.chars -= first.len();')],
 [(0,'?\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9\u00e9@@3HA')],'a name with many non-ASCII characters','the count of remaining characters underflows')
S('c15-unaligned-in-lookahead','C15',M,[("        _ = self.try_consume_char('F'); // unaligned\n",'')],
 [(0,'?f@@YAXPEFAH@Z'),(0,'?x@@3PEFQA@@HEFQ1@')],'an __unaligned pointer','unaligned pointers are not recognised')
S('c15-member-pointer-quals','C15',D,[('                .set_quals(pointee_quals);\n            (Some(class_parent), pointee)','                .append_quals(pointee_quals);\n            (Some(class_parent), pointee)')],
 [(0,'?f@@YAXPEQA@@QEAH@Z')],'a pointer to a data member that is itself a const pointer','qualifiers of the pointee are merged where the encoding replaces them')
S('c26-array-member-quals','C26',D,[('            if is_member {\n                return Err(Error::InvalidArrayType);\n            }\n            quals','            _ = is_member;\n            quals')],
 [(0,'?x@@3PAY01$$CRHA'),(0,'?f@@YAXAAY01$$CRH@Z')],'an array whose element qualifiers use a member code','an impossible qualifier is accepted')
S('c26-array-rank-zero','C26',D,[('if is_negative || rank == 0 {','if is_negative {')],
 [(0,'?f@@YAXAAYA@H@Z')],'an array with zero dimensions','an array without dimensions is accepted')
