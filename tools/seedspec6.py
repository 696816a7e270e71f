D='src/demangler.rs'; N='src/nodes/derived.rs'; M='src/mangled_string.rs'; C='src/cache.rs'; L='src/lib.rs'; E='src/nodes/enums.rs'; NM='src/nodes/mod.rs'; NI='src/nodes/intermediate.rs'
SEEDS=[]
def S(id,prop,file,edits,cases,needs,breaks,main=None):
    d=dict(id=id,prop=prop,file=file,edits=edits,cases=cases,needs=needs,breaks=breaks)
    if main: d['main']=main
    SEEDS.append(d)
S('c10-restrict-suppressed','C10',E,[("matches!(self, Self::Restrict) && flags.no_ms_keywords()","matches!(self, Self::Restrict) && (flags.no_ms_keywords() || flags.no_leading_underscores() && flags.no_this_type())")],[(192,'?foo_piad@@YAXPIAD@Z')],'NO_LEADING_UNDERSCORES together with NO_THISTYPE','restrict disappears from parameters under an unrelated flag')
S('c16-extern-c-virtual','C16',N,[("            if self.function_class.is_extern_c() {","            if self.function_class.is_extern_c() && !self.function_class.is_virtual() {")],[(0,'?f@A@@$$J0UAEXXZ')],'an extern "C" marker in front of a virtual member function','extern "C" is dropped')
S('c10-guard-name','C10',N,[("    fn output(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {\n        self.components\n            .resolve(cache)\n            .do_output(cache, ob, flags, \"::\")","    fn output(&self, cache: &NodeCache, ob: &mut dyn Writer, flags: OutputFlags) -> Result<()> {\n        let separator = if flags.no_ms_keywords() && flags.no_tag_specifier() { \":\" } else { \"::\" };\n        self.components\n            .resolve(cache)\n            .do_output(cache, ob, flags, separator)")],[(258,'?x@ns@@3HA')],'NO_MS_KEYWORDS together with NO_TAG_SPECIFIER','scopes are joined by one colon')
S('c10-type-descriptor-flag','C10',N,[("                if !flags.name_only() {\n                    super::output_space_if_necessary(ob)?;\n                    write!(ob, \"`RTTI","                if !flags.name_only() && !flags.no_variable_type() {\n                    super::output_space_if_necessary(ob)?;\n                    write!(ob, \"`RTTI")],[(32,'??_R0?AVA@@@8'),(32,'.?AVA@@')],'NO_VARIABLE_TYPE and a type descriptor','the descriptor text is dropped')
S('c10-fnptr-noexcept','C10',N,[("                    func.do_output_post(cache, ob, flags, true)\n","                    func.do_output_post(cache, ob, flags, !func.is_noexcept)\n")],[(0,'?x@@3P6AHXZA'),(512,'??$f@P6AXXZ@@YAXXZ'),(512,'??$f@P6AXX_E@@YAXXZ')],'NAME_ONLY and a pointer to a noexcept function as a template argument','the parameter list is lost')
S('c13-nine-params','C13',D,[("function_params: ArrayVec<NodeHandle<ITypeNode>, 10>,","function_params: ArrayVec<NodeHandle<ITypeNode>, 9>,")],[(0,'?f@@YAXPAHPADPAFPAJPAMPANPAEPAGPAKPAI9@Z')],'ten memorized parameters and a reference to the tenth','the tenth parameter is not memorized')
S('c15-append-array','C15',NI,[("            Self::ArrayType(x) => x.quals |= quals,\n            Self::CustomType(x) => x.quals |= quals,","            Self::ArrayType(_) => (),\n            Self::CustomType(x) => x.quals |= quals,")],[(0,'?x@@3Y01HB'),(0,'?x@@3PAY01HB'),(0,'??$f@$$BY01$$CBH@@YAXXZ')],'a const array variable','qualifiers of an array variable are dropped')
S('c06-into-appends','C06',L,[("    result.clear();\n    d.parse_into(result)","    if mangled_name.is_empty() {\n        return Err(Error::Io(io::ErrorKind::UnexpectedEof.into()));\n    }\n    result.clear();\n    d.parse_into(result)")],None,'an empty input with a buffer that holds text','the buffer keeps its old text on failure',main='''fn main() {
    let mut s = String::from("left over");
    let r = undname::demangle_into("", undname::Flags::default(), &mut s);
    std::process::exit(i32::from(r.is_ok() || !s.is_empty()));
}
''')
