"""Which properties a difference found in a function violates."""
import re

# function (last part of its path, or Type::method) -> properties its behaviour decides
TOPICS = [
    # ---- reading symbols
    (r'::demangle$|::demangle_into$|^demangle(_into)?$|parse_into$|Demangler.*::new$', 'C06'),
    (r'::do_parse(_unchecked)?$', 'C22 C24'),
    (r'::demangle_declarator$', 'C22 C25 C24'),
    (r'::demangle_encoded_symbol$', 'C22'),
    (r'::demangle_untyped_variable$', 'C24 C22'),
    (r'::demangle_variable_encoding$', 'C22 C15 C16'),
    (r'::demangle_variable_storage_class$', 'C16 C22'),
    (r'::demangle_function_encoding$', 'C22 C16'),
    (r'::demangle_throw_specification$', 'C22'),
    (r'::demangle_function_class$|::demangle_calling_convention$|::demangle_throw_specification$|::demangle_function_ref_qualifier$', 'C16'),
    (r'::demangle_function_type$', 'C22 C16 C15'),
    (r'::demangle_function_parameter_list$', 'C13 C15 C22'),
    # ---- types
    (r'::demangle_(type|type_unchecked|class_type|primitive_type|custom_type|pointer_type|member_pointer_type|array_type|pointer_cv_qualifiers|pointer_ext_qualifiers|qualifiers)$', 'C15'),
    (r'::demangle_(type|type_unchecked)$', 'C22'),
    (r'is_(array_type|custom_type|function_type|member_pointer|pointer_type|tag_type)$', 'C15'),
    # ---- numbers, literals
    (r'::demangle_(number|unsigned|signed)$', 'C17'),
    (r'::demangle_array_type$', 'C17'),
    (r'::demangle_(string_literal|char_literal|wchar_literal)$|output_escaped_char$|guess_char_byte_size$|decode_multi_byte_char$', 'C18'),
    (r'::demangle_string_literal$', 'C24'),
    # ---- names
    (r'::demangle_(simple_string|simple_name)$', 'C25 C12'),
    (r'::memorize_|::demangle_back_ref_name$|is_simple$|is_template$|NamedIdentifierNode.*default_name$', 'C12'),
    (r'::demangle_template_instantiation_name(_unchecked)?$', 'C12 C23 C25 C13'),
    (r'::demangle_template_parameter_list$', 'C23'),
    (r'::demangle_(anonymous_namespace_name|locally_scoped_name_piece|name_scope_chain|name_scope_piece|fully_qualified_symbol_name|fully_qualified_type_name|unqualified_symbol_name|unqualified_type_name)$', 'C25'),
    (r'::demangle_(anonymous_namespace_name|name_scope_piece|unqualified_symbol_name|unqualified_type_name|name_scope_chain)$', 'C12'),
    (r'starts_with_local_scope_pattern$', 'C25 C17'),
    (r'::(demangle_conversion_operator_identifier|demangle_structor_identifier)$', 'C14 C25'),
    (r'::demangle_(function_identifier_code|function_identifier_code_group|literal_operator_identifier)$|translate_intrinsic_function_code$', 'C14'),
    # ---- special symbols
    (r'::(consume_special_intrinsic_kind|demangle_(special_intrinsic|special_table_symbol_node|rtti_base_class_descriptor_node|typeinfo_name|init_fini_stub|md5_name|local_static_guard|vcall_thunk_node))$', 'C24'),
    (r'::demangle_init_fini_stub$', 'C14'),
    (r'::demangle_vcall_thunk_node$', 'C16 C17'),
    (r'::demangle_(rtti_base_class_descriptor_node|local_static_guard|locally_scoped_name_piece)$', 'C17'),
    (r'(RttiBaseClassDescriptorNode|VcallThunkIdentifierNode|LocalStaticGuardIdentifierNode|TemplateParameterReferenceNode|ThunkSignatureNode)\b.*output', 'C17'),
    (r'::demangle_fully_qualified_symbol_name$', 'C14'),
    # ---- printers
    (r'(PrimitiveTypeNode|TagTypeNode|CustomTypeNode|PointerTypeNode|ArrayTypeNode|Qualifiers|SingleQualifier)\b.*(output|is_suppressed)', 'C15'),
    (r'ArrayTypeNode.*output', 'C17'),
    (r'(FunctionSignatureNode|ThunkSignatureNode)\b.*output', 'C16 C15'),
    (r'CallingConv\b.*output', 'C16'),
    (r'(FunctionSymbolNode|VariableSymbolNode)\b.*output', 'C16 C20'),
    (r'(IntrinsicFunctionIdentifierNode|LiteralOperatorIdentifierNode)\b.*output', 'C14'),
    (r'(ConversionOperatorIdentifierNode|StructorIdentifierNode)\b.*output', 'C14 C25'),
    (r'(DynamicStructorIdentifierNode|LocalStaticGuardIdentifierNode|LocalStaticGuardVariableNode|VcallThunkIdentifierNode|RttiBaseClassDescriptorNode|Md5SymbolNode|SpecialTableSymbolNode)\b.*output', 'C24'),
    (r'NamedIdentifierNode\b.*output', 'C25'),
    (r'QualifiedNameNode\b', 'C25'),
    (r'NodeArrayNode\b.*output', 'C25 C15 C23'),
    (r'TemplateParameters::output|TemplateParameterReferenceNode\b.*output', 'C23'),
    (r'IntegerLiteralNode\b.*output', 'C17 C23'),
    (r'EncodedStringLiteralNode\b.*output', 'C18 C24'),
    (r'nodes::intermediate::\w+(<|::<).*(output|set_|get_|append_|as_node|template_params)', 'C21'),
    (r'TypeNode\w*(<|::<|::).*(set_quals|append_quals)', 'C15'),
    (r'set_template_params', 'C23'),
    (r'set_function_class', 'C16'),
    (r'output_space_if_necessary$', 'C20'),
    (r'BufWriter|writing::', 'C05 C07'),
    (r'::last_char$|Writer>?::len_bytes$|Buffer>?::len_bytes$', 'C19 C20'),
    # ---- storage
    (r'NodeCache.*intern|NodeCache', 'C05 C21'),
    (r'try_unwrap|NodeHandle|Downcast|as_node', 'C21'),
    (r'FuncClass::', 'C16'),
    (r'Qualifiers::is_', 'C15'),
    (r'^Flags::|^_::<impl Flags>|InternalBitFlags', 'C09 C10'),
    (r'MangledString', 'C26 C03 C01 C22 C25'),
    (r'MangledString.*(find_char|try_consume_n_bytes)', 'C18 C24'),
    (r'VariableSymbolNode::synthesize', 'C24'),
    (r'with_nesting', 'C04'),
    (r'CharExt|extensions', 'C17 C18'),
    (r'Error', 'C07'),
]
TOPICS = [(re.compile(p), frozenset(x.split())) for p, x in TOPICS]

PARSER = re.compile(r'demangler::|mangled_string::')
PRINTER = re.compile(r'output|nodes::')


def topics(unit):
    r = set()
    for p, x in TOPICS:
        if p.search(unit): r |= x
    return r


def is_printer(unit): return 'output' in unit and 'nodes::' in unit or unit.endswith('output_space_if_necessary')


def any_set(all_mm):
    r = 0
    for x in all_mm: r |= x['flags_set']
    return r


def any_clear(all_mm):
    r = 0
    for x in all_mm: r |= x['flags_clear']
    return r


def properties(unit, mm, all_mm):
    """properties violated by one mismatch of a unit (all_mm: every mismatch of that unit)"""
    tags = set(mm['tags'])
    r = set()
    if tags == {'nopanic'} or tags == {'nodiverge'} or tags == {'noub'}: return r
    if 'ub' in tags: return {'C02'} | topics(unit)
    if 'diverge' in tags: return {'C03'} | topics(unit)
    if 'panic' in tags: return {'C01'} | topics(unit)
    if tags == {'depth'}: return {'C04'}
    if tags == {'nodes'}: return {'C05'}
    if 'depth' in tags: r.add('C04')
    top = topics(unit)
    if tags & {'value', 'cursor', 'accept', 'reject'}:
        for c in mm.get('calls', ()): top = top | topics(c)
    parse = bool(PARSER.search(unit)) and not is_printer(unit)
    # flag dependence: every difference needs some flag to be set
    flagged = mm['flags_set'] != 0 and all(x['flags_set'] != 0 or not x['flags_set'] and set(x['tags']) == {'nopanic'} for x in all_mm)
    if flagged and len(all_mm) >= 60:
        # more than were collected: only a flag that all of them have in common is what it depends on
        common = ~0
        for x in all_mm: common &= x['flags_set']
        flagged = common != 0
    if flagged:
        if parse: return r | {'C08'}
        r |= {'C09', 'C10'}
        if 'brackets' in tags: r.add('C19')
        if tags & {'space', 'order'}: r.add('C20')
        return r | top
    if parse:
        # flags of which both settings show differences are not what it depends on
        one = any_set(all_mm) & any_clear(all_mm)
        if (mm['flags_set'] | mm['flags_clear']) & ~one: r.add('C08')
    if 'link' in tags: r.add('C04')
    if 'number' in tags: r.add('C17')
    if 'flags' in tags and is_printer(unit): r |= {'C09', 'C10'}
    # succeeding where the documented behaviour is an error: something that failed was not reported
    if 'accept' in tags: r |= {'C26', 'C07'}
    if 'masked' in tags: r.add('C07')
    if 'stalls' in tags: r.add('C03')
    if 'names' in tags: r.add('C12')
    if 'params' in tags: r.add('C13')
    tags -= {'number', 'flags', 'link', 'stalls'}
    if tags == {'names'} or tags == {'params'} or tags == {'names', 'params'}:
        return r | (top & {'C12', 'C13', 'C25', 'C23'})
    if 'brackets' in tags: r.add('C19')
    if tags & {'space', 'order'}: r.add('C20')
    if 'text' in tags and is_printer(unit) and re.search(r'Symbol|Signature|Pointer|Array|Variable|Qualifiers|NodeArray|Template|output_space', unit): r.add('C20')
    if mm['flags_set'] and is_printer(unit): r |= {'C10'}
    return r | top
