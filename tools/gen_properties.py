#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay editable)."""
import json, os
D='src/demangler.rs'; M='src/mangled_string.rs'; C='src/cache.rs'; N='src/nodes/derived.rs'; E='src/nodes/enums.rs'; I='src/nodes/intermediate.rs'; L='src/lib.rs'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=('demangle','demangle_into')):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
IN=['inputs','configurations']
p('C01','No input and no flag combination makes demangling panic',
 'For every input string and every combination of flags, demangling ends by returning either text or an error value: it never panics. In particular no index, slice, unwrap, arithmetic operation (with overflow checks on) or assertion fails, whatever bytes, non-ASCII characters or truncation points the input has.',
 IN,'all UTF-8 strings x all 1024 flag sets','The tests sample about 1500 mostly well-formed ASCII names; a panic needs one unusual byte, truncation or number at one site.',
 [D,M,C,N],[('checked cursor operations',M),('option/result instead of indexing in the grammar functions',D),('handle/kind agreement',C)])
p('C02','Unchecked (unsafe) operations always have their preconditions met',
 'Every operation the library performs without run-time checking (reading a table without bounds check, appending without capacity check, unwrapping without presence check, building text or characters without validity check) is reached only with its precondition established, for every input and flag set.',
 IN,'all inputs reaching any unsafe block','A violated precondition is undefined behaviour that usually passes tests silently; the tests run in one build without checks.',
 [D,M,C],[('range guards before get_unchecked / push_unchecked / unwrap_unchecked',D),('from_u32_unchecked under a printable-ASCII guard',D),('from_utf8_unchecked on an emptied buffer',D),('single character guard before unwrap_unchecked',M),('node cap before new_unchecked',C)])
p('C03','Demangling always terminates: every repetition makes progress',
 'Demangling terminates on every input. Every repetition in parsing or printing either consumes at least one input character per round or steps through an already finite collection or a bounded count; no round can repeat without progress, even at end of input.',
 IN,'all inputs, including truncated ones','A non-terminating round needs a specific truncated or malformed tail; tests can only time out on inputs they contain.',
 [D,M,N],[('cursor-advancing loops',D),('finite node slices',N)])
p('C04','Recursion depth is bounded and counts nesting only',
 'However deeply the input nests, the recursion of the parser is cut off with an error at a fixed depth small enough for a default thread stack. The bound counts only constructs that are open at the same time: parsing a construct, successfully or not, gives its depth back, so any number of sibling constructs is accepted.',
 ['inputs'],'all nesting shapes and all sibling counts','Tests contain nesting of a few levels; the limit and its bookkeeping show only at hundreds of levels or siblings.',
 [D],[('depth guard on every recursive grammar cycle',D)])
p('C05','Node count and output size are capped',
 'The memory one call uses is capped by fixed limits regardless of the input: every tree node is counted against a node limit (2048) and every byte of rendered text against an output limit (1 MiB), and exceeding a limit yields an error instead of further growth. No text or node is produced by a route that bypasses the limits, and nothing below the limits is refused because of them.',
 IN,'all inputs incl. exponentially expanding back-references','The limits only act on adversarial inputs; only a couple of tests are near them.',
 [C,D],[('cap in the single node-allocating function',C),('cap in the single output writer',D)])
p('C06','The in-place entry point honours its buffer contract',
 'The in-place entry point replaces the whole previous content of the caller\'s buffer: on success it holds exactly the text the value-returning entry point returns for the same input and flags, and on any error it is empty. The caller\'s allocation is reused and no partially rendered text ever remains visible.',
 IN,'all inputs x flags x previous buffer contents x failure points','The tests only pass well-behaved buffers and do not look at the buffer after each kind of failure.',
 [L,D],[('clear before parse, take/restore around printing',D),('value-returning entry delegates to in-place entry',L)])
p('C07','A failure anywhere inside is reported, never masked',
 'If parsing or rendering any part of the input fails, or the output writer refuses text, the whole call returns an error. No partial failure is turned into success, a default value or shortened text (the only tolerated case is that a full back-reference table silently stops memorising).',
 IN,'every fallible step on every path','A swallowed error shows only on malformed input that fails at exactly that step.',
 [D,N,C],[('? on every fallible call',D)])
p('C08','Flags never influence whether an input is accepted',
 'Whether an input is accepted or rejected, and what it is parsed as, including what its back-references refer to, does not depend on the output flags; flags only affect how the result is printed (apart from the output-size limit). If an input demangles with one flag set it demangles with all of them.',
 IN,'all inputs x all pairs of flag sets','Tests run almost all inputs with one flag set.',
 [D,N],[('parser never branches on flags; memorised names compared in flag-independent form',D)])
p('C09','Each suppression flag removes its part everywhere',
 'When a flag is set, the category of text it is documented to suppress (calling convention, tag keyword, access specifier, static/virtual/extern member kind, return type, variable type, this-qualifiers, leading underscores, Microsoft keywords, everything but the name) is absent from every place the printer could emit it, including nested types, template arguments and pointers, exactly as documented.',
 IN,'all node shapes x all flag sets','Each flag is tested on one or two inputs; 1024 combinations and dozens of emission sites are not.',
 [N,E],[('flag tests guarding each emission site',N),('keyword spelling selection',E)])
p('C10','A flag changes nothing but its own category',
 'Setting a flag leaves all text outside the category it is documented to suppress unchanged; every documented flag is a distinct bit, documented aliases equal their originals, and combinations of flags act as the union of their individual effects.',
 IN,'all node shapes x all flag sets','As for the suppression property: interactions of flags and sites are sampled at a handful of points.',
 [L,N,E],[('flag accessors and constants',L),('flag tests guarding each emission site',N)])
p('C11','Demangling is a pure function of input and flags',
 'The result depends only on the input string and the flags: no state is kept between calls, and time, environment, addresses, threads, locale, randomness or I/O have no influence. Concurrent calls cannot influence each other.',
 ['inputs','histories','schedules'],'all call histories and interleavings','Tests call in one fixed order from few threads.',
 [L,D,C,N],[('no mutable statics, no I/O, per-call arena',D)])
p('C12','Name back-references refer to the right earlier name',
 'A digit in name position refers to the name memorised at that position. Memorised are, in order of first appearance and at most ten, distinct simple names, namespace keys and instantiated templates (as types or scopes); each template instantiation has its own fresh table and the enclosing table is restored afterwards; a reference to a position not yet filled is an error.',
 ['inputs'],'all orders and counts of names, nested templates','Depends on histories of names across nesting; tests sample a few.',
 [D],[('name table, memorisation, save/restore around template instantiation',D)])
p('C13','Parameter back-references refer to the right earlier parameter',
 'A digit in a function parameter list refers to the parameter type memorised at that position: the first ten parameter types whose encoding is longer than one character, in order, shared by all parameter lists of the same template context. References to unfilled positions are errors, and a full table is no error.',
 ['inputs'],'all parameter sequences','Depends on histories of parameters; tests sample a few.',
 [D],[('parameter table in the parameter-list reader',D)])
p('C14','Every operator and special-function code prints its documented name',
 'Every one- to three-character code for an operator or compiler-generated function (constructor, destructor, conversion, literal operator and all intrinsic operators) is recognised as exactly the documented operator and printed with exactly its documented spelling; unused codes are never given another operator\'s name.',
 ['inputs'],'all codes','Tests name each operator at most once and many codes not at all.',
 [D,N],[('code tables',D),('spelling tables',N)])
p('C15','Every type code prints its documented type',
 'Every code for a primitive, class/struct/union/enum, pointer, reference, member pointer, array, function or qualified type is recognised as exactly the documented type and is printed with the documented keyword, affinity symbol and qualifiers, each of which is kept from its encoded position to the printed type.',
 IN,'all type codes, qualifiers and their combinations','Codes multiply with qualifiers and positions; tests sample combinations.',
 [D,N,E],[('type code matches',D),('type printers',N),('qualifier and convention printers',E)])
p('C16','Declaration class codes print access, storage, convention as encoded',
 'The function-class, calling-convention, storage-class, this-adjustment, ref-qualifier and throw-specification codes of a symbol are recognised as exactly the documented attributes, and access, static, virtual, extern "C", thunk adjustments, calling convention, ref-qualifier and noexcept are printed exactly when encoded.',
 IN,'all codes and their combinations','Most of the about 60 codes and combinations have no test.',
 [D,N,E],[('class code matches',D),('signature printers',N)])
p('C17','Encoded numbers have their documented value and sign',
 'A digit 0-9 encodes the value one to ten, a sequence of letters A-P ended by @ encodes a hexadecimal number with most significant digit first, and a leading ? negates; any other character or missing terminator is an error. The value reaches the output with that sign and magnitude (array bounds, template arguments, offsets), or the input is rejected where a negative or out-of-range value is not meaningful.',
 ['inputs'],'all encoded numbers','Infinite domain; tests sample some values.',
 [D,N],[('number reader and its signed/unsigned variants',D)])
p('C18','String literals are decoded and escaped as documented',
 'Each encoded character of a string literal decodes to its documented byte or code unit, and is printed as itself if printable ASCII and otherwise as the documented escape, so a printed literal contains only printable ASCII; the terminator is dropped, truncation is marked, and the width prefix follows the decoded width.',
 ['inputs'],'all literal contents','256 encodings x widths x lengths; tests sample.',
 [D,N],[('char decoding tables and escapes',D)])
p('C19','Text printed around a declarator is balanced',
 'Whatever is opened before a declarator\'s name is closed after it: in the output every parenthesis, bracket, angle bracket, brace and back-quote that the printer itself emits is matched in the right order, for every type structure and every flag set.',
 IN,'all type structures x flag sets','Balance depends on two cooperating printers per node under each flag set.',
 [N,E],[('prefix/suffix printers agree on one condition',N)])
p('C20','Declarations are laid out in the documented order and spacing',
 'The parts of a printed declaration (access, member kind, return type, calling convention, qualified name, parameters, this-qualifiers, noexcept, ref-qualifier, rest of return type; for variables and pointers likewise) always appear in the documented order with the documented separators, with single spaces only where two parts meet.',
 IN,'all node shapes','The order of independent optional parts is tested in few combinations.',
 [N,E,'src/nodes/mod.rs'],[('printers',N)])
p('C21','Every construct is handled as the kind it was parsed as',
 'A construct parsed as one kind (a type, an identifier or a symbol of some kind) is treated as that kind wherever it is used later: it is printed by that kind\'s rules in every role, and qualifiers, names and template arguments attached to it land on it. No construct is mistaken for another kind.',
 IN,'all kinds x all roles','26 kinds x roles; most combinations have no test.',
 [C,I],[('storage/handle/view mapping',C),('dispatch per kind',I)])
p('C22','Symbols are read in the documented order of their parts',
 'A symbol is read as name, then class code, then (by class) adjustments, this-qualifiers, calling convention, return type, parameters and throw specification, or for variables type and trailing qualifiers; each part is read exactly once, in this order, with the mangling mode its position requires.',
 ['inputs'],'all symbols','Reordered or doubled reads cancel out on simple inputs.',
 [D],[('grammar functions',D)])
p('C23','Template arguments of every form are read and printed as documented',
 'Each documented form of template argument (type, alias, array, qualified type, integer, pointer or reference to a symbol, member pointer with its inheritance-dependent offsets, deduced forms, pack separators) is read as exactly that form with all its parts in order, and printed accordingly.',
 IN,'all argument forms and counts','About twenty forms; several have one or no test.',
 [D,N],[('template argument reader',D),('template argument printers',N)])
p('C24','Special symbols are recognised and printed as documented',
 'Tables, RTTI structures, static guards, thunks, initialiser and finaliser stubs, hashed names, type descriptors and literals are recognised by exactly their documented codes, read with exactly their documented parts, and printed with their documented names.',
 IN,'all special codes and their operand shapes','Sixteen special codes with operand variants; several are untested.',
 [D,N],[('special-intrinsic reader and its operand readers',D),('symbol printers',N)])
p('C25','Qualified names keep every component, outermost first',
 'A qualified name is printed with all of its components, outermost scope first and joined by ::, including template arguments, anonymous namespaces and local scopes; constructors and destructors print the name of the class they belong to and conversion operators the type they convert to.',
 IN,'all scope chains','Chains and component kinds combine freely.',
 [D,N],[('scope chain reader',D),('name printers',N)])
p('C26','Malformed and truncated encodings are rejected',
 'An encoding that uses an unknown code, lacks a required terminator or part, contains an impossible combination, or stops early is rejected with an error; where the whole input must be one construct (type descriptors), trailing text is rejected as well. No malformed encoding is accepted with a guessed meaning.',
 ['inputs'],'all malformed inputs','The set of malformed inputs is unbounded; the tests have about forty.',
 [D,M],[('error returns at every required code',D)])
p('N01','Output agrees with the Microsoft undname tool',
 'For every name a Microsoft compiler can emit, the output equals what the reference tool prints for the same flags.',IN,'all valid names','The reference is a closed program.',[D,N],[('whole library',D)])
p('N02','Running time is near-linear in the size of input and output',
 'Demangling takes time proportional to the input length plus the length of rendered text, up to logarithmic factors.',['inputs'],'all inputs','Timing cannot be settled by samples.',[D,N],[('whole library',D)])
p('N03','Distinct numbers print distinctly however long they are',
 'Encoded numbers that differ in value are printed differently, also when they exceed 64 bits.',['inputs'],'all encoded numbers','Infinite domain.',[D],[('number reader',D)])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
