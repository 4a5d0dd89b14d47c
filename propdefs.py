"""Property texts; `python3 propdefs.py` writes properties.jsonl and MANIFEST.json from them."""
import json, os

G = 'src/grammar.rs'
SP = 'src/span.rs'
DEFS = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), observe=('knuffel::parse_ast',)):
    DEFS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))


prop('C01', 'Parsing terminates without panicking on every text',
     'For every UTF-8 text (children nested moderately), parsing returns either a document or an error; it never panics, aborts or runs away, with byte spans and with line spans. A returned error carries the given file name, the given text and at least one diagnostic, each with a message, and every label lies inside the text on character boundaries, so the error can be rendered.',
     'all input texts, both span types', 'The tests parse a few dozen hand-written texts; a panic in an error-merging path, an out-of-range label or a backtracking loop needs an input nobody wrote down.',
     [G, 'src/wrappers.rs', 'src/errors.rs', SP], [('parse_ast', 'src/wrappers.rs'), ('ParseError::merge', 'src/errors.rs'), ('before_start / at_start / at_end', SP)])
prop('C02', 'Documents mean what the KDL grammar says',
     'A text is accepted exactly when the KDL 1.0 grammar accepts it, and the resulting document has the same nodes, in the same order and nesting, with the same names, type annotations, arguments, properties and children blocks (an empty children block is distinct from none). Nothing in the text is dropped, invented or moved to another node.',
     'all input texts', 'Tests compare a handful of documents; agreement with the grammar is a statement about all texts, in particular about rare adjacency such as a children block directly after a value or a terminator inside a block.',
     [G, 'src/ast.rs'], [('nodes / document', G), ('prop_or_arg_inner', G)])
prop('C03', 'Comments, slashdash and blanks never change meaning',
     'Blanks, line continuations, line comments and (nested) block comments only separate tokens, wherever the grammar allows them, and their content is irrelevant. A slashdash removes exactly the one node, argument, property or children block that follows it (which must itself be well formed) and nothing else; all Unicode blanks and newlines of the KDL specification count, and no other character does.',
     'all input texts with blanks, comments and slashdash at any position', 'Tests contain some fixed comments; whether a comment swallows or leaks the next token depends on the characters around its end and on nesting.',
     [G], [('ws / ws_char / newline / comment / ml_comment', G), ('esc_line / node_space / line_space', G), ('begin_comment', G)])
prop('C04', 'String literals decode to exactly their characters',
     'A quoted string yields its characters with each escape (\\" \\\\ \\/ \\b \\f \\n \\r \\t \\u{1-6 hex digits}) replaced by the character it denotes, and any other escape, an invalid code point or a missing closing quote is an error. A raw string yields its characters verbatim and ends only at a quote followed by as many # as it was opened with. This holds for values, node names, property names and type names alike.',
     'all string literals in all positions', 'Tests check one instance per escape; every code point, every escape letter and every combination of quotes and hashes is out of reach of examples.',
     [G], [('escaped_string / esc_char', G), ('raw_string', G)])
prop('C05', 'Numbers keep their exact value or are errors',
     'Decimal, hexadecimal, octal and binary integers, with sign, leading zeros and underscores, denote their mathematical value: reading one as a 64-bit integer gives that value or, when it does not fit, an error, never another number. A literal with a fraction or exponent is a decimal number; malformed numbers (no digits after the prefix, point or exponent) are rejected, and integers are never confused with decimals, identifiers or strings.',
     'all number literals, in particular around the limits of 64-bit integers', 'Tests use small numbers; boundary values in each radix and each placement of signs and underscores are not sampled.',
     [G, 'src/ast.rs', 'src/convert.rs'], [('radix_number / decimal_number', G), ('Integer conversions', 'src/convert.rs')])
prop('C06', 'Identifiers and keywords are told apart for all of Unicode',
     'A bare identifier is a non-empty run of characters that excludes exactly the delimiters, blanks, newlines and control characters of KDL 1.0, does not start with a digit or a sign followed by a digit, and is not true, false or null; this holds for node names, property names and type names. The keywords are values only when they stand alone, and identifiers merely starting with a keyword, with r or with a sign stay identifiers.',
     'all characters of Unicode in all identifier positions', 'Each of the 1.1 million characters and each keyword neighbourhood behaves by class; tests touch a dozen.',
     [G], [('id_char / id_sans_dig / id_sans_sign_dig', G), ('bare_ident / ident / keyword', G)])
prop('C07', 'Last duplicate property wins; order of arguments is kept',
     'When a property name occurs several times on a node, however it is spelled (bare, quoted, raw, escaped), the node has exactly one property of that name and its value is that of the last occurrence that is not commented out. Arguments keep their order of appearance independent of the properties, comments and children between them.',
     'all sequences of arguments and properties on a node', 'Depends on the number, spelling and order of occurrences; the tests have no document with three spellings of one name.',
     [G, 'src/ast.rs', SP], [('Node::properties (ordered by name)', G), ('Ord/Eq of Spanned ignore the span', SP)])
prop('C08', 'Byte spans cover exactly the text of their element',
     'With byte spans, the span of every node name, type name, property name, value, children block and node is the exact byte range of that element in the text: names and values without surrounding blanks, type names and children blocks with their delimiters, nodes up to and including their terminator. Slicing the text with such a span always gives the element as it was written, also after multi-byte characters.',
     'all input texts, all elements', 'Offsets are computed in many combinators and depend on the byte length of all preceding characters; tests check spans in a few ASCII error messages.',
     [SP, G, 'src/traits.rs'], [('OffsetTracker::next_span', SP), ('spanned', G)])
prop('C09', 'Line spans give correct line, column and offset',
     'With line spans, each end of every span carries the same byte offset as the byte span would, the zero-based number of newlines before it (CR LF counts once; LF, CR, FF, NEL, LS and PS count once each) and the zero-based display column since the last newline (tab counts 8, wide characters 2, combining and control characters 0). The document is otherwise the same as with byte spans.',
     'all input texts, all elements', 'Line and column accumulate over the whole prefix; combinations of newline kinds, tabs and wide characters are not sampled.',
     [SP], [('LineTracker::next_span', SP)])
prop('C10', 'Parse errors point at the offending text',
     'Every diagnostic of a rejected text points at what it talks about: the quoted found character or keyword is the text under the label, end of input is at the end, number, keyword and identifier complaints cover such a token, an invalid character code covers its braces. An unclosed string, block comment or children block is reported with one label covering exactly its opening delimiter, which really is open, and one at the end of input. Byte spans and line spans give the same diagnostics.',
     'all rejected texts', 'Error positions come from merged alternatives; tests fix a few messages for ASCII texts and only byte spans.',
     [G, 'src/errors.rs', SP], [('map_err_with_span', G), ('ParseError::merge', 'src/errors.rs'), ('before_start / at_start / at_end', SP)], observe=('knuffel::parse_ast', 'miette::Diagnostic::labels'))

C, CV, ER, DE, TR, CT = 'src/convert.rs', 'src/convert_ast.rs', 'src/errors.rs', 'src/decode.rs', 'src/traits.rs', 'src/containers.rs'
DN, DV, DS, DD = 'derive/src/node.rs', 'derive/src/variants.rs', 'derive/src/scalar.rs', 'derive/src/definition.rs'
OBS = ('knuffel::parse', 'derived Decode / DecodeScalar / DecodeChildren')
prop('C11', 'Scalars decode to the exact value or to an error',
     'Each built-in scalar type (u8 to u64, i8 to i64, usize, isize, f32, f64, bool, String, PathBuf, Arc<Path>, Arc<str>, Literal, and these in Box, Arc, Rc and Spanned) decodes a literal of its kind to exactly the value written, in any radix and spelling; an integer outside the range of the type, or a literal of another kind, is an error and never a wrapped or truncated value. A type annotation is accepted only if it names that very type (u8 on an u8, f64 on an f64; none on booleans and strings); any other annotation is an error.',
     'all scalar literals and type annotations, all built-in types', 'Range limits, radixes, signs and annotations multiply with twenty types; the tests try a few values each.',
     [C, CT, 'src/ast.rs'], [('impl_integer / impl_float / DecodeScalar impls', C), ('containers', CT), ('BuiltinType', 'src/ast.rs')], observe=OBS)
prop('C12', 'Strings parsed by FromStr, bytes and scalar enums decode correctly',
     'With `str`, a string is handed to FromStr and its failure is an error; values of another kind or with a type annotation are errors. With `bytes`, a string annotated (base64) decodes to the bytes it encodes (standard alphabet, padding required) or is an error, and one without annotation yields its UTF-8 bytes; any other annotation is an error, and so is a failing conversion of the bytes to the type of the field. A derived scalar enum accepts exactly the kebab-case names of its variants, without annotation. This holds for arguments, properties, the lists of all remaining ones, unwrapped children, options and defaults alike.',
     'all strings, annotations and values of other kinds', 'The base64 alphabet, padding and the spelling of variants are sampled by three tests; options combined with these modes by none.',
     [DE, DS, DN, 'derive/src/kw.rs'], [('decode::bytes', DE), ('emit_scalar', DS), ('decode_value', DN)], observe=OBS)
prop('C13', 'Nothing in a document is silently ignored or missing',
     'A document decodes only if every argument, property, child node and type name in it is asked for by the type and every argument, property and child the type requires is there; a child that may occur once (child, flag or unwrapped child) occurring twice is an error. A flag node carries no arguments, properties, children or type name. Whatever does not fit makes decoding fail; nothing is dropped and nothing is made up.',
     'all documents, types with every kind of field', 'Each is a statement about all the surplus or missing elements a user could write in all places; tests sample one misspelling per kind of field.',
     [DN, DE, DV], [('decode_args / decode_props / decode_children', DN), ('insert_child', DN), ('decode::check_flag_node', DE)], observe=OBS)
prop('C14', 'Arguments and properties land in the fields declared for them',
     'The n-th argument goes to the n-th argument field in declaration order, the remaining ones, in order, to the `arguments` field; a property goes to the field of its name (kebab-case of the field name, or the name given), the remaining ones, each under its name with the last value written, to the `properties` field. It does not matter how arguments and properties are interleaved or how names are spelled (bare, quoted, raw). Tuple structs, generic structs and fields without attribute (which get their default) behave the same.',
     'all sequences of arguments and properties', 'The number, order and names of arguments and properties are unbounded; tests have one or two per case.',
     [DN, DD], [('decode_args / decode_props', DN), ('Struct::new / field attributes', DD)], observe=OBS)
prop('C15', 'Children land in the fields declared for them, unwrapped where asked',
     'A child node goes to the `child` field of its name, or to the list of its name, or to the `children` list of those not named otherwise, in document order, at the top of a document, in nested nodes and at any depth, recursively; a flag is true exactly if the node is there. With `unwrap`, the field gets the argument, arguments, property, properties or children of the child node (with their own options, names and defaults) and the child carries nothing else. Box and Arc around a type change nothing.',
     'all documents with any order, number and nesting of children', 'Order, multiplicity and nesting are unbounded; each test fixes one.',
     [DN, DD, CT], [('decode_children / decode_node', DN), ('unwrap_fn', DN), ('Box / Arc', CT)], observe=OBS)
prop('C16', 'Flattened structs receive the properties and children they declare',
     'A field marked flatten(child) or flatten(property) takes from the surrounding node exactly the children or properties its type declares, as if its fields, which are optional, stood in the surrounding type (a property that is absent leaves what the Default of the flattened type has there), at several levels of flattening, in structs, tuples and variants and inside Box, Arc and Rc; what neither declares goes to the catch-all field if there is one and is an error otherwise. Duplicates and invalid values are errors as usual.',
     'all documents over types with flattened parts', 'Whether an element reaches the inner struct depends on names on both levels; tests flatten one level with one or two names.',
     [DN, TR, CT], [('DecodePartial / insert_child / insert_property', DN), ('DecodePartial', TR), ('Box<T: DecodePartial>', CT)], observe=OBS)
prop('C17', 'Optional and defaulted fields: absent, null and present are kept apart',
     'An Option field is None when the argument, property or child is absent or the value is null, and Some of the value otherwise; a default (Default::default or the expression given) is used only if it is absent, and an explicit null, which is an error for anything but an Option, never selects the default. A type annotation on null is checked like on any value. This holds for arguments, properties, children, lists of children and unwrapped children.',
     'all combinations of absent, null, annotated and present values', 'The combinations of option, default, null, annotation and kind of field are many; the tests cover about a quarter.',
     [DN, C, CT], [('decode_value / decode_args / decode_props / decode_children', DN), ('is_option', DD), ('Option<T>', CT)], observe=OBS)
prop('C18', 'Enums pick the variant by node name; newtypes are transparent',
     'A node decodes into the variant whose kebab-case name is the name of the node, with unit, tuple and nested variants getting their arguments, properties, children and type names as a struct would; a node of no variant is an error. A newtype decodes as what it wraps; around an Option a node with nothing in it is None.',
     'all nodes over enums and newtypes', 'The variant is selected by comparison with every name and then decoded by separate code per kind of variant; tests have one instance of each.',
     [DV, DN, 'derive/src/kw.rs'], [('emit_enum / decode', DV), ('emit_new_type', DN)], observe=OBS)
prop('C19', 'Node name, type name and span of a node reach the fields asking for them',
     'A `node_name` field gets the name of the node, a `type_name` field its type name parsed with FromStr (None if absent for an Option, an error if absent otherwise, and an error if FromStr fails) and a `span` field the span of the node, exactly, on nested nodes as well, for names in any script and spelling.',
     'all names, type names and positions', 'Names and positions are unbounded; the tests check one each.',
     [DN, TR], [('decode_specials', DN), ('DecodeSpan', TR)], observe=OBS)
prop('C20', 'Decode errors name and point at what is really wrong',
     'Every diagnostic of a failed decoding is about one of the ways in which the document does not fit the type: it names the kind of problem (unexpected argument, property, node or type name; missing argument, property, child or type name; invalid value; expected and found kinds of scalar), mentions the name involved (and, for a type name, which would have been accepted; for a string that was refused, the reason its FromStr gave), and its label covers exactly the offending element. Decoding does not stop at the first wrong node of a list of nodes: each wrong node is reported.',
     'all documents that do not fit, over all kinds of fields', 'The pair of problem and position has to be right for every field kind; tests compare a few messages.',
     [DN, DE, ER, 'src/wrappers.rs'], [('DecodeError constructors', ER), ('Context::emit_error', DE), ('parse / Error', 'src/wrappers.rs')], observe=('knuffel::parse', 'miette::Diagnostic::related / labels'))
prop('C21', 'A document decoded as AST types is the document itself',
     'Decoding into SpannedNode, Value or Literal, alone, as part of a derived type, or inside Option, Box, Arc and Spanned, gives exactly the nodes and values of the document with all their parts, annotations and spans, with byte spans and line spans; null in an Option is None. Decoding a single node with knuffel::decode::node gives what decoding it as part of the document gives, with the same errors.',
     'all documents', 'The identity has to hold for every document; the tests decode two values.',
     [CV, DE, CT], [('DecodeScalar for Value / Literal, Decode for SpannedNode', CV), ('decode::node', DE)], observe=('knuffel::parse', 'knuffel::decode::node'))
prop('C22', 'Context values and emitted errors reach decoders and the user',
     'A value set in the context is seen by every custom decoder (Decode, DecodeScalar, DecodeSpan) at any depth, the last value of a type set counts, and a type not set is absent. An error emitted to the context without failing makes the whole decoding fail, and every error emitted or returned reaches the user with its label and place, those of several nodes together; without an error the result is what the decoders returned.',
     'all documents and all sets of decoders that emit or fail', 'Whether an emitted error is lost depends on what happens after it elsewhere in the document; the tests emit none.',
     [DE, 'src/wrappers.rs', TR], [('Context::{set, get, emit_error}', DE), ('parse_with_context', 'src/wrappers.rs'), ('DecodeSpan', TR)], observe=('knuffel::parse_with_context',))
prop('C23', 'Spanned values and type names compare, hash and look up by content',
     'Two Spanned values are equal, ordered and hashed exactly as the values in them, whatever their spans, so that a property is found by its name alone and properties are ordered by name; span, map, map_span, as_ref, borrow, clone and dereferencing give and keep the parts. A type name is its text: its display, comparison and parsing agree with it, and it is recognised as built-in exactly if it is one of the names of the built-in types.',
     'all strings, numbers, names and positions', 'An inconsistency between equality, order and hash shows for specific pairs only.',
     [SP, 'src/ast.rs'], [('PartialEq / Ord / Hash for Spanned', SP), ('TypeName / BuiltinType', 'src/ast.rs')], observe=('knuffel::span::Spanned', 'knuffel::ast::TypeName', 'Node::properties'))
prop('C24', 'Documents survive a round trip through CBOR',
     'Encoding a document as CBOR (feature minicbor) and decoding it gives the same document: names, type names, values with their radix and text, properties, order, empty and absent children, and all spans, with byte spans and line spans; encoding the result again gives the same bytes. A cut-off encoding is an error, not a panic and not another document.',
     'all documents', 'No test encodes anything; each kind of literal and each index in the encoding has to agree with the decoder.',
     ['src/ast.rs', SP], [('minicbor derives and impls', 'src/ast.rs'), ('minicbor derives', SP)], observe=('minicbor::Encode / Decode of Document',))

NOTE = ('Bounded: decides the assertion for every instance of the listed templates by path-wise symbolic execution of the LLVM IR rustc makes from /repo (knuffel, chumsky, std), '
        'with z3 deciding branch feasibility. Trusts the ksym executor (validated on every run by replaying solver models on the native build), rustc, z3 and the reference in harness/src. '
        'Violations are replayed natively before they are reported.')


def main():
    v = os.path.dirname(os.path.abspath(__file__))
    import props
    with open(v + '/properties.jsonl', 'w') as f:
        for d in DEFS + NA_DEFS:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[dict(
        property=d['id'], quick_cmd='python3 check.py %s quick' % d['id'], thorough_cmd='python3 check.py %s thorough' % d['id'], evidence_file='evidence/%s.json' % d['id'],
        technique='symbolic execution of the compiled code (LLVM IR) with an SMT solver, against a reference', level='model_checking', level_note=NOTE) for d in DEFS],
        not_applicable=NA, notes='No hooks in /repo; the fix: commits there are listed in known-findings.txt.')
    assert all(d['id'] in props.PROPS for d in DEFS)
    json.dump(m, open(v + '/MANIFEST.json', 'w'), indent=1)


NA_DEFS, NA = [], []
if __name__ == '__main__':
    main()
