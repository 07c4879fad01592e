import json
SER='instant-xml/src/ser.rs'; DE='instant-xml/src/de.rs'; IM='instant-xml/src/impls.rs'; LIB='instant-xml/src/lib.rs'; ANY='instant-xml/src/any_element.rs'
MS='instant-xml-macros/src/ser.rs'; MD='instant-xml-macros/src/de.rs'; ML='instant-xml-macros/src/lib.rs'; MM='instant-xml-macros/src/meta.rs'; MC='instant-xml-macros/src/case.rs'
P=[]
def p(id,title,statement,over,q,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p('C01','Serialized output is always a well-formed, namespace-well-formed element',
 "Whenever serializing a value of a type that is written as an element (a struct, tuple struct, unit struct or forwarding enum) succeeds, the output is exactly one well-formed XML element: every start tag is closed by its own end tag or is self-closing, children lie inside their parent, nothing precedes or follows the root, and attribute and text values never break the markup. Every prefix used in an element or attribute name is bound by a declaration in scope at that point, and no element carries the same attribute or namespace declaration twice.",
 ['programs','inputs'],'All derived type definitions (namespaces, prefixes, force_prefix, attributes, direct content, optional and repeated fields, transparent, forward and tuple types) and all their values; namespace names are those without characters that need escaping.',
 'The tests compare about forty fixed types with one or two values each against literal strings; the state of the serializer after an empty or prefixed child with arbitrary siblings and combinations of absent fields is never sampled.',
 [SER,MS,IM],[('start/attribute/content state machine and prefix map',SER+' Serializer::{write_start,write_attr,end_start,end_empty,write_close}'),('end_empty vs end_start choice',MS+' StructOutput::named_fields')],
 [('prefixes, default_ns, state','namespace context and position within a tag',SER+' Serializer')],['to_string output'])
p('C02','Every written element and attribute name resolves to its declared identity',
 "In serialized output, each element and each attribute, resolved by the namespace rules of XML against the declarations in the document itself, has exactly the namespace and local name that its type and field declare. This holds wherever the element appears: after siblings that declared other namespaces, below ancestors that bound the same prefix differently, with or without a forced prefix, and for types without any namespace.",
 ['programs','inputs'],'All nestings and orders of types with arbitrary default namespaces, prefix declarations (including redeclared prefixes) and forced prefixes.',
 'Wrong scoping shows only for particular combinations of ancestors and preceding siblings; the tests fix a handful of two- and three-level combinations and mostly compare strings rather than resolved names.',
 [SER,MS],[('choice between default namespace, prefix and xmlns declaration',SER+' write_start'),('restoring the context when an element ends',SER+' write_close, end_empty'),('attribute prefixes',SER+' write_attr')],
 [('prefixes','namespace -> prefix in scope',SER),('default_ns','default namespace in scope',SER)],['to_string output','Serializer calls'])
p('C03','Written text and attribute values read back exactly, or are refused',
 "Every string or character written as text content or as an attribute value appears in the output such that undoing XML's entity and character references gives back exactly the original characters, and the written form contains no raw '<', no raw '&' outside a reference, and no raw quote that could end an attribute value. A string containing a character that XML cannot represent is refused with an error rather than written.",
 ['inputs'],'All strings over all Unicode characters, in element content, direct content, attributes, scalar enum variants and values written through the display helper.',
 'The escaping tests use a few fixed strings; adjacency of several escaped characters, multi-byte characters next to them, and unrepresentable characters are not covered.',
 [IM,SER,MS],[('escaping',IM+' encode'),('raw output of display values',IM+' DisplayToXml, display_to_xml'),('scalar enum output',MS+' serialize_scalar_enum')],observe=['to_string output'])
p('C04','Entity and character references decode to exactly their characters',
 "When reading text content and attribute values, each predefined entity and each decimal or hexadecimal character reference is replaced by exactly the character it denotes and everything else is kept unchanged; CDATA content is taken verbatim. A reference that is unknown, unterminated, malformed or denotes a character not allowed in XML makes reading fail (so may one of more than eight characters). Values without references can be borrowed from the input unchanged.",
 ['inputs'],'All character sequences as raw text, attribute value or CDATA content (references of up to eight characters between & and ;).',
 'The unit test lists two dozen strings; the decoder is a character-level state machine whose behaviour on arbitrary interleavings of references, multi-byte text and malformed references is not sampled.',
 [DE],[('decoder state machine',DE+' decode'),('character validity',DE+' valid_xml_character'),('CDATA and text tokens',DE+' Context::next')],observe=['from_str result'])
p('C05','Reading back what was written gives an equal value',
 "For every type with both derivations and every value of it that can be told apart from other values in XML, serializing the value succeeds or reports an unrepresentable character, and deserializing the output yields an equal value.",
 ['programs','inputs'],'All derived type definitions and all values, leaving out what has no XML representation (an empty vector inside Some, an empty Some string as direct content, several scalars in a row in a tuple struct).',
 'Round trips are tested for single hand-picked values; the interplay of namespaces, optional and repeated fields, empty strings, nesting and ordering multiplies into combinations no fixed list covers.',
 [SER,DE,IM,MS,MD],[('paired derives',MS+', '+MD),('paired escaping',IM+' encode / '+DE+' decode')],observe=['from_str(to_string(v))'])
p('C06','Input names resolve by namespace scope, not by the prefixes chosen',
 "An element or attribute in the input is identified by its local name and the namespace bound by the innermost enclosing declaration (its own start tag included, whatever the order of attributes): unprefixed elements take the default namespace, unprefixed attributes take none, and the xml prefix is always bound. Rewriting a document with other prefixes or with declarations moved to other in-scope places never changes the result. A name that has to be resolved and uses a prefix that is not in scope makes reading fail.",
 ['inputs'],'All documents: every placement, shadowing and undeclaring of default and prefixed namespaces at every depth.',
 'The namespace tests fix a few documents; shadowing, siblings after a scope ended, declarations after their use in the same tag and prefix renaming are not explored.',
 [DE],[('scope stack',DE+' Context::{stack,lookup,default_ns,element_id,attribute_id}')],[('stack of levels','declarations of each open element',DE+' Context.stack')],['from_str result','Deserializer::{element_id,attribute_id,parent}'])
p('C07','Children and attributes map to fields by name, in any order, rest ignored',
 "A struct with named fields is filled from the attributes and child elements whose namespace and local name match its fields, and from its own text for a direct field, independent of the order in which differently named ones appear; repeated fields collect their matches in document order. Attributes and whole child subtrees that match no field have no effect on the result, at any depth and whatever well-formed, balanced content they hold.",
 ['programs','inputs'],'All derived struct definitions and all documents, including any number of unrelated attributes, subtrees, comments and white space.',
 'The tests use children in declaration order with at most one ignored element; reorderings and unknown subtrees that contain look-alike names are not sampled.',
 [MD,DE],[('matching chain',MD+' deserialize_struct, named_field'),('skipping',DE+' Deserializer::ignore'),('nested element boundaries',DE+' Deserializer::nested, next')],observe=['from_str result'])
p('C08','Required values must occur once; repeats and omissions are rejected',
 "Reading succeeds only if every required field occurs exactly once and every optional field at most once: a missing required field and a repeated single-valued field (attribute, scalar, struct, enum, boxed or captured element) are errors. An optional field is absent exactly when nothing matched it (an element without any text does not count as a match for a field that needs text, such as a number), and a vector holds exactly as many values as there were matches.",
 ['programs','inputs'],'All derived struct definitions and all multiplicities of each field in a document.',
 'Missing and duplicate cases are tested for a few scalar fields only; the combinations of field kind, wrapper type and multiplicity are not covered.',
 [IM,MD,LIB],[('accumulators',LIB+' Accumulate; '+IM+' OptionAccumulator, Vec, Box'),('duplicate checks',IM+' and '+MD+' deserialize')],observe=['from_str result'])
p('C09','Only complete documents are accepted',
 "Reading succeeds only if the input is one complete element with properly nested, matching end tags: every truncation of a document before the end of its root element, every mismatched, missing or extra end tag, and anything but comments and white space after the root makes reading fail. Unsupported constructs (document type declarations, processing instructions) are refused rather than skipped.",
 ['inputs'],'All inputs: every prefix of every document, and every insertion, deletion or exchange of a tag at any depth, also inside ignored content.',
 'No test truncates a document or adds trailing content; mismatched tags are tested at one place.',
 [DE],[('close matching and end of input',DE+' Context::next, Deserializer::next'),('root completion',DE+' Deserializer::{new,deserialize}')],observe=['from_str result'])
p('C10','Parsing limits are enforced exactly, per element, everywhere',
 "With given limits, an input is rejected exactly when some element has more attributes than the attribute limit, declares more prefixes than the declaration limit, or is nested deeper than the level limit (the root being level one); the counts start afresh for each element, and elements that are skipped or captured dynamically are subject to them as well. Inputs within the limits are never rejected because of them.",
 ['inputs','configurations'],'All limit values and all documents around them, with the excess at any depth and position (the root tag itself is read under the default limits).',
 'Limits are not covered by any test.',
 [DE],[('limit checks',DE+' Context::next, Limits, Deserializer::with_limits')],[('limits, records, stack','configured limits and current counts',DE+' Context')],['Deserializer::with_limits(..).deserialize()'])
p('C11','Dynamically captured elements hold the whole subtree',
 "A dynamically captured element holds its resolved namespace, local name, every attribute with resolved namespace and decoded value in document order, all of its own text, and all child elements recursively in document order. Converting it to its owned form yields an equal value.",
 ['inputs'],'All element trees, as root, single, optional, boxed or repeated field, mixed with ordinary fields.',
 'The tests capture a few small trees; mixed text, namespace scoping inside captures and deep or repeated captures are not sampled.',
 [ANY],[('recursive capture',ANY+' AnyElement::deserialize, into_owned')],observe=['from_str::<AnyElement>'])
p('C12','A nested reader never leaves its element',
 "For every sequence of calls, a deserializer obtained for a child element yields exactly the nodes of that element in document order - its attributes first, then its content - then ends and stays ended; once it has been read to its end or skipped, the parent continues with the node right after that element. A node handed to a reader up front is delivered first and only to that reader, and extracting a string consumes no more than the value asked for.",
 ['histories','inputs'],'All documents and all sequences of next, nested, ignore, take_str and for_node calls that finish each child before going on with its parent.',
 'The low-level reader is only used by the tests through derived code, which exercises a few fixed call orders.',
 [DE],[('end detection',DE+' Deserializer::next'),('nesting, pushing a node',DE+' Deserializer::{nested,for_node,ignore,take_str}')],[('level, done','where the element of this reader ends',DE+' Deserializer')],['Deserializer public methods'])
p('C13','The serializer only accepts calls in a valid order',
 "The low-level writer accepts an attribute or the end of a start tag only right after a start tag was begun, and new elements, content and end tags only outside one; any other call fails and writes nothing. While one root element is written and elements are closed innermost first, the text written after each accepted call is a prefix of a well-formed document, and the default namespace and prefixes the writer reports are those in scope at that point.",
 ['histories'],'All sequences of writer calls up to the explored length, with and without namespace contexts (a context having the namespace of its element as default).',
 'The tests use the writer through derived code only, so that no out-of-order call is ever made.',
 [SER],[('state checks',SER+' Serializer::{write_start,write_attr,write_str,end_start,end_empty,write_close}')],[('state','Element / Attribute / Scalar',SER+' State')],['Serializer public methods'])
p('C14','Scalar text maps to exactly one value, or fails',
 "Integers are read from decimal text (with surrounding white space and an optional sign) exactly when the value fits the type, booleans from exactly true, 1, false and 0, characters from exactly one character, strings from any text, dates and points in time from valid ones in the documented form, floating-point numbers from decimal text (correctly rounded), addresses from their standard notations, and scalar enums from exactly the texts of their variants; any other text makes reading fail. Each value is written in one canonical form that reads back to itself.",
 ['inputs'],'All texts in element content, attributes and direct content for each supported scalar type.',
 'A few literals per type are tested; boundaries of the ranges, signs, white space, leading zeros and near-miss texts are not.',
 [IM,MD],[('number, bool, char, string impls',IM),('scalar enums',MD+' deserialize_scalar_enum, '+ML+' VariantMeta')],observe=['from_str and to_string results'])
p('C15','Naming rules give the documented names on both sides',
 "The name used for a type, field or enum variant is its explicit rename if there is one, otherwise its identifier (without a raw marker) transformed by the container's rename_all rule, which yields the documented case style; writing and reading use the same name. All xml attributes on an item take effect, whether given in one list or several.",
 ['programs'],'All ASCII identifiers in the conventional style (fields in snake case, types and variants in Pascal case) and all eight case rules, for struct fields and enum variants, with and without explicit renames.',
 'The unit tests of the rules use four identifiers; digits, single letters, consecutive capitals and multiple underscores are not covered, nor are the rules exercised through both derives.',
 [MC,ML,MM],[('case conversion',MC+' RenameRule::{apply_to_field,apply_to_variant}'),('tags',ML+' ContainerMeta::tag, FieldMeta, VariantMeta'),('attribute parsing',MM+' meta_items')],observe=['to_string and from_str of derived types'])
p('C16','A failing writer makes serialization fail at once',
 "If the output sink reports an error at any point, serialization returns a formatting error, makes no further write to the sink, and what the sink accepted before is a prefix of the output of an undisturbed run. If the sink never fails, serialization produces the same output for any sink and any division into pieces.",
 ['fault_sequences','programs'],'A failure at every write call and at every byte position, for all kinds of types and values.',
 'No test uses a sink that fails.',
 [SER,IM,MS,LIB],[('error propagation with ? at each write',SER+', '+IM+', '+MS)],observe=['to_writer with a recording sink'])
p('C17','Namespace declarations are placed as documented and inherited',
 "A struct element declares its namespace as default when neither the default namespace nor a prefix declared by an ancestor covers it, and declares each of its own prefixes except those whose namespace already has a prefix in scope: prefix declarations of ancestors are inherited and not repeated. An element whose namespace is the default is written without a prefix unless one is forced; one whose namespace is not the default but has a prefix declared by an ancestor uses that prefix, scalar fields without one declare their namespace on themselves, and a forced prefix is used whenever an ancestor declares one for the element's namespace. No other prefix declarations are written.",
 ['programs','inputs'],'All nestings of types with default namespaces, prefix declarations and forced prefixes (a prefix that an element itself binds to something else counts as unavailable to it; repeating the default declaration already in scope is allowed).',
 'The tests fix individual combinations; which declaration appears depends on the whole chain of ancestors and on siblings that have already ended.',
 [SER,MS],[('declaration choice',SER+' write_start')],[('prefixes, default_ns','declarations in scope',SER)],['to_string output'])
p('C18','Transparent, forward and tuple types keep to their position and names',
 "A transparent struct contributes its fields' elements in place, without an element of its own, and is read from such elements among its parent's children; a forwarding enum is written as the element of its variant's content and read as the first variant whose content accepts the element's name. A tuple struct writes its fields as child elements in order and is read only from children that match its fields in that order.",
 ['programs','inputs'],'All such types in all containers (field, vector, option, box, root, each other) and all child sequences.',
 'Each mode is tested with one or two types and documents in the expected order; mixtures and unexpected children are not.',
 [MD,MS],[('inline, forward and tuple derives',MD+' deserialize_inline_struct, deserialize_forward_enum, deserialize_tuple_struct; '+MS)],observe=['to_string and from_str'])
p('C19','Output mirrors the value: fields in order, absent values left out',
 "Serializing a struct writes its present attributes in field order, then one element per non-attribute field value in field order, each carrying exactly that field's value; vectors write their items in order, absent optional values and empty vectors write nothing, and direct content comes as the element's own text. Custom serialization functions are called for exactly their field, at its place.",
 ['programs','inputs'],'All derived type definitions and all values.',
 'Tests compare fixed values of fixed types; which fields are present, and in which combination, is not varied.',
 [MS,IM,SER],[('field emission',MS+' StructOutput::{named_fields,named_field,unnamed_fields}'),('wrapper types',IM+' Option, Vec, Box, Cow')],observe=['to_string output'])
p('C20','Every input is answered with a value or an error',
 "For every input string, reading any type returns: it never panics, hangs or overflows, and the outcome depends only on the sequence of XML tokens in the input. In particular damaged documents (bytes removed, inserted, duplicated or exchanged anywhere) yield either the value their tokens denote or an error.",
 ['inputs'],'All input strings, explored by damaging generated documents at random and by enumerating short token sequences.',
 'The tests feed well-formed documents and a few erroneous ones.',
 [DE,MD,IM,ANY],[('token loop',DE+' Context::next'),('unwraps',DE+' Deserializer::parent, decode')],observe=['from_str result'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
