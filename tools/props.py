prop('C01', 'Tree operations keep every link consistent and do exactly one move',
     'For any forest of nodes, append, prepend, insert_after, insert_before and detach (with the new node not being the target or one of its ancestors, and sibling insertion only next to a node that has a parent) leave parent, first/last child and previous/next sibling of every node mutually consistent: the moved node is removed from its old place and appears exactly at the documented new place, and nothing else changes. '
     'parent(), first_child(), last_child(), previous_sibling(), next_sibling(), has_children() report those links, and root() returns the topmost ancestor of the node at the time of the call.',
     ['inputs', 'histories'], 'every forest shape, every aliasing between the two nodes and their neighbours, every sequence of operations',
     'the unit tests build a handful of trees and never move a node next to its own sibling, re-insert last/only children, or ask root() after a move',
     ['src/tree.rs'], [('append/prepend/insert_after/insert_before/detach', 'src/tree.rs'), ('root()', 'src/tree.rs')],
     'shape analysis (abstract interpretation of MIR over lazily materialised well-formed forests) with a field-level pre/post oracle',
     'All aliasing cases of self/new/neighbours in forests of any size; parent chains of root() up to the materialisation cap of 6.')
prop('C02', 'Tree operations never hit a conflicting node borrow',
     'append, prepend, insert_after, insert_before and detach never panic when no node is borrowed by the caller and the arguments are within the contract of C01, whatever the relation between the two nodes (siblings, parent and child, same parent, already in place), and they return with no node left borrowed.',
     ['inputs', 'histories'], 'every forest shape and every aliasing between the operands and their neighbours',
     'borrow conflicts are run-time panics that appear only for particular aliasing between neighbours; tests use disjoint nodes',
     ['src/tree.rs'], [('RefCell borrows in the mutators', 'src/tree.rs')],
     'borrow typestate in the same shape analysis (RefCell counters of the abstract heap)',
     'Every path of the five mutators over all aliasing cases.')
prop('C08', 'Names and ids map one to one and losslessly',
     'Every attribute and element id has exactly one name, distinct from all others; looking that name up gives the id back, all SVG 1.1 names of the published list are known, and any string that is not exactly one of these names (case, spaces and prefixes included) is not found.',
     ['inputs'], 'all 270 attribute and 80 element ids, every string',
     'tests use a few dozen names; one wrong entry or a lookup that accepts a near-miss passes them',
     ['src/names.rs'], [('perfect-hash tables and Map::get / key', 'src/names.rs')],
     'conditional constant propagation over every enum variant and an unknown string (MIR)', 'Complete over both enums; arbitrary strings by one symbolic-string dataflow run.')
prop('C09', 'Attribute and element categories are exactly the documented sets',
     'Each category query (presentation, inheritable, event kinds, conditional processing, core, fill, stroke; referenced, basic shape, shape, container, text content, graphic, gradient, paint server, filter primitive) answers true for exactly the documented SVG names; the queries on attributes agree with those on ids, and all of them answer false for non-SVG names and for text, comment and root nodes. '
     'is_root/is_element/is_text/is_comment/is_svg_element agree with the kind of node.',
     ['inputs'], 'every attribute id and element id, every node type', 'the tests sample a few ids; CSS filtering, inheritance and text processing depend on each single entry',
     ['src/attribute_type.rs', 'src/element_type.rs', 'src/node.rs'], [('AttributeType for AttributeId/Attribute', 'src/attribute_type.rs'), ('ElementType for Node', 'src/element_type.rs')],
     'conditional constant propagation over every enum variant against frozen category tables', 'Complete: every predicate on every id.')
prop('C10', 'Default values are the SVG initial values',
     'The default value of an attribute is exactly the initial value of the published table (value and type), absent for all other attributes, and a default attribute carries the requested id with that same value.',
     ['inputs'], 'every attribute id', 'the tests look at none or a few of them', ['src/attribute_value.rs', 'src/attribute.rs'], [('AttributeValue::default_value, Attribute::new_default', 'src/attribute_value.rs')],
     'conditional constant propagation over every enum variant against a frozen table', 'Complete over all ids.')
prop('C18', 'Iterators visit exactly the documented nodes in document order',
     'ancestors, preceding_siblings and following_siblings start with the node itself and follow the parent or sibling chain to its end; children yields every child once, forwards and backwards in any mix of next and next_back until both ends meet; traverse yields properly nested start/end edges of the whole subtree from both ends; descendants yields the node and then its subtree in document order. Exhausted iterators keep returning nothing and never leave the subtree. The node just yielded by ancestors, the sibling iterators or children may be detached without disturbing the iteration. Two edges are equal exactly if they are the same end of the same node.',
     ['inputs', 'histories'], 'every tree shape and every interleaving of next and next_back', 'the tests walk one small document forwards', ['src/tree.rs'], [('Axis iterators, Children, Traverse, Descendants', 'src/tree.rs')],
     'shape analysis of every next/next_back call sequence up to a length over lazily materialised trees', 'Trees of any size; call sequences up to 5 (quick) or 6 (thorough) calls.')
prop('C26', 'Value conversions and type queries are exact',
     'Every is_* query on an attribute value or attribute is true for exactly its kind of value, and the link-container query for exactly the three link kinds. Every conversion into an attribute value yields the documented kind with the same payload. Two values are equal exactly if they have the same kind and payload. An attribute made from a name and a node is an IRI link for href, a paint for fill and stroke and a FuncIRI link for every other name.',
     ['inputs'], 'every value kind, every payload, every attribute name', 'tests construct only a few kinds', ['src/attribute_value.rs', 'src/attribute.rs', 'src/node.rs'], [('is_* macros, From impls', 'src/attribute_value.rs'), ('From<(N, Node)> for Attribute', 'src/node.rs')],
     'conditional constant propagation over every variant with unknown payload', 'Complete over all variants and names; text payloads also over a list of concrete words.')
prop('C27', 'Name helpers and svg() filters keep SVG and non-SVG names apart',
     'Converting names between owned, borrowed, id and string forms keeps the name; an SVG id never equals a string name; id(), has_id(), is_svg(), tag_id() and has_tag_name() agree with the stored name; svg() on attributes yields exactly the SVG-named ones and svg() on nodes exactly the elements with an SVG tag, in order, with their id.',
     ['inputs'], 'every id, every string name', 'tests use a few names', ['src/name.rs', 'src/attribute.rs', 'src/attributes.rs', 'src/node.rs'], [('QName/QNameRef', 'src/name.rs'), ('FilterSvgAttrs', 'src/attributes.rs')],
     'conditional constant propagation over every id and an unknown string', 'Complete over all ids.')
ABS = 'abstract interpretation of MIR over abstract DOM states (symbolic names, payloads and unrelated attributes/users) with a DOM-level pre/post oracle'
prop('C03', 'linked_nodes mirrors the link attributes exactly',
     'For all nodes X and T, X occurs in T.linked_nodes() exactly as often as X has attributes that link to T. Setting a link, replacing any attribute (link or plain) by any other, removing an attribute, removing a node and copying a node all keep this true, for any attribute name (SVG or not) and any number of other links and users; uses_count() and is_used() report that list.',
     ['inputs', 'histories'], 'every attribute name, old and new value, every sequence of attribute operations', 'tests check linked_nodes after a few single-link operations; a lost or doubled entry shows only when attributes are replaced, when one node links twice to the same target, or under non-SVG names',
     ['src/node.rs', 'src/document.rs'], [('set_link_attribute / remove_attribute', 'src/node.rs'), ('_remove', 'src/document.rs')], ABS,
     'Any name, any number of unrelated attributes and other users; one or two links from the node under change to the same target. Removal and copying over explicit document shapes.')
prop('C04', 'Removing nodes leaves no reference to them',
     'remove_node removes exactly the given subtree: all its nodes are detached, leave the document and its storage, no remaining node has a link attribute to or a linked_nodes entry for one of them, they keep none to the rest, and every unrelated node, attribute and link stays. drain removes exactly the topmost descendants for which the predicate holds (never the given root itself) in the same way and returns how many it removed.',
     ['inputs', 'histories'], 'every subtree, every pattern of links into, out of and inside it (any attribute name), every predicate', 'tests remove a node with one linking node',
     ['src/document.rs'], [('remove_node/_remove', 'src/document.rs'), ('drain/_drain', 'src/document.rs')], ABS,
     'Five document shapes (links into, out of and inside the subtree, repeated links, non-SVG names, leaf and only-child cases), removal of four different subtrees each, and the drain predicate as an arbitrary function of the node; all subtrees of up to 3 (4) nodes of elements, text and comments, with and without links.')
prop('C05', 'Link attributes are accepted exactly when they are legal',
     'set_attribute_checked accepts a link exactly if the target has a non-empty id that differs from the id of the node and the target does not itself link to the node; otherwise it changes nothing and reports ElementMustHaveAnId if the target has no id and ElementCrosslink in the other cases. set_attribute panics exactly in the cases in which set_attribute_checked reports an error. Plain values are always accepted.',
     ['inputs', 'histories'], 'every pair of nodes, ids, names and existing attributes', 'tests try one crosslink and one missing id on empty nodes; losing the old attribute before the error is invisible there',
     ['src/node.rs'], [('set_link_attribute', 'src/node.rs')], ABS,
     'Any names and ids, any number of unrelated attributes and users, old value absent/plain/link, target fresh/old target/itself, with and without a back link; target above, below or beside the node with 0, 1 or 5 users.')
prop('C06', 'Attributes of a node have unique names and behave like a map',
     'After setting an attribute the node has exactly one attribute with that name, with the given value (a link being stored as Link for href, Paint with its fallback for fill and stroke, FuncLink for every other name); set_attribute_if_none keeps an existing one; after removing it there is none; all other attributes of all nodes are untouched and keep their order. get, get_mut, get_value, get_value_mut, contains, has_attribute, len and is_empty agree with the list for every name, SVG or not, and iterating (by reference, mutably or by value) yields every attribute once, in order.',
     ['inputs', 'histories'], 'every name, value and attribute list', 'tests use short lists and a few names',
     ['src/attributes.rs', 'src/node.rs'], [('Attributes::insert/insert_impl/remove_impl/get', 'src/attributes.rs'), ('set_attribute*', 'src/node.rs')], ABS,
     'Any name and any number of unrelated attributes before and after; lookups also over all pairs of eleven concrete names.')
prop('C17', 'Copies are equal, complete and unattached',
     'copy_node yields a new unattached node of the same document with the same type, tag name, attributes in the same order (links included, registered at their targets) and text, without id and children; copy_node_deep does the same for the node and its whole subtree in order. The source, its children and every other node keep everything (only linked_nodes of link targets grow).',
     ['inputs'], 'every node kind, attribute set and subtree', 'tests copy two small trees',
     ['src/document.rs'], [('copy_node, copy_node_deep', 'src/document.rs')], ABS,
     'Elements with SVG and non-SVG tags and attributes, all three link kinds, text and comment nodes, nested children to depth 2; all generated subtrees of up to 3 (4) nodes.')
prop('C19', 'Every node is registered, and dropping the document frees it',
     'create_element, create_node and new hand out new, empty, unattached nodes of the requested kind, registered in the document under their own key; invalid kinds and empty tag names are refused by panicking. svg_element() is the first svg child of the root. Removed nodes leave the registry, and dropping the document breaks every link attribute, linked_nodes entry and tree link of every registered node, so that no reference cycle keeps nodes alive.',
     ['inputs', 'histories'], 'every document and every order of creation and removal', 'leaks are invisible to the tests',
     ['src/document.rs'], [('Slab registration', 'src/document.rs'), ('Drop', 'src/document.rs')], ABS,
     'Creation in arbitrary documents, drop and removal over five explicit document shapes and all generated subtrees of up to 3 (4) nodes.')
PAB = 'abstract interpretation of the MIR of Document::from_str over abstract XML/CSS input (unknown strings, svgtypes/roxmltree/simplecss calls as models), judged per path against a reference specification'
prop('C07', 'Parsing never panics',
     'Document::from_str returns a document or an error for every input and never panics: no attribute value, style source, reference, selector, text content or document structure makes an unwrap, index, slice, overflow check, RefCell borrow or explicit panic of svgdom fire.',
     ['inputs'], 'every input document', 'tests parse a few dozen documents; a panic needs one unusual value, text or reference',
     ['src/parser/mod.rs', 'src/parser/text.rs', 'src/document.rs', 'src/node.rs'], [('parse_svg', 'src/parser/mod.rs'), ('prepare_text', 'src/parser/text.rs')], PAB,
     'All paths of the input families of C11-C14 and C21-C23 (arbitrary attribute values in every attribute, bounded document structures and text). Panics inside the dependencies and stack exhaustion by deep nesting are not covered.')
prop('C11', 'Attribute values get the type the SVG attribute prescribes',
     'For every SVG attribute and element type, a parsed attribute value becomes exactly the typed value prescribed for that attribute: keywords (none, inherit, currentColor, auto, ...) where the attribute allows them, otherwise the result of parsing the whole trimmed value as the type of that attribute (length, number, list, colour, paint, transform, path, points, view box, aspect ratio, angle, string), including the attributes whose type depends on the element. '
     'A value that does not parse is dropped and nothing else changes; empty number lists, length lists and paths are dropped; path data is kept up to the first error.',
     ['inputs'], 'every attribute, element type and value', 'tests sample some attributes with ordinary values; swapping two rows of the table or a keyword in one of them passes',
     ['src/parser/mod.rs'], [('parse_svg_attribute_value', 'src/parser/mod.rs')], PAB,
     'Complete over the 270 attributes; keywords individually, all other values as one unknown string; element types symbolic where the attribute is element-dependent (quick) or always (thorough).')
prop('C12', 'Numbers with a 0..1 range are clamped',
     'opacity, fill-opacity, flood-opacity, stroke-opacity, stop-opacity and k1..k4 are stored as the parsed number bounded to 0..1, whether given as an attribute, by a style sheet or in a style attribute.',
     ['inputs'], 'every number, attribute and source', 'the tests clamp one attribute', ['src/parser/mod.rs'], [('f64_bound', 'src/parser/mod.rs')], PAB + '; the stored number as a function of the parsed one, evaluated over the regions of the number line',
     'Every attribute and source, every number (five regions), on an element of unknown type.')
prop('C13', 'Style sources override each other in the CSS order',
     'For every presentation attribute and transform, the value an element ends up with is that of the strongest source that yields one: style attribute over matching style sheet rules (later rule over earlier) over the XML attribute; sources that do not parse are skipped. Only presentation attributes and transform are taken from CSS, and the marker property sets marker-start, marker-mid and marker-end.',
     ['inputs'], 'every property, every combination of sources and values', 'tests combine a few sources for fill', ['src/parser/mod.rs'], [('process_node, parse_css_attribute_value, parse_style_attribute', 'src/parser/mod.rs')], PAB,
     'Every property with every pair of sources, arbitrary values and the keywords inherit and none; a value between two keywords in three sources for referencing properties; all four sources for some properties (quick) or all (thorough). Values that are references resolve to missing elements here (C14 covers existing ones). !important is not supported by svgdom.')
prop('C14', 'References in a parsed document resolve to the first element with the id',
     'A reference (href, fill, stroke, clip-path, filter, marker*, mask) becomes a link to the first element in document order with that id, wherever it is and whatever source the reference comes from, and the target lists the referencing element. A reference to an element that does not exist in the final document takes the given fallback, or none for fill, or the reference text; references to the element itself and ones that close a two-element cycle are dropped.',
     ['inputs'], 'every referencing attribute, source, target position and fallback', 'tests have single references to existing gradients', ['src/parser/mod.rs'], [('resolve_links', 'src/parser/mod.rs'), ('Links', 'src/parser/mod.rs')], PAB,
     'All referencing attributes and sources, 12 target positions, unknown reference texts and ids, source and target elements of unknown type, odd reference texts, all fallbacks; cycles, shared targets and chains for pairs of attributes.')
prop('C21', 'White space in text content follows xml:space and nothing else is lost',
     'In a parsed text element every tab, newline and carriage return becomes a space; the words of the element (the text of all its nodes in order, split at white space) are exactly those of the source, and every text node keeps its own non-space characters, byte length and kind of character notwithstanding. With xml:space=default runs of spaces in a node collapse to one, and an element with a single text node has no leading or trailing space; with several nodes that all have words, the text of the whole element is the source with its runs of spaces collapsed and both ends trimmed; '
     'with xml:space=preserve nothing else is changed; xml:space is inherited from ancestors and overridden by descendants. No empty text node, and no xml:space attribute that was not in the source, is left.',
     ['inputs'], 'every text content, tspan structure and xml:space combination', 'tests have a dozen examples', ['src/parser/text.rs'], [('prepare_text, prepare_text_children, trim', 'src/parser/text.rs')], PAB + ', with generic characters for everything that is not white space',
     'All single nodes of up to 4 characters over {generic character, space, tab, newline, CR}, 25 special characters of Unicode and markup; about fifty structures of tspan, tref, textPath, altGlyph, a and comments with 1 to 4 text nodes and every assignment of 4 to 6 white-space shapes; xml:space on the element, tspans and ancestors. Which node keeps a shared space between nodes is not prescribed.')
prop('C22', 'Style sheet rules apply to exactly the elements their selectors select',
     'Rules of style elements apply to an element exactly if the CSS selector (type, universal, class, id and attribute selectors, first-child, descendant, child and adjacent-sibling combinators) selects it in the source document, ignoring comments and text between elements. Only style elements of type text/css or without a type count, all of them, in document order.',
     ['inputs'], 'every selector and document', 'tests use one element per selector', ['src/parser/mod.rs'], [('Element for XmlNode, resolve_css', 'src/parser/mod.rs')], PAB + '; simplecss matching interpreted together with svgdom callbacks, against a reference matcher',
     'All simple selectors of a generator and their combinations by two and three over one model document with 12 elements; padded attribute values; all lists of up to three style elements over four types. Selector parsing and specificity are simplecss territory.')
prop('C23', 'The parsed document is the SVG part of the source',
     'Document::from_str keeps every element of the SVG namespace with a known name, in order and nesting, with its id and its attributes that have a known name and no namespace or the SVG, xlink or xml namespace; comments and text are kept in place. Foreign and unknown elements (with all their content), style elements, class and style attributes, other attributes, processing instructions and white-space-only text outside text, tspan and tref are dropped. '
     'If the first kept top-level element is not svg the result is NoSvgElement; XML errors are passed on.',
     ['inputs'], 'every document', 'tests check a few small documents', ['src/parser/mod.rs'], [('parse_svg, process_node', 'src/parser/mod.rs')], PAB,
     'All child lists of up to 3 (thorough 4) nodes over 10 node kinds in four parents, all element and attribute names, all namespaces, all attribute lists of up to 3 (4) over 12 attribute kinds, prologue/epilogue combinations, some large documents.')
WAB = 'abstract interpretation of the MIR of the writer over abstract documents; the calls of the xmlwriter API are recorded as events and compared with a reference event sequence'
prop('C15', 'The written document contains every node and attribute once, in order',
     'Writing a document produces, in document order, every element with its tag name, every text and every comment exactly once and properly nested; the attributes of an element are: on an svg element directly below the root xmlns, and xmlns:xlink exactly if the element or a descendant has an href; the id if it is not empty; the SVG attributes in AttributeId order (href as xlink:href, space as xml:space); then the other attributes in stored order; each exactly once with its serialized value. '
     'The unicode attribute is written with every character as a hexadecimal reference unless it already starts with a reference, and white space is preserved exactly inside text elements. WriteOptions reach the XML writer and the values unchanged, and Display uses the documented default options.',
     ['inputs'], 'every document and every option', 'the tests write a few documents with few attributes', ['src/writer.rs', 'src/document.rs'], [('write_dom, write_attributes, write_escaped', 'src/writer.rs')], WAB,
     'All element and attribute names, all value kinds with unknown payload, attribute orders of 3 SVG and 2 other attributes, 9 places of href, text/tspan/comment structures, all generated trees of up to 3 (4) nodes below svg, unknown options. Document sizes are bounded by the listed families; escaping inside xmlwriter and nested text elements are not covered.')
prop('C16', 'Values are written as exactly their SVG text',
     'Serializing an attribute value appends exactly its text to the buffer and changes nothing before it: none, inherit and currentColor as these keywords, a string as it is, a link as # and the current id of its target, a FuncIRI link as url(#id), a paint as url(#id) followed by a space and its fallback if it has one, and every other value as the svgtypes text of that same payload with the given options. Display gives the same text with default options; an attribute is shown as name=\'value\' and an attribute list as these joined by one space.',
     ['inputs'], 'every value, target id, fallback and option set', 'tests write some values with fixed options', ['src/attribute_value.rs', 'src/attribute.rs', 'src/attributes.rs', 'src/name.rs'], [('write_buf_opt', 'src/attribute_value.rs')], WAB,
     'Complete over the variants and fallbacks, with unknown payload, ids, options and previous buffer contents. The svgtypes serializers themselves are trusted.')
prop('C20', 'Node accessors read and write exactly the field they name',
     'Setting the id, text or tag name of a node stores exactly the given value in that node, reading it back gives that value, and nothing else of any node changes; an empty tag name is refused before anything is changed. The node type queries, has_id, has_tag_name, has_parent (false directly below the root) and is_detached (true exactly after removal from the document) report the stored state without changing it.',
     ['inputs'], 'every node type, value and document around the node', 'tests set and read a few constants', ['src/node.rs', 'src/name.rs'], [('Node accessors', 'src/node.rs')], ABS,
     'Complete over node types with symbolic ids, texts and names, inside one abstract document with links and any number of other attributes.')
prop('C24', 'Text forms of nodes, names and errors show exactly what they stand for',
     "Display of a node is <tag id='...' attributes> for an element, <!--text--> for a comment, the text for a text node and nothing for the root; Debug is Element(tag id='...' attributes; linked-nodes: 'id' ...), Comment(text), Text(text), Root(). The id part appears exactly if the id is not empty, the attribute part exactly if there are attributes (in stored order), the user list exactly if there are users (all of them, in order). "
     'Attribute and element ids and names are shown by their SVG name (xlink:href and xml:space with their prefix in qualified attribute names) and non-SVG names as they are. A wrapped error is shown as the error it wraps; different errors have different texts.',
     ['inputs'], 'every node, name and error', 'no test looks at most of these forms', ['src/writer.rs', 'src/name.rs', 'src/names.rs', 'src/attributes.rs', 'src/error.rs'], [('fmt::Display/Debug for NodeData', 'src/writer.rs'), ('fmt::Display for QName', 'src/name.rs'), ('fmt::Display for errors', 'src/error.rs')], WAB,
     'Complete over ids and node types; unknown ids, texts and names; up to three attributes and two users.')
prop('C25', 'Writing and parsing again gives the same document',
     'For every document in which no reference is rejected and every value is finite, Document::from_str(doc.to_string()) yields a document with the same elements, ids, attributes, links and text.',
     ['inputs'], 'every document', 'tests compare a few fixed texts', ['src/parser/mod.rs', 'src/writer.rs'], [('parse_svg and write_dom', 'src/writer.rs')], None, '')
NA.append(dict(property='C25', reason='Needs the composition of svgtypes number/path formatting, xmlwriter escaping and indentation, and the roxmltree and svgtypes parsers, i.e. equality of unbounded run-time strings and floats through three foreign crates; no sound static argument in reach bounds that. The svgdom sides are decided separately by C11, C13-C16, C21 and C23.'))
