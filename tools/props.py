# -*- coding: utf-8 -*-
"""The properties, as data: tools/gen.py writes properties.jsonl and
MANIFEST.json from this file."""

I, H, C, S, F = 'inputs', 'histories', 'configurations', 'schedules', \
    'fault_sequences'


def P(id, title, statement, over, text, why, files, mech, observe=()):
    return dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=list(over), text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=list(files),
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None))

SCH = 'flatland/schema/'
VAL = 'flatland/validation/'

PROPS = [
P('P01', 'Setting a scalar never raises and keeps value, u and raw in tandem', '''
For every scalar type and any input (text, bytes, number, date, bool, None or
container), set() and construction with a value return without raising: on
success .value is the adapted native value and .u its unicode serialization
(u'' for None), on failure set() returns False, .value is None and .u is the
unicode text of the input (u'' for None; undecodable bytes are replaced), and
.raw is always the input itself. .u is always unicode text, outcomes depend
only on the schema and the input and not on what was set before, and setting
an element that has a value to its own .u (unless number formatting lost digits) succeeds and leaves .u unchanged.
Number types refuse negative values when signed is false, Enum and Constrained accept exactly
their valid values, Boolean exactly its declared synonyms, strings are
stripped exactly when strip is true, and temporal types accept exactly the
existing calendar dates and times written in their fixed formats. unicode() of an element is its .u, str()
that in UTF-8, and serialize() gives unicode text for any value.''',
  (I, C, H), 'all scalar types and their options (signed, format, strip, synonyms, '
  'enum values, child types), all inputs, any sequence of sets on one element',
  'Tests set a handful of literals per type; hostile text, undecodable bytes, NaNs and '
  'reuse of one element across failing and passing sets are not sampled.',
  (SCH + 'scalars.py', SCH + 'base.py'),
  [('Scalar.set', SCH + 'scalars.py'), ('adapt/serialize of each type', SCH + 'scalars.py')],
  ('set() result, .value, .u, .raw',)),

P('P02', 'flatten() output restores an equal element tree through from_flat()', '''
For any schema with unambiguous field names and any element tree built from it,
flatten() emits exactly one (flattened name, u) pair for every flattenable
element, and feeding these pairs to from_flat() of the same schema rebuilds a
tree with the same structure, the same .u and (where text is lossless) .value
of every element and the same flatten() output: for any separator, for pairs given as a
list or as a dict, in any order that keeps repeated names in sequence. (What flat data can not express is excepted:
members and sparse fields with only blank text in sequences that prune, and empty sparse fields and last members that emit no pair.)''',
  (I, C), 'all compositions of scalar, Dict, SparseDict, List, Array, MultiValue, '
  'JoinedString, compound date and Form schemas, all values, all separators and pair orders',
  'Tests round-trip a few fixed shapes; nesting, unusual names, separators and pair order are unsampled.',
  (SCH + 'base.py', SCH + 'containers.py', SCH + 'compound.py', SCH + 'scalars.py'),
  [('Element.flatten/flattened_name/set_flat', SCH + 'base.py'),
   ('_set_flat of List, Array, Mapping', SCH + 'containers.py')],
  ('flatten()', 'from_flat()')),

P('P03', 'from_flat() takes exactly the addressed pairs and ignores hostile ones', '''
set_flat() gives every scalar the text of the first pair that carries its
flattened name, gives an Array or MultiValue one member per pair carrying its
name in order (without the blank ones when prune_empty), and leaves
scalars outside of sequences that no pair addresses as they were. Pairs that address
nothing in the schema (unknown fields, names that merely share a prefix,
missing separators, missing, malformed, oversized or superfluous indexes, addresses of a
container itself, any unicode text; a separator that ends an index is no difference) never raise and never change any value outside of sequences;
at most a list gains a blank member for an index, and a sparse mapping a blank field, that the pair's name starts with.
Afterwards raw is the pair's text in an addressed scalar, unchanged in other fields, and Unset in the element itself (unless it is such a scalar) and in every mapping, list and array that was addressed.''',
  (I, C), 'all schemas, all multisets and orders of pairs: genuine, duplicated, mutated, truncated, extended and random',
  'Tests feed well-formed pairs plus a few bogus keys to single containers, not nested ones.',
  (SCH + 'containers.py', SCH + 'scalars.py', SCH + 'base.py'),
  [('_set_flat of List, Array, Mapping, Scalar', SCH + 'containers.py')],
  ('from_flat()', 'set_flat()')),

P('P04', 'Lists built from flat data are bounded, pruned and ordered', '''
Whatever indexes flat data names, set_flat() leaves a List with at most
maximum_set_flat_members members: with prune_empty exactly the lowest distinct
indexes that have a non-blank pair, in ascending numeric order and renumbered from zero; without it one member
for every position from 0 to the highest index named (cut off at the maximum), at its own position,
blank where no pair names it. Existing members are always replaced, this holds at every nesting level,
and the work done is bounded by the number of pairs and the maximum, not by the size of the indexes.''',
  (I, C), 'all index multisets (sparse, huge, duplicated, leading zeros, out of order), both prune modes, all maxima, nested lists',
  'Tests use a few small index sets and one maximum, never nested or adversarial ones.',
  (SCH + 'containers.py',),
  [('List._set_flat', SCH + 'containers.py')],
  ('member count, values and flattened names after from_flat',)),

P('P05', 'Element trees stay well formed under any history of mutations', '''
After any sequence of public operations (set, set_flat, set_default, item and
slice assignment, append, extend, +=, *=, insert, pop, remove, delete, sort, reverse, update,
setdefault, clear) on any element of a tree, including ones that raise, every
element reached through children has that container as its (list slots aside) parent and the same root, is reached exactly
once, and is an instance of the declared schema of its position. A List
member's flattened name contains its current index and a Dict field's its
key, members popped from a List are detached, and reads never change the tree.''',
  (H, I), 'all operation sequences on all container nestings',
  'Tests check parents and slot names after one or two operations on flat lists.',
  (SCH + 'containers.py', SCH + 'compound.py', SCH + 'base.py'),
  [('List slots and _renumber, Sequence/Mapping mutators', SCH + 'containers.py')],
  ('children, parent, root, flattened_name()',)),

P('P06', 'List and Array behave as Python lists of member values', '''
For any sequence of list operations with plain values or member elements
(index and slice reads, item and slice assignment and deletion, append, extend, +=, *=, insert,
pop, remove, index within bounds, count, in, sort with key, reverse, iteration, len), a List or Array
yields the same results, the same exceptions for missing values and bad indexes
and the same .value as a Python list of the adapted values, and every member is an instance of the
member schema. Plain values are adapted exactly as by set(), element arguments are stored
themselves, + and * give lists of the members, *= and a sequence extended with itself add new members of the same
values, set() replaces all members and reports whether all of them adapted, and an
object that is not iterable leaves an empty sequence and returns False.''',
  (H, I), 'all operation sequences, indexes and slices, member schemas',
  'Tests run each operation once or twice on short lists.',
  (SCH + 'containers.py',),
  [('Sequence and List mutators and accessors', SCH + 'containers.py')],
  ('.value, members, results and exceptions',)),

P('P07', 'Dict keys are fixed by the schema and set() honours its policy', '''
A Dict holds exactly its declared fields after any operation sequence: unknown
keys raise KeyError or TypeError on read, assignment, update, set and deletion, and no operation
adds or removes a field; a SparseDict holds a subset of them, always including required fields
under minimum_fields='required', and refuses to delete those.
set() takes any dict-like (mapping, pairs, namedtuple, keys/getitem object), resets fields not
given, and by policy rejects unknown keys ('subset', 'strict'), ignores them ('duck') or requires all keys
('strict'); it returns True exactly if every given field adapted, and update() changes only the given keys.''',
  (H, I, C), 'all operation sequences, dict-likes, key sets, policies and minimum_fields modes',
  'Tests cover single operations on two-field dicts.',
  (SCH + 'containers.py',),
  [('Mapping, Dict and SparseDict mutators', SCH + 'containers.py'), ('Dict.set policy', SCH + 'containers.py')],
  ('keys, .value, exceptions',)),

P('P08', 'Names, paths and traversal agree for every element of every tree', '''
For every element of any tree, fq_name() (with any separator) resolves through el() from any element of the tree back
to that very element, path runs from root to the element through parents, and
flattened_name() is the separator-joined names along it with list indexes included.
all_children yields every descendant exactly once in breadth-first order, children only the immediate ones,
el() and find() with names that do not exist raise KeyError or LookupError (as el() does for paths with empty names), and
no two elements of one tree share a fq_name(). An element's label is its name unless one is assigned.''',
  (I, C, H), 'all element trees, also after mutations, and all pairs of elements',
  'Tests resolve names in two or three fixed trees.',
  (SCH + 'base.py', SCH + 'containers.py'),
  [('fq_name, el, path, parents, root, all_children, flattened_name', SCH + 'base.py')],
  ('fq_name()', 'el()', 'path', 'all_children')),

P('P09', 'find() evaluates every path expression as documented', '''
find() returns, in document order, exactly the elements selected by the path:
names, numeric indexes, '/' for the root, '.', '..' for the parent container (the root's parent is the root), and Python
slices [start:stop:step] over children with Python slice semantics (0 and negative bounds included; a step and a '..' after it cancel out),
with backslash escapes for special characters. With strict (the default) a missing child
raises LookupError and with strict=False it selects nothing; single=True returns
one element, None, or raises LookupError for several. The result depends only on
the tree, the element and the path, however many different paths were evaluated before, and no text raises anything but LookupError.''',
  (I, H), 'all path strings (grammatical and random), all start elements in all trees, thousands of distinct paths in one process',
  'Tests evaluate about forty literal paths on one schema and never fill the expression cache.',
  (SCH + 'paths.py', SCH + 'base.py'),
  [('tokenize, PathExpression, pathexpr cache', SCH + 'paths.py'), ('Element.find', SCH + 'base.py')],
  ('find() results and exceptions',)),

P('P10', 'validate() visits, short-circuits and combines results as documented', '''
validate() runs descent validators breadth-first from the element down, then
ascent validators in exact reverse order: scalars on the way down and containers on the way up, unless the schema names other
validators for a phase (validates_down, validates_up); each element at most once per
phase, each validator in order until one returns a false value (False, 0, None), Skip, SkipAll or SkipAllFalse.
Optional empty elements pass and run no validators, an element without validators is
valid iff not empty, SkipAll and SkipAllFalse prevent visits to all descendants (whose valid keeps
its prior state), None counts as failure, and an exception raised by a validator propagates.
The result is True iff no evaluated element failed, each visited element's .valid
reflects its own outcome, recurse=False evaluates only the element itself, and every validator receives the given state and its own element.''',
  (I, C, F), 'all trees, all assignments of validators and return values to elements, all phases and faults',
  'Tests use trees of depth two and a few outcomes; combinations of skips across phases are unsampled.',
  (SCH + 'base.py', SCH + 'containers.py'),
  [('Element.validate, validate_element', SCH + 'base.py'), ('Container._validate', SCH + 'containers.py')],
  ('validator call log', '.valid', 'validate() result')),

P('P11', 'Every validator run emits exactly one validator_validated signal', '''
While receivers are connected, validate() emits validator_validated exactly once
for each validator it runs, immediately after it, in the same order, with the validator as sender and
its element, the state and its result; and one with the NotEmpty marker as sender for each
element checked only for emptiness. Validators that are not run emit nothing, and connecting or
disconnecting receivers changes neither the validation result nor the order of calls.''',
  (I, C, H), 'all trees, validator assignments and receiver connect/disconnect histories',
  'Tests connect one receiver to one field.',
  (SCH + 'base.py', 'flatland/signals.py'),
  [('validate_element', SCH + 'base.py'), ('validator_validated', 'flatland/signals.py')],
  ('signal log against validator call log',)),

P('P12', 'Built-in validators accept exactly their documented values', '''
Each built-in scalar and container validator (Present, IsTrue, IsFalse, ValueIn, Converted,
ShorterThan/NoLongerThan, LongerThan, LengthBetween, ValueLessThan, ValueAtMost, ValueGreaterThan,
ValueAtLeast, ValueBetween, MapEqual, ValuesEqual, UnisEqual, NotDuplicated, HasAtLeast, HasAtMost, HasBetween)
returns true exactly when its documented predicate over the element's value, text, siblings or member
count holds, boundaries included, whatever the configuration given as arguments or subclass attributes. On success it records nothing; on failure
it returns a false value and adds its documented message, formatted for the element, once to that element's
errors, and it never changes a value.''',
  (I, C), 'all values, lengths, member counts and bounds around the limits, constructor and subclass configuration',
  'Tests probe one or two values per side of each bound.',
  (VAL + 'scalars.py', VAL + 'containers.py', VAL + 'base.py'),
  [('validate methods', VAL + 'scalars.py'), ('sequence validators', VAL + 'containers.py')],
  ('result, errors, warnings, value, u',)),

P('P13', 'Messages expand with the documented lookup and translation order', '''
A message noted with note_error or note_warning is expanded with %(name)s values looked up first in the extra
arguments, then the state, the validator and the element (items before attributes), plural
triples choose the singular form exactly for a count of 1 (the count read by key or given), callables are called
with element and state, and translators ugettext/ungettext are found in order on the state (attribute or item), the
element and its ancestors, and builtins, and applied to the template and substituted values.
The result is appended once to errors (or warnings) however often it is noted, note_error and note_warning
return False, and any kind of state (None, dict, object, string, list) is usable.''',
  (I, C), 'all message shapes, states, placements of translators, override orders and counts',
  'Tests cover one placement at a time with one message shape.',
  (VAL + 'base.py', SCH + 'util.py'),
  [('expand_message, find_transformer, as_format_mapping', VAL + 'base.py'), ('find_i18n_function', SCH + 'util.py')],
  ('element.errors', 'element.warnings')),

P('P14', 'Schema constructors derive new classes and never alter existing ones', '''
named, using, of, to, valued, validated_by, including_validators, descent_validated_by, including_descent_validators,
with_properties and constructor keyword overrides take effect only on the class or instance they return or create:
every observable attribute, field, validator, property and set()/validate() outcome of the original schema, of sibling derivations and of
elements already created is unchanged, and instances never share errors, warnings, values, children or the validators lists given to them.
The derived class is a subclass of the original with exactly the requested changes, validators are kept in
the requested order and position, unknown attributes raise TypeError, and elements do not have these constructors.''',
  (H, C), 'all sequences of derivations and instance mutations over all element types',
  'Tests compare a derived class with its direct base, never long derivation chains.',
  (SCH + 'base.py', SCH + 'containers.py', SCH + 'scalars.py', 'flatland/util/base.py'),
  [('class_cloner', 'flatland/util/base.py'), ('Element DSL', SCH + 'base.py')],
  ('attributes of all classes and instances before and after',)),

P('P15', 'Properties inherit along the class tree and isolate instances', '''
Reading properties of a class or element yields, per key, the value set most recently on the nearest of:
the element itself, its class, then its superclasses in method resolution order up to the declaring class, where a deletion hides inherited keys.
Every mutation (item set and delete, update, setdefault, pop, clear, with_properties) acts only on the class or element
it is applied to and what inherits from it, with dict results and exceptions (clearing an element hides what it inherits at the time);
assigning a mapping to element.properties replaces the lookup for that element only.
Properties keep no class or element alive that nothing else uses.''',
  (H, C), 'all histories of mutations over class trees with single and multiple inheritance and their elements',
  'Tests run one scripted history on three classes.',
  (SCH + 'properties.py', SCH + 'base.py'),
  [('Properties, _TypeLookup, _InstanceLookup', SCH + 'properties.py')],
  ('items of every class and instance after every step',)),

P('P16', 'Form fields follow class declaration and inheritance order', '''
A Form's fields are exactly those declared in its class body (renamed to their attribute names), its
own field_schema and those of its base classes; a field declared in the class body replaces
field_schema entries and inherited ones of the same name, earlier bases take precedence over later ones, each name
occurs once, and declaring or subclassing never changes a base Form or the declared schemas.
Declared fields do not remain class attributes, other attributes are untouched, and the Form then
behaves exactly as a Dict of the same fields: set, set_flat, flatten, validate and value agree.''',
  (C, I), 'all class hierarchies of Forms and Dicts with overlapping field names',
  'Tests use a few two-level hierarchies.',
  (SCH + 'forms.py',),
  [('_MetaForm, _ElementCollection', SCH + 'forms.py')],
  ('field_schema', 'instances')),

P('P17', 'Compound elements and their parts always agree', '''
At every moment a DateYYYYMMDD's value and u are composed of its year, month and day parts, a JoinedString's of its members
(joined by the separator) and a MultiValue's are those of its first member; setting the whole, the parts or flat data all
keep them in agreement, and equal parts always give equal wholes. An invalid or incomplete date has value None and u u'',
setting a whole value that can not be adapted returns False and leaves no stale part, setting never
raises, and splitting a joined text by separator or separator_regex and pruning blanks yields the members'
texts exactly.''',
  (H, I, C), 'all histories of whole, part and flat sets, all dates, separators, member types',
  'Tests set a few literals once.',
  (SCH + 'compound.py', SCH + 'containers.py'),
  [('DateYYYYMMDD.compose/explode, JoinedString.set', SCH + 'compound.py'), ('MultiValue', SCH + 'containers.py')],
  ('.value, .u, parts after each step',)),

P('P18', 'A Ref always mirrors its current target element', '''
A Ref's value and u equal those of the element its path names at the time of reading, through any history of sets, resets,
flat loads and replacements of the target or containers above it, and a Ref contributes no pair to flatten().
Assigning to it changes the target if writable is true, is ignored if writable is 'ignore' (the default), and raises TypeError if writable is false, and nothing else
in the tree changes. Its raw is what it was given, and adapt() and serialize() are those of the target.''',
  (H, C), 'all histories over trees with relative and absolute target paths and each writable mode',
  'Tests read a Ref once after one write.',
  (SCH + 'scalars.py',),
  [('Ref', SCH + 'scalars.py')],
  ('Ref value and u against the target found by el()',)),

P('P19', 'Object and slice transfers move exactly the selected attributes', '''
set_by_object and from_object set exactly the fields whose attribute exists on the object and is selected by include or omit,
plus renamed attributes regardless of both, reset other fields and ignore everything else; slice returns, and update_object assigns, exactly the
selected and renamed key/value pairs, keys passed through key, and nothing else of the object or element changes. include together with omit raises
TypeError, and a value taken from an object and put back with the inverse mapping leaves the object's attributes equal.''',
  (I, C), 'all objects, field sets, include, omit, rename and key arguments, Dict and SparseDict',
  'Tests cover single options on two-attribute objects.',
  (SCH + 'containers.py', 'flatland/util/base.py'),
  [('Dict.set_by_object/update_object/slice', SCH + 'containers.py'), ('keyslice_pairs', 'flatland/util/base.py')],
  ('element values, object attributes',)),

P('P20', 'Generated markup is well formed and never lets a value escape', '''
For any bound element and any attribute texts, every generated tag parses (as XML in xhtml and xml mode, as HTML in html mode) to exactly one element with the requested
tag name whose attribute values are character for character the element's or caller's text, and a textarea's body the element's: no such text can close an attribute or tag, open another tag or add an attribute.
Values marked as markup and explicit contents, which are the caller's markup, pass through unchanged, all output is a markup-safe unicode string, attribute order is deterministic when ordered, empty tags are
closed as the mode requires, and tag(name) renders the same as the tag's own method. An element's x between tags, and its xa in a quoted (") attribute, parse as XML to its u.''',
  (I, C), 'all texts (markup metacharacters, quotes, entities, unicode), element types, tags, modes and settings',
  'Tests render a handful of literal values.',
  ('flatland/out/markup.py', 'flatland/out/generic.py'),
  [('Tag, _attribute_escape', 'flatland/out/markup.py'), ('_markup_escape, transform_value', 'flatland/out/generic.py')],
  ('output re-parsed by an independent parser',)),

P('P21', 'A rendered form submitted unchanged restores the same element', '''
Rendering every field of an element tree with the generator (text, hidden, password with auto_value on, textarea, checkbox, radio, select and option
controls, single and multi-valued) and submitting the resulting HTML as a browser would yields exactly the names and values of the tree: from_flat() of
the submission restores the same values, and controls are checked or selected exactly when their value is
the element's u or that of a member of the bound array. (As in any form an unchecked box submits nothing, and line ends are submitted as CR LF.)''',
  (I, C), 'all trees, values and control choices, both modes',
  'Tests compare single tags with literal strings; none closes the loop through a form submission.',
  ('flatland/out/generic.py', 'flatland/out/markup.py', SCH + 'containers.py'),
  [('transform_name, transform_value', 'flatland/out/generic.py'), ('from_flat', SCH + 'base.py')],
  ('simulated browser submission',)),

P('P22', 'Markup settings nest, revert and apply exactly as configured', '''
Settings given to the generator, begin or set are in effect for tags until changed or until the matching end, which restores exactly
the settings before begin; end without begin, unknown settings and failed begins raise and leave the settings as they were.
Automatic names, values, ids, for and tabindex attributes are produced
exactly for the documented tags when enabled: a tag's own auto_ option overrides the setting and 'on' forces it over an explicit attribute, otherwise explicit attributes win;
tabindex counts up by one per tag it is emitted on (never if zero, constant if negative), and ids and for attributes of the same control (check boxes and radio buttons, whose ids tell their values apart, aside) agree.''',
  (H, C, I), 'all histories of begin, set, end and tags with all troolean spellings',
  'Tests cover single settings, rarely nested.',
  ('flatland/out/generic.py', 'flatland/out/markup.py', 'flatland/out/util.py'),
  [('Context', 'flatland/out/generic.py'), ('transforms, _pop_toggle', 'flatland/out/generic.py'), ('parse_trool', 'flatland/out/util.py')],
  ('emitted attributes against a model',)),

P('P23', 'Genshi templates and the generator produce the same form controls', '''
For the same bound element, control, attributes and settings, a Genshi template using form:bind, form:with, form:set and
form:auto-* directives renders the same element name, attributes, checked and selected states and text contents as the markup generator, a select binding its options included,
for any values; explicit attributes and interpolations survive, the directives and their namespace leave no trace in the output, and elements without directives are unchanged.''',
  (I, C), 'all element values, controls, settings and attribute combinations in both front ends',
  'Tests check each front end against literals, and differential behaviour not at all.',
  ('flatland/out/genshi.py', 'flatland/out/generic.py', 'flatland/out/markup.py'),
  [('directives and _rewrite_stream', 'flatland/out/genshi.py'), ('transform', 'flatland/out/generic.py')],
  ('both outputs parsed and compared',)),

P('P24', 'Schemas may be shared by threads: results match a sequential run', '''
Threads that concurrently instantiate, set, set_flat, flatten, find, validate and render their own elements of shared schemas get the same
results as when run alone: no exception, lost or foreign value, error or child. The per-class set-up of
a compound type happens exactly once per class, completely before any of its instances is usable, however many threads construct the
first instance; reading inherited properties concurrently gives the sequential values and concurrent writes of different keys are all kept.''',
  (S, H), 'all interleavings of threads using shared schema classes, including the first use of compounds',
  'The test suite is single threaded.',
  (SCH + 'compound.py', SCH + 'base.py', SCH + 'properties.py', SCH + 'paths.py'),
  [('_MetaCompound lock', SCH + 'compound.py'), ('Properties maps', SCH + 'properties.py')],
  ('per-thread result logs compared with sequential ones', 'set-up call log')),

P('P25', 'Defaults are applied exactly where the schema declares them', '''
from_defaults and set_default give every scalar its default_factory result if there is one, otherwise its default (a default of None clears it), give a container its own default by set(),
and otherwise apply the defaults of its fields recursively; a List with an integer default gets that many members each with
its defaults, and SparseDict fields are set only when required.
Elements without a default stay empty, plain construction applies no defaults, default_value agrees with what is set, the
factory is called with the element being set, and applying defaults twice gives the same tree as once.''',
  (C, H), 'all schemas with defaults and factories at any level, on fresh and used elements',
  'Tests check one level at a time.',
  (SCH + 'base.py', SCH + 'containers.py', SCH + 'scalars.py'),
  [('set_default, default_value', SCH + 'base.py')],
  ('value tree against a model',)),

P('P26', 'Shared utilities meet their contracts for every input', '''
to_pairs yields the items of any dict-like, keyslice_pairs filters, renames and maps keys as documented and keeps order, luhn10 accepts exactly the
numbers passing the Luhn checksum and terminates for any integer, re_uescape of any text matches exactly that text,
Maybe follows three-valued logic with booleans in both operand orders, symbols of one name are one object even through pickling and copying, and
assignable properties compute until assigned, per instance, and again after deletion.''',
  (I, H), 'all inputs and access histories',
  'Tests check a few examples each.',
  ('flatland/util/base.py', 'flatland/util/deferred.py'),
  [('util functions', 'flatland/util/base.py')],
  ('results',)),

P('P27', 'Email and URL validators accept exactly the documented forms', '''
IsEmail accepts exactly addresses with one '@', a non-blank local part (matching local_part_pattern if given) and an IDNA-encodable domain of
letters, digits and hyphens in dot-separated labels of under 64 characters, under 254 in all, with at least two labels unless non_local is false.
URLValidator and HTTPURLValidator accept exactly URLs whose scheme and parts (as urlparse splits them) are allowed, required and
forbidden as configured, URLCanonicalizer removes exactly the discarded parts and is idempotent; malformed text is reported as an error and never raises,
and only the canonicalizer changes the value.''',
  (I, C), 'all texts, structured and mutated addresses and URLs, and all configurations',
  'Tests use about thirty literals.',
  (VAL + 'network.py',),
  [('validate methods', VAL + 'network.py')],
  ('result, errors, value',)),

P('P28', 'Phone and card number validators classify and normalise correctly', '''
A CreditCardNumber adapts digit groups of card length, validates exactly if present, converted, passing the Luhn
checksum and of an accepted brand, prints in its brand's groups, and reports exactly one message otherwise; Luhn10 agrees
with an independent checksum for any integer.
NANPphone accepts exactly texts with at least ten digits (more only with extensions), rewrites them to the canonical format and is
idempotent on it, NANPnxx rejects exactly reserved exchanges, and none of them ever raises or loops on any set value.''',
  (I, C), 'all digit strings, separators, lengths, brands and options',
  'Tests check four card numbers; phone validators are untested.',
  ('flatland/ext/creditcard.py', VAL + 'string.py', VAL + 'number.py', 'flatland/util/base.py'),
  [('CreditCardNumber', 'flatland/ext/creditcard.py'), ('NANPphone', VAL + 'string.py'), ('Luhn10', VAL + 'number.py')],
  ('validate() result, errors, value, u',)),

P('P29', 'Process-wide caches and singletons are safe under concurrent use', '''
Under any number of concurrent threads, symbols created with one name are one object, find() with any number of
distinct and repeated path texts gives the same results as a fresh process while the memory kept for them stays bounded, lazily loaded modules resolve every public name to the same object, and receivers may be connected and disconnected
while other threads validate, without a missed, duplicated or misattributed signal for receivers connected throughout.
None of these raise because of the concurrency.''',
  (S, H), 'all interleavings of threads over the path cache, the symbol table, deferred modules and signals',
  'The test suite is single threaded and stays below the cache limit.',
  (SCH + 'paths.py', 'flatland/util/base.py', 'flatland/util/deferred.py', 'flatland/signals.py'),
  [('expression_cache', SCH + 'paths.py'), ('symbol lock', 'flatland/util/base.py'), ('deferred_module', 'flatland/util/deferred.py')],
  ('per-thread logs',)),

P('P30', 'Equality, emptiness and truth of elements follow from their data', '''
Elements are equal exactly if both value and u are equal, and not equal otherwise (never both), to non-elements never, and are unhashable; equality is reflexive (NaN aside), symmetric and
unaffected by validation, errors, names or parents. is_empty holds exactly for scalars with no value (u'' being none for a String) and no text, sequences without members,
compounds with all parts empty and SparseDicts without fields, never for a Dict; a scalar is true exactly if it has both a true value and text, x and xa escape
u so that an XML parser restores it exactly, and value and u of containers are the recursive aggregate of their members'.''',
  (I, C), 'all pairs of elements over all types and values, with and without validation',
  'Tests check a few same-type pairs.',
  (SCH + 'base.py', SCH + 'containers.py', SCH + 'scalars.py'),
  [('__eq__, is_empty, x, xa', SCH + 'base.py'), ('value, u of containers', SCH + 'containers.py')],
  ('==, !=, is_empty, bool, value, u',)),
]
