#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
F = 'bitfields_impl/src/generating/bitfield/features/'
G = F + 'common/generator_helper.rs'
FL = 'bitfields_impl/src/generating/bitflag/bitflag_generator.rs'
PB = 'bitfields_impl/src/parsing/bitfields/'
PC = 'bitfields_impl/src/parsing/common/'
EN = 'bitfields_impl/src/generating/common/endian_conversion.rs'
L = []


def p(id, title, statement, over, text, why, files, mech, observe):
    L.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': observe}})


IP = ['inputs', 'programs']
SAMPLE = 'The tests use a few fixed definitions and a few constants per method; the claim is over all 2^N states, ' \
         'all arguments and the whole space of definitions.'

p('C01', 'A field reads back what was set, and setting it changes nothing else',
  'For every bitfield and every readable field, the getter returns exactly the field\'s own bits of the current value, sign-extended for signed types and converted with the user\'s conversion function for custom types. '
  'For every writable field, the setter stores the low bits of its argument that fit the field width, so that reading the field afterwards returns that (truncated) value, whatever the bitfield held before. '
  'No setter changes any bit outside its field, and no getter changes anything.',
  IP, 'All values of the whole bitfield, all setter arguments, all field layouts (type, width, offset, order, access, integer, array and heap backing).',
  SAMPLE, [F + 'field_getters_feature.rs', F + 'field_setters_feature.rs', G],
  [('extraction of field bits and sign extension', G), ('mask-and-shift insertion, byte loops for arrays', G),
   ('field offset assignment', PB + 'bitfield_parser.rs')],
  ['generated getters, setters and into_bits/to bits'])

p('C02', 'Field constants describe the real layout',
  'For every field that has them, the generated bit-count and offset constants equal the declared width and the position the declared order assigns to the field: fields tile the backing type exactly, the first field at the lowest bits for lsb and at the highest for msb order. '
  'Setting a field through its setter changes only bits inside, and every bit of the value is found at, the range the constants name.',
  IP, 'All definitions: any number of fields, any widths, both orders, all backings; all bitfield values and arguments for the link to the setters and getters.',
  'Constants are asserted for a handful of definitions; whether they agree with what getters and setters touch needs all values.',
  [F + 'field_constants_feature.rs', PB + 'bitfield_parser.rs', G],
  [('offset computation from declaration order', PB + 'bitfield_parser.rs'), ('constants generation', F + 'field_constants_feature.rs')],
  ['A_BITS, A_OFFSET and the raw value after setters'])

p('C03', 'Checked setters accept exactly the values that fit',
  'A checked setter, of a bitfield or of its builder, returns an error exactly when its argument cannot be represented in the field\'s declared number of bits (negative range included for signed fields, bits past the width for arrays and custom types), and leaves the value untouched then. '
  'When it succeeds it has exactly the effect of the unchecked setter.',
  IP, 'All argument values, all prior bitfield values, all field types and widths.',
  'Tests try one value above and one below for a few widths; boundary behaviour must hold for every value, width, backing and custom type.',
  [F + 'field_setters_feature.rs', F + 'builder_feature.rs', G],
  [('bit size checks', G)], ['checked_set_<field>, checked_with_<field>'])

p('C04', 'Whole-value conversions honour the configured byte order and lose nothing',
  'Building a bitfield from an integer, a byte array or through the From traits, and converting it back, applies exactly the byte order configured for that direction and stores every bit that belongs to a field; the method and trait forms agree. '
  'With equal byte orders in both directions the round trip is the identity on all bits, and into-conversions never change the bitfield.',
  IP, 'All 2^N bit patterns, the four combinations of from/into byte order, integer, array and heap backings, all definitions.',
  SAMPLE, [F + 'from_into_bits_feature.rs', F + 'from_traits_feature.rs', EN],
  [('byte order conversion', EN), ('from/into generation', F + 'from_into_bits_feature.rs'), ('trait impls', F + 'from_traits_feature.rs')],
  ['from_bits/into_bits, from_*_bytes/into_*_bytes, From impls'])

p('C05', 'Slices of any length are read exactly as documented',
  'Constructing an array-backed bitfield from a byte slice uses the leading bytes up to the backing size in the configured byte order, treats missing bytes as zero, ignores surplus bytes and never panics. '
  'The checked form fails exactly when the slice is shorter than the backing array and otherwise gives the same result.',
  IP, 'All slice contents and all slice lengths from empty to beyond the backing size, all array definitions.',
  'Tests use two or three slice lengths with constant bytes; every length and content has to behave.',
  [F + 'from_into_bits_feature.rs', F + 'write_bit_ops_feature.rs', EN],
  [('slice constructors', F + 'from_into_bits_feature.rs')], ['from_slice and checked_from_slice style constructors'])

p('C06', 'Defaults appear exactly where promised',
  'A new bitfield has every field with a declared default equal to that default and every other bit zero; construction without defaults has zero everywhere except reserved fields with a default. '
  'Operations that respect defaults (default construction, conversion or writing with defaults, clearing with defaults) give each defaulted field its default over what the plain operation leaves, and change no other field. '
  'This holds for literals of any radix and sign, constants and custom-type values, for every field width and access kind.',
  IP, 'All prior values and arguments, all definitions with any mix of defaults, radixes, signs, access kinds and backings.',
  'Tests check a few constant defaults; the interaction of every default form, width, access and operation on arbitrary prior values is unbounded.',
  [F + 'new_functions_feature.rs', F + 'default_trait_feature.rs', G, PC + 'const_expr.rs'],
  [('default literal parsing', PC + 'const_expr.rs'), ('setting fields to defaults', G)],
  ['new, default, *_with_defaults, clear'])

p('C07', 'Read-only, inaccessible and reserved bits survive every mutation',
  'Whatever setter, bit, range, whole-value write or invert operation is applied to whatever value with whatever argument, the bits of fields without a writer (read-only, no-access, reserved and padding) keep their value. '
  'Only construction, conversion from bits, clearing and the operations documented to restore defaults may give such a field a value, and then exactly the one documented.',
  ['inputs', 'programs', 'histories'], 'All states, all mutating operations with all arguments; single steps from an arbitrary state, so histories of any length that use these operations.',
  'A protected bit is lost only for particular combinations of neighbouring layout, operation and state, which samples do not reach.',
  [G, F + 'set_get_bit_ops_feature.rs', F + 'write_bit_ops_feature.rs', F + 'invert_bit_ops_feature.rs'],
  [('protection masks', G), ('per-field writes', G)], ['raw value after each mutating operation'])

p('C08', 'Single-bit operations act on exactly one bit and reject bad indices',
  'Reading bit i returns bit i of the value when it belongs to a readable field and the documented protected answer otherwise; setting bit i changes that bit alone and only in a writable field. '
  'The checked forms report an index out of bounds or a protected bit as an error without changing anything, and agree with the unchecked forms in every other case.',
  IP, 'All values, all 2^32 indices (in and out of range), both bit values, all definitions.',
  'Tests use a few indices; each definition has its own protection layout and boundary.',
  [F + 'set_get_bit_ops_feature.rs', G], [('single bit operations', F + 'set_get_bit_ops_feature.rs')],
  ['get_bit, set_bit and their checked forms'])

p('C09', 'Bit-range operations act on exactly the range given',
  'Reading a range returns the readable bits of exactly that range, lowest first, with protected bits masked; writing a range stores the low bits of the argument in the writable bits of exactly that range and leaves everything else. '
  'Ranges that leave the bitfield, values too wide for the range and protected bits are reported by the checked forms without a change; no range, however large or empty, panics or wraps.',
  IP, 'All values and arguments; every start and length in range plus arbitrary symbolic out-of-range ones.',
  'The offset/length pairs with all values are far outside what the sampled tests reach, in particular the 32-bit overflow corner.',
  [F + 'set_get_bit_ops_feature.rs', G], [('range operations', F + 'set_get_bit_ops_feature.rs')],
  ['get_bits, set_bits and their checked forms'])

p('C10', 'Writing the whole value updates writable fields only',
  'Writing bits or bytes into an existing bitfield gives each writable field its part of the argument, in the configured byte order, and leaves all other fields as they were. '
  'The byte, slice, checked and trait-like variants agree with each other, and the variants with defaults then restore declared defaults.',
  IP, 'All prior values, all arguments, all slice lengths, all definitions and byte orders.',
  SAMPLE, [F + 'write_bit_ops_feature.rs', G, EN], [('write operations', F + 'write_bit_ops_feature.rs')],
  ['write_* methods'])

p('C11', 'Clearing resets to the documented value from any state',
  'Clearing makes every field zero except reserved fields with a default, and clearing with defaults makes every field its default or zero, whatever the bitfield contained, so that clearing equals fresh construction. '
  'Fields ignored by the layout are not touched.',
  IP, 'All prior values, all definitions.', SAMPLE,
  [F + 'clear_bit_ops_feature.rs', G], [('clear operations', F + 'clear_bit_ops_feature.rs')], ['clear_* methods'])

p('C12', 'Inverting flips exactly the bits it names and is its own inverse',
  'Inverting a field or the whole bitfield flips every writable bit concerned and no other bit, and doing it twice restores the value. '
  'The inverted getter of a field returns the complement of the field (converted and sign-extended like the getter) without changing the bitfield.',
  IP, 'All values, all definitions.', SAMPLE,
  [F + 'invert_bit_ops_feature.rs', F + 'field_getters_feature.rs', G], [('invert operations', F + 'invert_bit_ops_feature.rs')],
  ['invert_* methods, get_*_inverted getters'])

p('C13', 'Bits without read access never influence what can be read',
  'For two bitfields that differ only in write-only or inaccessible fields, every getter, inverted getter, single-bit read and range read gives the same answer, including the error cases. '
  'A protected bit is thus not observable through any read operation of the generated interface.',
  IP, 'All pairs of values that agree on readable bits; all indices and ranges; all definitions.',
  'Non-interference relates two executions over all hidden values; a test fixes one value of each.',
  [F + 'set_get_bit_ops_feature.rs', F + 'field_getters_feature.rs', G], [('read masks', G)],
  ['getters, get_bit, get_bits, inverted getters'])

p('C14', 'Generated methods never panic or overflow',
  'No method of a bitfield that compiles panics, overflows, shifts out of range or indexes out of bounds, for any value, argument, index or slice, with overflow checks enabled. '
  'Calls outside the valid range are answered by the documented error or neutral result.',
  IP, 'All values and arguments of every generated method in a build with overflow checks; all definitions.',
  'Overflow corners are single points in 2^32 or larger argument spaces and only panic in builds with overflow checks.',
  [G, F + 'set_get_bit_ops_feature.rs', F + 'from_into_bits_feature.rs', F + 'write_bit_ops_feature.rs'],
  [('bounds handling', G), ('range handling', F + 'set_get_bit_ops_feature.rs')], ['every generated method, debug build'])

p('C15', 'The builder builds what the setters would',
  'A bitfield produced by a builder, with or without defaults, equals the one obtained by constructing it the same way and then giving the chosen fields the chosen values, in any order of independent fields; the last value for a field wins. '
  'Fields that only the builder can set (read-only ones included) get exactly the given value and no other field changes.',
  ['inputs', 'programs', 'histories'], 'All argument values, any builder state before the step, all definitions.',
  'Tests build one or two values per definition.', [F + 'builder_feature.rs', G],
  [('builder setters', F + 'builder_feature.rs')], ['the builder\'s new, new_without_defaults, with_*, build'])

p('C16', 'Bitflag conversions are exact and total',
  'Converting any bit pattern to a bitflag returns the variant declared with that value or, when there is none, the base variant, and converting a variant to bits returns its declared value; the trait forms agree with the methods. '
  'The checks for empty and for base and the validity test answer true exactly for the values they name.',
  IP, 'All bit patterns of every representation type, all variants, all flag definitions.',
  'Tests list the declared variants and one unknown pattern.', [FL, 'bitfields_impl/src/parsing/bitflags/bitflag_parser.rs'],
  [('bitflag generation', FL)], ['from_bits, into_bits, From impls and predicates of bitflags'])

p('C17', 'Custom and nested types pass through their own conversions',
  'A field of a custom type, bitflag or nested bitfield stores exactly what the type\'s to-bits conversion gives, truncated to the field width, and reads back through its from-bits conversion with exactly the field\'s bits; neighbouring fields are unaffected. '
  'A bitfield or bitflag nested as a field of another keeps all its values through set and get when the field is wide enough.',
  IP, 'All values, all definitions of the outer and inner types, conversions treated as arbitrary functions where they are not.',
  'The tests use identity-like conversions at one or two offsets.', [F + 'field_getters_feature.rs', F + 'field_setters_feature.rs', G],
  [('custom type conversion calls', G)], ['getters and setters of custom-typed fields'])

p('C18', 'Debug output reports each field\'s current value',
  'Formatting a bitfield with Debug names the type and lists every field in declaration order, each with the value its type has for the field\'s current bits (sign-extended for signed fields, converted for custom types). '
  'Formatting never changes the bitfield and depends on nothing but its value.',
  IP, 'All values, all definitions.', 'Tests compare the text for one or two values.',
  [F + 'debug_trait_feature.rs', G], [('Debug impl', F + 'debug_trait_feature.rs')], ['sequence of names and values given to the formatter'])

p('C19', 'Ignored fields are kept apart from the bits',
  'Fields marked ignored take no bits: the layout of the other fields is as if they were absent. '
  'No bit-level operation, setter, write, clear or invert changes an ignored field\'s value, construction and conversion give it its type\'s default value, and changing it changes no bits.',
  IP, 'All values of the bits and of the ignored fields, all definitions with ignored fields.',
  'Tests have one ignored field in one definition.', [F + 'bitfield_struct_feature.rs', G, PB + 'bitfield_parser.rs'],
  [('struct layout with ignored fields', F + 'bitfield_struct_feature.rs')], ['ignored fields and raw value'])

p('C20', 'Ill-formed definitions are rejected at compile time',
  'A definition whose field widths do not sum to the backing size, whose field is wider than its type, whose default does not fit or whose arguments contradict each other does not compile and gets a message that names the problem. '
  'Every definition within the documented rules compiles.',
  ['programs'], 'All definitions.', 'The compile-fail tests list particular definitions.',
  [PB + 'bitfield_parser.rs', PB + 'bits_attribute/bits_attribute_parser.rs', PB + 'bitfield_attribute/bitfield_attribute_parser.rs'],
  [('validation in the parsers', PB + 'bitfield_parser.rs')], ['rustc exit status and message'])

p('C21', 'Configuration switches remove what they name and change nothing else',
  'Each generation switch adds or removes exactly the methods and traits it names; the remaining methods of the bitfield keep the same meaning for all values as in the same definition with every switch on. '
  'The operations switch is the default for the four operation groups, and each group\'s own switch overrides it.',
  ['inputs', 'programs', 'configurations'], 'All values and arguments of the remaining methods; combinations of switches; presence and absence of the named items.',
  'Tests cover single switches on one definition and a few constants.', [F + 'mod.rs', 'bitfields_impl/src/generating/bitfield/bitfield_generator.rs', PB + 'bitfield_attribute/bitfield_arguments.rs'],
  [('feature selection', 'bitfields_impl/src/generating/bitfield/bitfield_generator.rs'), ('arguments', PB + 'bitfield_attribute/bitfield_arguments.rs')],
  ['set of generated items; results of the remaining ones'])

p('C22', 'Equivalent definitions behave identically',
  'The same fields laid out over an integer or over a byte array of the same size, inline or on the heap, or in msb order instead of the reversed list in lsb order, give the same result for every getter, setter, checked setter, bit, range and clear operation on the same bits. '
  'The choice of representation is thus not observable.',
  IP, 'All values and arguments of corresponding methods, pairs of definitions.',
  'Relates two definitions on all values; the tests never compare two.', [G, F + 'set_get_bit_ops_feature.rs', F + 'field_setters_feature.rs'],
  [('separate code paths for integer and array backing', G)], ['corresponding methods of the two types'])

p('C23', 'Cargo features set the defaults and arguments override them',
  'With default features off, each Cargo feature gives the corresponding argument of every bitfield and bitflag its value (order, the three endian settings, heap storage, each generation switch, the bitflag settings), and an argument written on a definition overrides the feature. '
  'A definition under any combination of features and arguments behaves, for all values, exactly as the same definition with the resulting settings written out.',
  ['inputs', 'programs', 'configurations'], 'All values and arguments; combinations of features with combinations of arguments, for each of which the macro crate is rebuilt.',
  'The test suite is compiled under the default and under all features only, and skips what depends on them.',
  [PB + 'bitfield_attribute/bitfield_arguments.rs', 'bitfields_impl/src/parsing/bitflags/bitflag_arguments.rs', 'bitfields_impl/src/parsing/common/conversion_endian.rs', 'bitfields/Cargo.toml'],
  [('feature resolution', PB + 'bitfield_attribute/bitfield_arguments.rs')], ['set of generated items and results of all of them'])

p('C24', 'Generated code needs no standard library and works in constants',
  'A bitfield without heap storage and every bitflag compiles and works in a crate without the standard library or an allocator, so no operation on it allocates. '
  'Every generated method of a bitfield without heap storage or ignored fields, of its builder and of a bitflag can be called in a const context, and gives there, for all values and arguments, what it gives at run time.',
  ['inputs', 'programs'], 'All values and arguments of all methods, definitions of every kind.',
  'No test is compiled without std, and few call anything in a constant.',
  [F + 'bitfield_struct_feature.rs', FL, G], [('const modifier', G), ('derives', F + 'bitfield_struct_feature.rs')],
  ['acceptance by rustc of const callers in a no_std crate, and the results computed there'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
open(out, 'w').write(''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in L))
