prop('C01','Bit-level message writer and reader are exact and inverse',
 'Appending a value of up to 32 bits to a BUFR output adds exactly those bits, most significant first, after everything written so far, whatever the alignment; strings are space padded, missing fields are all ones over their full width, opaque fields keep their bits and flushing pads with zeros. Reading n bits returns exactly the next n bits of the message and advances by n, at any alignment. A request for more bits than are left is refused as a parse error, never answered from outside the message.',
 ['inputs','histories'],'every value, width (0 to 32 for integers, any width for strings, opaque and missing fields), pending-bit alignment, output length, message content, message length and read position',
 'The tests write and read a few fields at a few alignments and never stop in the middle of the last bytes; values x widths x alignments x positions is far beyond enumeration.',
 ['wreport/buffers/bufr.cc','wreport/buffers/bufr.h','wreport/bufr/input.h'],
 [('add_bits','wreport/buffers/bufr.cc'),('flush','wreport/buffers/bufr.cc'),('append_string','wreport/buffers/bufr.cc'),('append_binary','wreport/buffers/bufr.cc'),('append_missing','wreport/buffers/bufr.h'),('get_bits','wreport/bufr/input.h'),('skip_bits','wreport/bufr/input.h')],
 [('pbyte/pbyte_len','bits not yet flushed / not yet consumed','wreport/buffers/bufr.h, wreport/bufr/input.h'),('s4_cursor','next byte to read','wreport/bufr/input.h')],
 ['bytes of the output string','value returned by the reader','exception type'],
 'All obligations generated from the compiled code of the listed functions are discharged for all inputs (messages below 2^31 bytes, fields below 2^24 bits). Trusted: clang/LLVM front end, the VC generator, z3/cvc5, std::string::append and the error-formatting helper.')
prop('C02','A numeric variable never holds a value outside its domain',
 'The domain of a numeric variable is what both its decimal length and its binary field can hold, excluding the values reserved for missing (class 31 counters keep the all-ones value). Setting it from an int, a double, text or another variable stores the nearest representable value when that is in the domain; otherwise (out of range, NaN or infinite) the configured policy applies: silent leaves it unset, clamp stores the nearest end of the domain (except for NaN), a hook is called once with the variable otherwise unchanged, and the default is a domain error with the variable left unset. Text that is not a decimal integer leaves it unset; numbers set on text variables are type errors.',
 ['inputs'],'every value of every setter argument, every domain and decimal scale in -24..24, every combination of the three domain-error options, every previous content of the variable',
 'Domains x values x scales x policies cannot be enumerated; the tests use one or two variables and a handful of values.',
 ['wreport/var.cc','wreport/varinfo.cc','wreport/options.h'],
 [('seti/setd/setc/sets/setf/setval','wreport/var.cc'),('assign_i_checked/assign_d_checked','wreport/var.cc'),('compute_range','wreport/varinfo.cc'),('decode_decimal/encode_decimal','wreport/varinfo.cc')],
 [('m_value.i','the value scaled to an integer','wreport/var.h'),('imin/imax/dmin/dmax','domain of the variable','wreport/varinfo.h')],
 ['enqi/enqd/isset after each setter','exception type','domain error hook calls'],
 'Proved for all inputs with doubles modelled as correctly rounded reals. Trusted: clang/LLVM front end, VC generator, z3/cvc5, strtod, round/rint/pow, convert_units (its own property).')
prop('C03','Numeric values survive packing to BUFR fields and back',
 'Encoding a set numeric variable writes exactly (value - reference) at the field width, or is refused with a consistency error when that does not fit; an unset one is written as all ones, and no value in the domain of a variable (of up to 9 digits) is ever written as all ones except class 31 counters. Decoding a field gives raw + reference at the decimal scale, through the domain policy; all ones decodes as unset (except for the replication counters 0 31 000, 001, 002, 011 and 012 in uncompressed data). In compressed data the value is base + difference, unset when the base, the difference or the sum is all ones; a missing base with differences, or a count that differs between subsets, is refused. Reading a variable as a double and setting it back stores the same integer.',
 ['inputs'],'every stored integer, reference value, width 1..32, decimal scale -24..24, raw field value, compressed base and difference',
 'The tests encode and decode a few dozen values of a few variables; boundaries such as the value next to all ones, negative scales or one-bit differences are not sampled.',
 ['wreport/varinfo.cc','wreport/buffers/bufr.cc','wreport/bufr/input.cc','wreport/var.cc'],
 [('encode_binary/decode_binary','wreport/varinfo.cc'),('append_var','wreport/buffers/bufr.cc'),('decode_number','wreport/bufr/input.cc'),('decode_compressed_base/decode_compressed_number/decode_compressed_semantic_number','wreport/bufr/input.cc'),('enqi/enqd/setd','wreport/var.cc')],
 [('bit_ref/bit_len/scale','how the value is packed','wreport/varinfo.h')],
 ['bits of the encoded field','value and set flag of the decoded variable','exception type'],
 'Proved for all inputs; add_bits/append_missing/get_bits are used through their C01 contracts. Doubles are modelled as correctly rounded reals.')
prop('C04','Text and opaque values keep their characters and bits',
 'Setting a text variable stores the characters of the given text up to its end or up to the declared length, whichever comes first, always terminated and never outside its buffer; setting an opaque variable keeps exactly the declared number of bits, zero filled when the given value is shorter. Reading back returns what was stored (all the bytes, for opaque values); reading a number as text gives its exact decimal digits. Decoding a text field of whole characters gives its characters without trailing blanks (at least one is kept), and is missing exactly when every byte is NUL or all ones; decoding an opaque field keeps every bit and is missing exactly when all bits are ones, whatever the width. Encoding writes the stored value at the full width of the field, or missing when unset.',
 ['inputs'],'every text, byte content, declared length, field width, previous content of the variable, stored 32 bit integer and message content',
 'Lengths x contents x widths (including widths that are not whole bytes and numbers at the ends of their range) are not sampled by the tests.',
 ['wreport/var.cc','wreport/bufr/input.cc','wreport/buffers/bufr.cc'],
 [('setc/sets/setc_truncate/setf/setval','wreport/var.cc'),('assign_c_checked/assign_b_checked','wreport/var.cc'),('enqc/enqs','wreport/var.cc'),('decode_string/decode_binary','wreport/bufr/input.cc'),('append_var','wreport/buffers/bufr.cc')],
 [('m_value.c','buffer of len+1 bytes','wreport/var.h')],
 ['enqc/enqs after each setter','decoded variable','field passed to the bit writer'],
 'Proved for all inputs (text below 2^20 characters); the bit reader/writer is used through its C01 contracts; strncpy/memcpy/strlen and isspace (C locale) are assumed contracts.')
prop('C05','Variables are values: copies are equal and independent',
 'Copying a variable gives one with the same description, set flag, value (every byte of it) and attributes, sharing no storage with the original, which is not changed; moving transfers them and leaves the source unset and without attributes. Assignment does the same whatever the destination held before (another type, another length, a value, attributes), also when the source is the variable itself or one of its own attributes, and releases exactly what the destination owned. Two variables are equal exactly when they have the same code, both are unset or both hold equal values, and their attributes are equal in the same order; comparing never reads outside the values. Destruction releases what the variable owns exactly once.',
 ['inputs','histories'],'every pair of variables of every type, set or unset, any declared length and content, any attributes',
 'Type x set/unset x length x attribute combinations of source and destination, and aliasing between them, are not sampled by the tests; double frees and over-reads pass unnoticed.',
 ['wreport/var.cc','wreport/var.h'],
 [('Var(const Var&)/Var(Var&&)/Var(Varinfo, const Var&)/~Var','wreport/var.cc'),('operator=','wreport/var.cc'),('copy_value/move_value','wreport/var.cc'),('operator==/value_equals','wreport/var.cc')],
 [('m_value','inline integer or owned buffer','wreport/var.h'),('m_attrs','owned chain of attributes','wreport/var.h')],
 ['value, set flag and attributes of both variables after each operation','allocations released'],
 'Proved for all inputs (declared lengths below 2^20). The rest of an attribute chain is used through the copy/compare/destroy contract of its head (induction over the chain). strcmp/memcmp/memcpy are assumed contracts.')
prop('C06','Attributes of a variable form a map from code to variable',
 'Setting an attribute replaces the one with the same code or adds it in code order, and leaves every other attribute as it was; unsetting removes exactly the one with that code. Looking up a code returns the attribute with that code (set or unset) and nothing else, and nothing when there is none. Setting by copy leaves the given variable as it was, setting by move unsets it. Copying attributes from another variable replaces all of them with independent copies, and clearing removes all. None of these touches the value of the variable.',
 ['inputs','histories'],'every chain length, every set of codes, every position of the code searched, added or removed, every history of set and unset',
 'Position in the chain x operation x histories are not sampled: the tests use one or two attributes.',
 ['wreport/var.cc','wreport/var.h'],
 [('seta/unseta/enqa/next_attr/clear_attrs/setattrs','wreport/var.cc')],
 [('m_attrs','chain of attributes sorted by code','wreport/var.h')],
 ['enqa/next_attr after each operation','source variable after seta'],
 'Proved for chains of any length (induction: recursive calls are used through their own contract, loops by invariant).')
prop('C07','The header of a BUFR message is decoded as the message says, inside its bounds',
 'Decoding a BUFR message of edition 2, 3 or 4 gives the edition, master table, table versions, centre, subcentre, category, subcategories, update sequence number, date and time, compression flag, optional section, number of subsets and descriptors that its bytes say, with sections starting where the previous one ends. Every message whose sections are complete and long enough for their fixed part is accepted, and every other byte sequence (no signature, another edition, truncated anywhere, sections ending outside the message) is refused as a parse or consistency error without reading outside the message; so are a message with no subsets and one whose last section is not 7777. The data section is decoded once per subset, in order, or once for all subsets when it is compressed.',
 ['inputs'],'every byte sequence of any length below 2^31',
 'Any byte sequence can be given to the decoder; tests use a few dozen good messages and a few truncations.',
 ['wreport/bufr/decoder.cc','wreport/bufr/input.cc'],
 [('Decoder::decode_header/decode_sec1ed3/decode_sec1ed4/decode_data','wreport/bufr/decoder.cc'),('scan_lead_sections/scan_other_sections/scan_section_length/check_available_*/read_number','wreport/bufr/input.cc')],
 [('sec[]','offsets of the sections','wreport/bufr/input.h'),('expected_subsets','number of subsets declared','wreport/bufr/decoder.h')],
 ['fields of the decoded BufrBulletin','number of subsets','exception type'],
 'Proved for all byte sequences. Loading of tables and the decoding of one data section (Interpreter::run) are used as opaque steps here; std::vector<Varcode>::push_back is an assumed contract.')
prop('C08','A BUFR message is encoded with the header its bulletin says',
 'Encoding a bulletin of edition 2, 3 or 4 produces exactly: the indicator section with the total length and edition; the identification section of that edition with the fields of the bulletin (editions 2 and 3 keep the low 8 bits of centre and subcentre and the year of century); the optional section, padded to an even length, when there is one; the number of subsets and the descriptors of the bulletin; a data section with what each subset encodes, once and in order, padded to an even length; and the end section; every section length is the length of that section. Bulletins with no subsets, no descriptors, more than 65535 subsets or a result longer than 2^24-1 bytes are refused with a consistency error, other editions as not implemented. Decoding the result gives the header back (for fields that the edition can represent, and years 1951 to 2050 in editions 2 and 3).',
 ['inputs'],'every combination of header fields, optional sections of any length and content, any number of descriptors and subsets, any amount of data',
 'Field values x editions x section lengths (odd, even, close to the limits of their length fields) are not sampled by the tests.',
 ['wreport/bufr_encoder.cc','wreport/buffers/bufr.h'],
 [('BufrBulletin::encode, Encoder::encode_sec0..5','wreport/bufr_encoder.cc')],
 [('sec[]','offsets of the sections being written','wreport/bufr_encoder.cc')],
 ['bytes of the encoded message','exception type','header decoded back from it'],
 'Proved for all inputs; add_bits and flush are used through their C01 contracts, what one subset encodes (Interpreter::run) is an opaque sequence of bits. The round trip is a lemma over the C07 and C08 specifications.')
prop('C09','Data descriptors are interpreted as their operators say',
 'Walking a list of descriptors, for any list and any state: element descriptors are handled one by one in order, each with the description of its Table B entry altered by the operators in effect (C01 width and C02 scale for elements that are neither text nor code or flag tables, C07 scale, reference and width likewise, C08 width of text, C03 reference values), as a variable, as a variable with associated field while C04 is in effect, or as an attribute of the next variable selected when it is of class 33 and a bitmap is active; sequences (Table D) and replications run exactly the descriptors that they stand for, exactly as many times as their count or their delayed replication factor says, and a replication after C22/C23 defines a bitmap instead. Each operator changes exactly the state that it is documented to change, and stays in effect until changed or cancelled. Malformed uses (a list that ends too early, C04 nested, wider than 32 bits or not followed by B31021, C03 wider than 32 bits, reference values that do not fit, C23255 without a bitmap, a bitmap that is not a replication of one B31031) are refused, and nothing outside the list is ever read.',
 ['inputs','histories'],'every descriptor, every state of the operators in effect, descriptor lists of any length, any replication factor',
 'Operators combine and stay in effect over any sequence of descriptors; the tests sample a few templates.',
 ['wreport/bulletin/interpreter.cc','wreport/opcodes.h'],
 [('Interpreter::run/r_replication/r_bitmap/b_variable/c_modifier/get_varinfo','wreport/bulletin/interpreter.cc'),('Opcodes::operator[]/pop_left','wreport/opcodes.h')],
 [('c_scale_change, c_width_change, c_scale_ref_width_increase, c_string_len_override, c03_refval_override_bits, associated_field, bitmaps.pending_definitions','operators in effect','wreport/bulletin/interpreter.h'),('opcode_stack','descriptors being run','wreport/bulletin/interpreter.h')],
 ['sequence of define_* calls with their Varinfo','exception type'],
 'Proved for every step and, by loop invariant, for every number of steps; the define_* methods, Table B and D lookup and the bitmap iteration are used through contracts (bitmaps: C10). Operators not supported by the library are skipped, as documented.')
prop('C10','A data present bitmap selects exactly the variables it marks, in order',
 'A bitmap of n entries defined after a variable refers to the n data variables (not operators) that precede that point: the variables visited are exactly those whose entry says data present, each once, in the order of the message. A bitmap that is empty or longer than the data that precedes it is refused with a consistency error, without reading outside the subset or the bitmap, and leaves the bitmap in use as it was. A bitmap is in use from its definition until its last selected variable is visited (never, if it selects nothing); then it is the last bitmap, which C37000 puts in use again from its first variable, until C37255 discards it or another bitmap is completed. Asking for a variable when no bitmap is in use is refused. Bitmaps are released exactly once.',
 ['inputs','histories'],'every subset, every bitmap, every anchor, every history of define, visit, reuse and discard',
 'Bitmaps x positions of operators in the subset x histories of reuse cannot be sampled.',
 ['wreport/bulletin/bitmaps.cc'],
 [('Bitmap::Bitmap/next/eob/reuse','wreport/bulletin/bitmaps.cc'),('Bitmaps::define/next/reuse_last/discard_last/~Bitmaps','wreport/bulletin/bitmaps.cc')],
 [('refs/iter','variables selected and those left to visit','wreport/bulletin/bitmaps.h'),('current/last','bitmap in use and last one used','wreport/bulletin/bitmaps.h')],
 ['positions passed to define_attribute and define_substituted_value','exception type'],
 'Proved for subsets and bitmaps of any size below 2^31 by loop invariant (the selection is specified by counting data variables back from the anchor).')
prop('C11','Each element of the data section is one variable of each subset, and the other way round',
 'Decoding a data section, in each subset every element of the template becomes exactly one variable, in order, described by the entry the template gives it and set from its own bits: directly in uncompressed data, as base plus the difference of that subset in compressed data (with a difference of all ones missing, and one value for all when the differences have width 0). An associated field becomes the attribute its significance (B31021) says, of the variable that follows, in the same subset and in no other. Values selected by a bitmap become attributes of the selected variable and add no variable; a bitmap becomes one variable with one + or - per entry; a changed reference value is read as sign and magnitude. Compressed data where replication factors, bitmaps or operators differ between subsets, a missing base has differences, or differences do not fit, is refused; so is data that ends too early. Encoding a subset writes for each element of the template the bits of the next variable (or attribute, or associated field) with the width of that element, all ones when it is missing, and refuses subsets that have too few variables, a variable in place of a bitmap, bitmaps of the wrong size, and associated fields or reference values that do not fit. Variables are stored in a subset at its end, described by the Table B of the subset; append_dpb makes a bitmap with + for exactly the data variables that have the given attribute.',
 ['inputs','histories'],'every sequence of bits, every number of subsets, every width, every associated field significance, every state of the subset',
 'Widths x differences x missing markers x number of subsets x associated fields are sampled by the tests on a few recorded messages only.',
 ['wreport/bufr/decoder.cc','wreport/bufr/input.cc','wreport/bufr_encoder.cc','wreport/bulletin/associated_fields.cc','wreport/bulletin/internals.cc','wreport/subset.cc'],
 [('UncompressedDecoderTarget, CompressedDecoderTarget, DataSectionDecoder','wreport/bufr/decoder.cc'),('Input::decode_compressed_number/_af, decode_string, decode_*compressed_bitmap','wreport/bufr/input.cc'),('DDSEncoder, UncompressedEncoder','wreport/bufr_encoder.cc, wreport/bulletin/internals.cc'),('AssociatedField::make_attribute/get_attribute','wreport/bulletin/associated_fields.cc'),('Subset::store_variable*, append_dpb, append_fixed_dpb','wreport/subset.cc')],
 [('subsets','variables decoded so far','wreport/subset.h'),('current_var','next variable to encode','wreport/bulletin/internals.h'),('associated_field','width and significance in effect','wreport/bulletin/associated_fields.h')],
 ['variables and attributes of each subset','bits of the encoded data section','exception type'],
 'Proved for each element of the template in any state, for all inputs; the order of elements is C09, single fields are C03 and C04, bitmap selection is C10, used through their contracts. std::function calls, std::vector growth and Table B lookup are assumed contracts.')
prop('C12','Tables give the entry asked for, altered as asked, and never change what was given before',
 'Looking up a code in a loaded B table or D table gives the entry with exactly that code (for D tables its whole expansion), and fails with error_notfound exactly when the table has no such entry; contains() agrees with query(). Asking for an altered entry gives a description with the same code, text and unit, and exactly the scale, width and reference value asked for, with the type (decimal when there is a scale), character width and domain that go with them; the same request gives the same description again; a number altered to a scale beyond 16 or to a width of 0 or more than 32 bits is refused with error_consistency. Descriptions made up for bitmaps, character data and unknown local descriptors have exactly the code and length asked for, whatever was asked before. No lookup changes or moves a description given earlier, nor the entries of the table. B table entries are in strictly increasing order of code: a file that is not is refused with error_parse.',
 ['inputs','histories'],'every table of every size, every code, every alteration, every history of previous lookups and alterations',
 'Tests look up a few codes in the shipped tables; position in the table x previous alterations x requested width and scale cannot be enumerated.',
 ['wreport/vartable.cc','wreport/dtable.cc','wreport/tables.cc','wreport/varinfo.cc'],
 [('VartableBase::query, contains, query_altered, obtain; VartableEntry','wreport/vartable.cc'),('DTableBase::query','wreport/dtable.cc'),('Tables::get_bitmap, get_chardata, get_unknown','wreport/tables.cc'),('_Varinfo::set_string, set_binary','wreport/varinfo.cc')],
 [('entries','table entries, sorted by code','wreport/vartable.cc'),('alterations','altered versions of an entry, never removed','wreport/vartable.cc'),('bitmap_table, chardata_table, unknown_table','descriptions made so far','wreport/tables.h')],
 ['Varinfo returned','Opcodes returned','exception type'],
 'Proved for tables and alteration chains of any length, with loop invariants for the searches and induction over the chain. Parsing of the table file columns is not covered; std::map and std::vector are assumed contracts; the order of D table entries is assumed (the loader does not check it).')
prop('C13','The tables used for a bulletin are the closest acceptable ones',
 'For every header, the tables loaded are those of a table of the table directories that is acceptable (same master table number, version not older than asked; for CREX also the same edition, and BUFR tables of a version not older than the BUFR version asked for; CREX tables are never used for BUFR), and no acceptable table is closer: first the lowest version, then the originating centre (the one asked for, then 0, then missing, then others), then, for the centre asked for, the closest local version (not older if possible) and the subcentre; the first found wins between equals. When there is no acceptable table, and only then, loading fails with error_notfound. The answer for one header does not depend on what was asked for before, and directories added later are searched too. Each table file is identified by exactly what its name says, B and D tables used together are the pair with the same name in the same directory, and other files are ignored.',
 ['inputs','histories'],'every header, every set of tables in any number of directories, every file name, every history of previous lookups',
 'The choice depends on seven header fields against any set of candidates; tests try a few pairs.',
 ['wreport/tableinfo.cc','wreport/internals/tabledir.cc','wreport/tables.cc','wreport/bulletin.cc'],
 [('BufrTableID/CrexTableID::is_acceptable_replacement, closest_match, operator<','wreport/tableinfo.cc'),('Index::find_bufr/find_crex, Query, Dir::refresh, Table::Table, Tabledirs::add_directory','wreport/internals/tabledir.cc'),('Tables::load_bufr/load_crex','wreport/tables.cc'),('BufrBulletin/CrexBulletin::load_tables','wreport/bulletin.cc')],
 [('dirs','tables found in each directory','wreport/internals/tabledir.h'),('bufr_cache, crex_cache','tables chosen before','wreport/internals/tabledir.cc')],
 ['table found for an identifier','btable and dtable of a bulletin','exception type'],
 'Proved for any number of directories and tables by loop invariant over an arbitrary candidate; the comparison is proved equal to a lexicographic order for all identifiers. sscanf (on names that fit its format), std::map, std::filesystem::path and directory reading are assumed contracts.')
prop('C14','A CREX message is decoded to what its text says',
 'Decoding any sequence of characters as CREX ends, reads only inside it, and either fails with an error or gives what is written: the master table, edition and version of the T group; the category and subcategory of the A group (3 or 6 digits); the descriptors between the A group and the ++ that ends the section, all and in order; check digits expected exactly when E is among the descriptors. In the data section each element of the template takes the characters of its own field: as many as its length, one more for the sign of a negative number, preceded by a check digit that counts 1..9,0,1.. when check digits are used (anything else in its place is refused), without the blanks that follow. A field that starts with / is a missing value, a text field is its text, a number field is the number written in it, and a field that is not a number (or does not fit an int) is refused; delayed replication factors 031000, 031001, 031002, 031011 and 031012 are 4 digits, and are refused when missing or negative. Subsets are separated by +, read each once, in order, up to the ++ that ends the data; an optional SUPP section is skipped up to its first ++; the message must then end with 7777. varcode_parse refuses, without reading past its end, a string in which the first character is not followed by five digits, and otherwise gives the F of its first character (B, R, C, D or 0-3) with the X and Y written (when they are at most 63 and 255); varcode_format writes that letter and those five digits back for every code.',
 ['inputs'],'every sequence of characters, every number of descriptors and subsets, every length of field, every blank between items',
 'Tests decode a few recorded messages; field lengths x signs x blanks x check digits x malformed input cannot be sampled.',
 ['wreport/crex_decoder.cc','wreport/buffers/crex.cc','wreport/varinfo.cc'],
 [('decode_header, CrexParser, decode_data, CrexBulletin::decode*','wreport/crex_decoder.cc'),('CrexInput','wreport/buffers/crex.cc'),('varcode_parse, varcode_format','wreport/varinfo.cc')],
 [('cur','position in the text','wreport/buffers/crex.h'),('expected_check_digit','next check digit','wreport/buffers/crex.h'),('sec[]','offsets of the sections','wreport/buffers/crex.h')],
 ['fields of the decoded CrexBulletin','variables of each subset','exception type'],
 'Proved for all texts by loop invariants, with a measure that every loop increases (termination). The order of the elements is C09; sscanf, strtol and strtoul (on fields made of digits), snprintf and std::vector growth are assumed contracts.')
prop('C15','A bulletin is encoded to CREX as the text that says it',
 'Encoding a CREX bulletin gives exactly: the indicator CREX++; the T group with master table number, edition and version (two digits each, for numbers up to 99) and the A group with the category, and the subcategory unless it is 255, of three digits each; each descriptor of the bulletin, in order, as its letter and five digits, except the delayed replication counts 031000, 031001 and 031002; E exactly when the bulletin uses check digits, and ++; then the subsets in order, separated by +, then ++ and 7777, with CR CR LF after each section and separator. Each variable of a subset, in the order of the template, is a blank, its check digit when they are used (counting 1..9,0,1.. over the whole message) and its field: as many slashes as the length of the element when missing, otherwise its text padded with blanks or cut to that length, whatever the length, or its number padded with zeros to that length, preceded by - when negative. Delayed replication factors 031000, 031001, 031002, 031011 and 031012 are four digits, and one that is missing, negative or above 9999 is refused; binary values are refused.',
 ['inputs'],'every header, every list of descriptors, any number of subsets, every value, length of element and check digit',
 'Tests encode a few recorded messages; lengths x signs x missing values x check digits x descriptors are not sampled.',
 ['wreport/crex_encoder.cc','wreport/buffers/crex.cc'],
 [('CrexBulletin::encode, encode_sec1, DDSEncoder','wreport/crex_encoder.cc'),('CrexOutput','wreport/buffers/crex.cc')],
 [('buf','text written so far','wreport/buffers/crex.h'),('expected_check_digit','next check digit','wreport/buffers/crex.h')],
 ['text of the encoded message','exception type'],
 'Proved for all inputs: every piece appended is checked against the text expected at that point, with loop invariants over descriptors, subsets and slashes. The order of the elements is C09, the next variable is C11; vsnprintf and std::string are assumed contracts.')
prop('C16','Messages are read from a file where they are, whole, and none is skipped; they are written whole',
 'BufrBulletin::read and CrexBulletin::read, called at any position of any file, find the first signature (BUFR, or CREX++) at or after that position, whatever precedes it, set the offset, when one is asked for, to that of the signature, and give exactly the characters of the message: as many as its length says for BUFR; for CREX, up to the first ++, one or more CR or LF in any combination, 7777 after the signature, whatever precedes it. The file is left right after the message. They return false exactly when there is no signature in the rest of the file. A BUFR message that says it is shorter than 12 or longer than the rest of the file is refused with error_consistency, one that is cut before its length is refused, a CREX message without an end is refused with error_parse; an error in reading is never taken for a message or for the end of the file. BufrBulletin::write and CrexBulletin::write write exactly the message, followed for CREX by CR CR LF, and return only if all of it has been written.',
 ['inputs','faults'],'every file, position, message length, and read or write error at every point',
 'Tests read recorded files with one message at the start; what precedes a message, partial signatures, line ends, lengths and failures are not sampled.',
 ['wreport/bulletin.cc'],
 [('seek_past_signature','wreport/bulletin.cc'),('BufrBulletin::read, CrexBulletin::read, BufrBulletin::write, CrexBulletin::write','wreport/bulletin.cc')],
 [('position of the file','where the next character is read','stdio'),('got','how much of the signature or of the end is matched','wreport/bulletin.cc')],
 ['message read','offset','position of the file','characters written','exception type'],
 'Proved for all files: the matching loops are proved with invariants against the definition of first occurrence (an arbitrary earlier position) and against the automaton of the end of CREX messages. stdio and std::string are assumed contracts.')
