// Layout of the classes under contract, computed by the compiler from /repo's headers (built with -fno-access-control)
#include <cstddef>
#include <wreport/var.h>
#include <wreport/varinfo.h>
#include <wreport/buffers/bufr.h>
#include <wreport/bufr/input.h>
#define OFF(C,T,f) extern "C" { extern const unsigned long vp_##C##_##f; __attribute__((used)) const unsigned long vp_##C##_##f = offsetof(T,f); }
#define SIZ(C,T) extern "C" { extern const unsigned long vp_##C; __attribute__((used)) const unsigned long vp_##C = sizeof(T); }
SIZ(Input,wreport::bufr::Input)
OFF(Input,wreport::bufr::Input,data) OFF(Input,wreport::bufr::Input,data_len) OFF(Input,wreport::bufr::Input,fname)
OFF(Input,wreport::bufr::Input,start_offset) OFF(Input,wreport::bufr::Input,s4_cursor) OFF(Input,wreport::bufr::Input,pbyte)
OFF(Input,wreport::bufr::Input,pbyte_len) OFF(Input,wreport::bufr::Input,sec)
SIZ(BufrOutput,wreport::buffers::BufrOutput)
OFF(BufrOutput,wreport::buffers::BufrOutput,pbyte) OFF(BufrOutput,wreport::buffers::BufrOutput,pbyte_len)
SIZ(Var,wreport::Var)
OFF(Var,wreport::Var,m_info) OFF(Var,wreport::Var,m_isset) OFF(Var,wreport::Var,m_value) OFF(Var,wreport::Var,m_attrs)
SIZ(Varinfo,wreport::_Varinfo)
#define V(f) OFF(Varinfo,wreport::_Varinfo,f)
V(code) V(type) V(desc) V(unit) V(scale) V(len) V(bit_ref) V(bit_len) V(imin) V(imax) V(dmin) V(dmax)
#include <wreport/bufr/decoder.h>
#include <wreport/bulletin.h>
SIZ(Decoder,wreport::bufr::Decoder)
OFF(Decoder,wreport::bufr::Decoder,in) OFF(Decoder,wreport::bufr::Decoder,out) OFF(Decoder,wreport::bufr::Decoder,expected_subsets)
OFF(Decoder,wreport::bufr::Decoder,conf_add_undef_attrs) OFF(Decoder,wreport::bufr::Decoder,optional_section_length) OFF(Decoder,wreport::bufr::Decoder,verbose_output)
SIZ(BufrBulletin,wreport::BufrBulletin)
#define B(f) OFF(BufrBulletin,wreport::BufrBulletin,f)
B(fname) B(offset) B(master_table_number) B(data_category) B(data_subcategory) B(data_subcategory_local) B(originating_centre) B(originating_subcentre)
B(update_sequence_number) B(rep_year) B(rep_month) B(rep_day) B(rep_hour) B(rep_minute) B(rep_second) B(tables) B(datadesc) B(subsets)
B(edition_number) B(master_table_version_number) B(master_table_version_number_local) B(compression) B(optional_section) B(section_end)
#include <wreport/bulletin/interpreter.h>
SIZ(Subset,wreport::Subset) SIZ(DataSectionDecoder,wreport::bufr::DataSectionDecoder)
OFF(DataSectionDecoder,wreport::bufr::DataSectionDecoder,associated_field) OFF(AssociatedField,wreport::bulletin::AssociatedField,skip_missing)
OFF(UncompressedDecoderTarget,wreport::bufr::UncompressedDecoderTarget,out) OFF(CompressedDecoderTarget,wreport::bufr::CompressedDecoderTarget,out) OFF(CompressedDecoderTarget,wreport::bufr::CompressedDecoderTarget,in) OFF(UncompressedDecoderTarget,wreport::bufr::UncompressedDecoderTarget,in)
SIZ(Interpreter,wreport::bulletin::Interpreter)
#define P(f) OFF(Interpreter,wreport::bulletin::Interpreter,f)
P(tables) P(opcode_stack) P(bitmaps) P(associated_field) P(c_scale_change) P(c_width_change) P(c_scale_ref_width_increase) P(c_string_len_override) P(c03_refval_overrides) P(c03_refval_override_bits)
OFF(AssociatedField,wreport::bulletin::AssociatedField,btable) OFF(AssociatedField,wreport::bulletin::AssociatedField,bit_count) OFF(AssociatedField,wreport::bulletin::AssociatedField,significance) SIZ(AssociatedField,wreport::bulletin::AssociatedField)
SIZ(Bitmaps,wreport::bulletin::Bitmaps) OFF(Bitmaps,wreport::bulletin::Bitmaps,pending_definitions) OFF(Bitmaps,wreport::bulletin::Bitmaps,current) OFF(Bitmaps,wreport::bulletin::Bitmaps,last)
SIZ(Bitmap,wreport::bulletin::Bitmap) OFF(Bitmap,wreport::bulletin::Bitmap,bitmap) OFF(Bitmap,wreport::bulletin::Bitmap,refs) OFF(Bitmap,wreport::bulletin::Bitmap,iter)
SIZ(Tables,wreport::Tables) OFF(Tables,wreport::Tables,btable) OFF(Tables,wreport::Tables,dtable)
SIZ(Opcodes,wreport::Opcodes) OFF(Opcodes,wreport::Opcodes,begin) OFF(Opcodes,wreport::Opcodes,end)
// where the std::vector<Var> part of a Subset is
extern "C" { extern const unsigned long vp_Subset_vec; __attribute__((used)) const unsigned long vp_Subset_vec = (unsigned long)static_cast<std::vector<wreport::Var>*>((wreport::Subset*)64)-64; }
#include <wreport/bulletin/internals.h>
OFF(CompressedDecoderTarget,wreport::bufr::CompressedDecoderTarget,subset_count) OFF(DataSectionDecoder,wreport::bufr::DataSectionDecoder,target)
SIZ(UncompressedDecoderTarget,wreport::bufr::UncompressedDecoderTarget) SIZ(CompressedDecoderTarget,wreport::bufr::CompressedDecoderTarget)
SIZ(UncompressedEncoder,wreport::bulletin::UncompressedEncoder) OFF(UncompressedEncoder,wreport::bulletin::UncompressedEncoder,current_subset) OFF(UncompressedEncoder,wreport::bulletin::UncompressedEncoder,current_var)
OFF(Subset,wreport::Subset,tables) OFF(DispatchToSubsets,wreport::bufr::DispatchToSubsets,out) OFF(DispatchToSubsets,wreport::bufr::DispatchToSubsets,subset_count) SIZ(DispatchToSubsets,wreport::bufr::DispatchToSubsets)
