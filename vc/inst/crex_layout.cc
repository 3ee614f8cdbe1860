// Layout of the CREX classes, computed by the compiler from /repo's headers (built with -fno-access-control)
#include <cstddef>
#include <wreport/bulletin.h>
#include <wreport/buffers/crex.h>
#define OFF(C,T,f) extern "C" { extern const unsigned long vp_##C##_##f; __attribute__((used)) const unsigned long vp_##C##_##f = offsetof(T,f); }
#define SIZ(C,T) extern "C" { extern const unsigned long vp_##C; __attribute__((used)) const unsigned long vp_##C = sizeof(T); }
SIZ(CrexInput,wreport::buffers::CrexInput)
#define I(f) OFF(CrexInput,wreport::buffers::CrexInput,f)
I(data) I(data_len) I(fname) I(offset) I(sec) I(cur) I(has_check_digit) I(expected_check_digit)
SIZ(CrexOutput,wreport::buffers::CrexOutput)
OFF(CrexOutput,wreport::buffers::CrexOutput,has_check_digit) OFF(CrexOutput,wreport::buffers::CrexOutput,expected_check_digit)
SIZ(CrexBulletin,wreport::CrexBulletin)
#define C(f) OFF(CrexBulletin,wreport::CrexBulletin,f)
C(fname) C(offset) C(master_table_number) C(data_category) C(data_subcategory) C(data_subcategory_local) C(edition_number) C(master_table_version_number) C(master_table_version_number_bufr) C(has_check_digit) C(datadesc) C(subsets) C(tables)
