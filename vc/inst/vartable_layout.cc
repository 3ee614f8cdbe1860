// Layout of the B table classes (private to vartable.cc), computed by the compiler from /repo's source under another namespace name
#define wreport wreport_layout
#include <wreport/vartable.cc>
#include <cstddef>
#define OFF(C,T,f) extern "C" { extern const unsigned long vp_##C##_##f; __attribute__((used)) const unsigned long vp_##C##_##f = offsetof(T,f); }
#define SIZ(C,T) extern "C" { extern const unsigned long vp_##C; __attribute__((used)) const unsigned long vp_##C = sizeof(T); }
SIZ(VartableBase,wreport::VartableBase) OFF(VartableBase,wreport::VartableBase,entries)
SIZ(VartableEntry,wreport::VartableEntry) OFF(VartableEntry,wreport::VartableEntry,varinfo) OFF(VartableEntry,wreport::VartableEntry,alterations)
