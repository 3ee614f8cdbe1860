// Layout of the D table classes (private to dtable.cc), computed by the compiler from /repo's source under another namespace name
#define wreport wreport_layout
#include <wreport/dtable.cc>
#include <cstddef>
#define OFF(C,T,f) extern "C" { extern const unsigned long vp_##C##_##f; __attribute__((used)) const unsigned long vp_##C##_##f = offsetof(T,f); }
#define SIZ(C,T) extern "C" { extern const unsigned long vp_##C; __attribute__((used)) const unsigned long vp_##C = sizeof(T); }
SIZ(DTableBase,wreport::DTableBase) OFF(DTableBase,wreport::DTableBase,entries) OFF(DTableBase,wreport::DTableBase,varcodes)
SIZ(DEntry,wreport::Entry) OFF(DEntry,wreport::Entry,code) OFF(DEntry,wreport::Entry,begin) OFF(DEntry,wreport::Entry,end)
