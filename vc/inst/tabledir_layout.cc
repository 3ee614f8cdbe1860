// Layout of the classes that choose tables (some private to tabledir.cc), computed by the compiler from /repo's source under another namespace name
#define wreport wreport_layout
#define protected public
#include <wreport/internals/tabledir.cc>
#include <wreport/tables.h>
#include <wreport/bulletin.h>
#include <cstddef>
#define OFF(C,T,f) extern "C" { extern const unsigned long vp_##C##_##f; __attribute__((used)) const unsigned long vp_##C##_##f = offsetof(T,f); }
#define SIZ(C,T) extern "C" { extern const unsigned long vp_##C; __attribute__((used)) const unsigned long vp_##C = sizeof(T); }
#define I(f) OFF(BufrTableID,wreport::BufrTableID,f) OFF(CrexTableID,wreport::CrexTableID,f)
I(originating_centre) I(originating_subcentre) I(master_table_number) I(master_table_version_number) I(master_table_version_number_local)
OFF(CrexTableID,wreport::CrexTableID,edition_number) OFF(CrexTableID,wreport::CrexTableID,master_table_version_number_bufr)
SIZ(BufrTableID,wreport::BufrTableID) SIZ(CrexTableID,wreport::CrexTableID)
SIZ(BufrTable,wreport::tabledir::BufrTable) SIZ(CrexTable,wreport::tabledir::CrexTable) OFF(BufrTable,wreport::tabledir::BufrTable,id) OFF(CrexTable,wreport::tabledir::CrexTable,id) SIZ(Table,wreport::tabledir::Table)
OFF(Table,wreport::tabledir::Table,btable_id) OFF(Table,wreport::tabledir::Table,btable_pathname) OFF(Table,wreport::tabledir::Table,dtable_pathname) OFF(Table,wreport::tabledir::Table,dtable_id)
SIZ(Dir,wreport::tabledir::Dir) OFF(Dir,wreport::tabledir::Dir,tables)
SIZ(Index,wreport::tabledir::Index) OFF(Index,wreport::tabledir::Index,dirs) OFF(Index,wreport::tabledir::Index,bufr_cache) OFF(Index,wreport::tabledir::Index,crex_cache)
#define C(f) OFF(CrexBulletin,wreport::CrexBulletin,f)
SIZ(CrexBulletin,wreport::CrexBulletin) C(edition_number) C(originating_centre) C(originating_subcentre) C(master_table_number) C(master_table_version_number) C(master_table_version_number_bufr) C(master_table_version_number_local) C(tables)
SIZ(Tabledirs,wreport::tabledir::Tabledirs) OFF(Tabledirs,wreport::tabledir::Tabledirs,dirs) OFF(Tabledirs,wreport::tabledir::Tabledirs,index)
OFF(Dir,wreport::tabledir::Dir,pathname) OFF(Dir,wreport::tabledir::Dir,mtime)
#include <dirent.h>
#include <sys/stat.h>
OFF(dirent,struct dirent,d_name) OFF(stat,struct stat,st_mtim)
#undef wreport
