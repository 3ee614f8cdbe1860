import sys; sys.path.insert(0,__file__.rsplit('/',2)[0])
from mkbug import mkbug
H='''#include <wreport/bulletin.h>
#include <wreport/tableinfo.h>
#include <wreport/tables.h>
#include <wreport/internals/tabledir.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <unistd.h>
using namespace wreport;
#define CHECK(x) do{ if(!(x)){ printf("FAILED: %s\\n",#x); return 1; } }while(0)
struct Scratch{ std::string d; std::vector<std::string> fs; Scratch(){ char t[]="/tmp/wvdemo.XXXXXX"; if(!mkdtemp(t)) abort(); d=t; } ~Scratch(){ for(auto&f:fs) unlink(f.c_str()); rmdir(d.c_str()); } void file(const char*n){ std::string p=d+"/"+n; std::ofstream(p)<<""; fs.push_back(p); } };
'''
T='wreport/tableinfo.cc'; D='wreport/internals/tabledir.cc'
mkbug('c13-cache','C13',[(T,'''    if (master_table_version_number_local < o.master_table_version_number_local) return true;
    if (master_table_version_number_local > o.master_table_version_number_local) return false;
    if (master_table_version_number_bufr < o.master_table_version_number_bufr) return true;
    if (master_table_version_number_bufr > o.master_table_version_number_bufr) return false;
    return false;''','''    if (master_table_version_number_local < o.master_table_version_number_local) return true;
    if (master_table_version_number_local > o.master_table_version_number_local) return false;
    return false;''')],
H+'''int main(){ Scratch s; s.file("B0000000000000013000.txt"); s.file("B0000000000000016000.txt"); tabledir::Tabledirs t; t.add_directory(s.d);
 auto a=t.find_crex(CrexTableID(2,0,0,0,40,13,0)); auto b=t.find_crex(CrexTableID(2,0,0,0,40,16,0)); CHECK(a&&b); CHECK(a->btable_id=="B0000000000000013000"); CHECK(b->btable_id=="B0000000000000016000"); return 0; }''',
'two CREX headers that differ in the BUFR table version only, one after the other','the second gets the table chosen for the first')
mkbug('c13-skip','C13',[(D,'''    // Do not add a duplicate directory
    for (const auto& i: dirs)
        if (i == clean_dir)
            return;
    dirs.push_back(clean_dir);

    // Force a rebuild of the index
    delete index;
    index = 0;''','''    // Do not add a duplicate directory
    for (const auto& i: dirs)
        if (i == clean_dir)
            return;

    // Force a rebuild of the index
    if (dirs.empty())
    {
        delete index;
        index = 0;
    }
    dirs.push_back(clean_dir);''')],
H+'''int main(){ Scratch s,r; s.file("B0000000000000013000.txt"); r.file("B0000000000000016000.txt"); tabledir::Tabledirs t; t.add_directory(s.d); CHECK(!t.find_bufr(BufrTableID(0,0,0,16,0))); t.add_directory(r.d); CHECK(t.find_bufr(BufrTableID(0,0,0,16,0))); return 0; }''',
'a directory added after tables were looked for','its tables are not searched')
mkbug('c13-name','C13',[(D,'if (sscanf(e.d_name, "B00%03d%04d%04d%03d%03d", &dummy, &sc, &ce, &mt, &lt) == 5)\n                            tables.push_back(new BufrTable(BufrTableID(ce, sc, 0, mt, lt)','if (sscanf(e.d_name, "B00%03d%04d%04d%03d%03d", &dummy, &sc, &ce, &mt, &lt) == 5)\n                            tables.push_back(new BufrTable(BufrTableID(ce, dummy, 0, mt, lt)')],
H+'''int main(){ Scratch s; s.file("B0000000010098014001.txt"); s.file("B0000000020098014001.txt"); tabledir::Tabledirs t; t.add_directory(s.d); auto a=t.find_bufr(BufrTableID(98,1,0,14,1)), b=t.find_bufr(BufrTableID(98,2,0,14,1)); CHECK(a&&b); CHECK(a->btable_id=="B0000000010098014001"); CHECK(b->btable_id=="B0000000020098014001"); return 0; }''',
'two table files of the same centre for different subcentres','the subcentre in the file name is ignored')
mkbug('c13-tie','C13',[(D,'crex_best = choose_best(*crex_best, *cur);','crex_best = choose_best(*cur, *crex_best);')],
H+'''int main(){ Scratch s,r; s.file("B000214.txt"); r.file("B000214.txt"); tabledir::Tabledirs t; t.add_directory(s.d); t.add_directory(r.d); auto a=t.find_crex(CrexTableID(2,0,0,0,14,0,0)); CHECK(a); CHECK(a->btable_pathname.string()==s.d+"/B000214.txt"); return 0; }''',
'the same CREX table in two directories','the table of the last directory is used: tables of the user do not override those installed')
