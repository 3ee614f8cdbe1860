import sys; sys.path.insert(0,__file__.rsplit('/',2)[0])
from mkbug import mkbug
H='''#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/error.h>
#include <cstdio>
#include <string>
using namespace wreport;
#define CHECK(x) do{ if(!(x)){ printf("FAILED: %s\\n",#x); return 1; } }while(0)
static std::unique_ptr<CrexBulletin> mk(std::vector<Varcode> d,bool chk=false){ auto b=CrexBulletin::create(); b->clear(); b->edition_number=1; b->master_table_number=0; b->master_table_version_number=3; b->master_table_version_number_bufr=0; b->data_category=0; b->data_subcategory=255; b->data_subcategory_local=0; b->has_check_digit=chk; b->datadesc=d; b->load_tables(); return b; }
'''
B='wreport/buffers/crex.cc'; C='wreport/crex_encoder.cc'
mkbug('c15-negative','C15',[(B,'''            if (val < 0) ++len;

            raw_appendf''','''            if (val < -9) ++len;

            raw_appendf''')],
H+'''int main(){ auto b=mk({WR_VAR(0,12,1)}); b->obtain_subset(0).store_variable_d(WR_VAR(0,12,1),-0.5); std::string s=b->encode(); CHECK(s=="CREX++\\r\\r\\nT000103 A000 B12001++\\r\\r\\n -005++\\r\\r\\n7777\\r\\r\\n"); return 0; }''',
'a negative value of one digit','the field is one character short')
mkbug('c15-skip','C15',[(C,'WR_VAR_Y(*i) < 3)','WR_VAR_Y(*i) < 4)')],
H+'''int main(){ auto b=CrexBulletin::create(); b->clear(); b->edition_number=1; b->master_table_number=0; b->master_table_version_number=3; b->data_category=0; b->data_subcategory=255; b->has_check_digit=false; b->datadesc={WR_VAR(0,31,3),WR_VAR(0,1,1)}; std::string s=b->encode(); CHECK(s=="CREX++\\r\\r\\nT000103 A000 B31003 B01001++\\r\\r\\n++\\r\\r\\n7777\\r\\r\\n"); return 0; }''',
'a descriptor 031003 in the list','the descriptor is not written in the header')
mkbug('c15-separator','C15',[(C,'''        if (subset_no > 0)
            ob.raw_append("+\\r\\r\\n", 4);''','''        if (subset_no > 0 && current_subset.size() > 0)
            ob.raw_append("+\\r\\r\\n", 4);''')],
H+'''int main(){ auto b=mk({}); b->obtain_subset(0); b->obtain_subset(1); b->obtain_subset(2); std::string s=b->encode(); CHECK(s=="CREX++\\r\\r\\nT000103 A000++\\r\\r\\n+\\r\\r\\n+\\r\\r\\n++\\r\\r\\n7777\\r\\r\\n"); return 0; }''',
'subsets without variables','the separators between them are lost')
mkbug('c15-pad','C15',[(B,'raw_appendf("%-*.*s", len, len, var.enqc());','raw_appendf("%-*.*s", len, len < 100 ? len : 100, var.enqc());')],
H+'''#include <wreport/buffers/crex.h>
int main(){ _Varinfo i; i.set_string(WR_VAR(0,1,1),"test",120); Var v(&i); std::string t(110,'a'); v.setc(t.c_str()); std::string s; buffers::CrexOutput o(s); o.append_var(&i,v); CHECK(s==" "+t+std::string(10,' ')); return 0; }''',
'a text of more than 100 characters','the end of the text is lost')
mkbug('c15-subcat','C15',[(C,'if (in.data_subcategory == 0xff)','if (in.data_subcategory == 0xff || in.data_subcategory == 0)')],
H+'''int main(){ auto b=mk({WR_VAR(0,1,1)}); b->data_subcategory=0; b->obtain_subset(0).store_variable_i(WR_VAR(0,1,1),7); std::string s=b->encode(); CHECK(s=="CREX++\\r\\r\\nT000103 A000000 B01001++\\r\\r\\n 07++\\r\\r\\n7777\\r\\r\\n"); return 0; }''',
'a bulletin with subcategory 0','the subcategory is lost: decoded again it is 255')
