import sys; sys.path.insert(0,__file__.rsplit('/',2)[0])
from mkbug import mkbug
H='''#include <wreport/bulletin.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/opcodes.h>
#include <wreport/var.h>
#include <wreport/error.h>
#include <cstdio>
using namespace wreport;
#define CHECK(x) do{ if(!(x)){ printf("FAILED: %s\\n",#x); return 1; } }while(0)
static std::unique_ptr<BufrBulletin> bul(){ auto b=BufrBulletin::create(); b->edition_number=4; b->master_table_version_number=23; b->load_tables(); return b; }
'''
mkbug('c12-digits','C12',[('wreport/vartable.cc','case 24: return  8; // 16777216','case 24: return  7; // 16777216')],
H+'''int main(){ auto b=bul(); Varinfo i=b->tables.btable->query_altered(WR_VAR(0,12,101),0,24,0); CHECK(i->len==8); Var v(i); v.seti(15000000); CHECK(v.enqi()==15000000); return 0; }''',
'an alteration to a width of 24 bits','the domain of the altered entry is too small for the values that its width can hold')
mkbug('c12-dlast','C12',[('wreport/dtable.cc','begin = -1, end = static_cast<int>(entries.size());','begin = -1, end = static_cast<int>(entries.size()) - (entries.size() > 512 ? 1 : 0);')],
H+'''int main(){ auto b=bul(); Opcodes o=b->tables.dtable->query(WR_VAR(3,40,11)); CHECK(o.size()>0); return 0; }''',
'expanding the last entry of a large D table','the last entry of a table of more than 512 entries is not found')
mkbug('c12-alt-type','C12',[('wreport/vartable.cc','if (!varinfo.scale) varinfo.type = Vartype::Integer;','if (!varinfo.scale && new_bit_ref == 0) varinfo.type = Vartype::Integer;')],
H+'''int main(){ auto b=bul(); Varinfo i=b->tables.btable->query_altered(WR_VAR(0,12,101),0,16,-5); CHECK(i->type==Vartype::Integer); return 0; }''',
'an alteration that removes the scale of an entry and gives it a reference value','the altered entry is still decimal')
mkbug('c12-alt-shared','C12',[('wreport/vartable.cc','if (varinfo.scale == new_scale && varinfo.bit_len == new_bit_len && varinfo.bit_ref == new_bit_ref)','if (varinfo.scale == new_scale && varinfo.bit_len == new_bit_len && (varinfo.bit_ref == new_bit_ref || varinfo.bit_ref + new_bit_ref == 0))')],
H+'''int main(){ auto b=bul(); Varinfo i=b->tables.btable->query_altered(WR_VAR(0,12,101),2,20,-500); Varinfo k=b->tables.btable->query_altered(WR_VAR(0,12,101),2,20,500); CHECK(i->bit_ref==-500); CHECK(k->bit_ref==500); return 0; }''',
'two alterations of the same entry with opposite reference values','the first alteration is given again for the second request')
