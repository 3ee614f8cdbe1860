import sys; sys.path.insert(0,__file__.rsplit('/',2)[0])
from mkbug import mkbug
H='''#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/error.h>
#include <cstring>
#include <cstdio>
using namespace wreport;
#define CHECK(x) do{ if(!(x)){ printf("FAILED: %s\\n",#x); return 1; } }while(0)
static std::string B;
static void put(unsigned v,unsigned n){ for(int k=n-1;k>=0;--k)B+=(v>>k&1)?'1':'0'; }
static void text(const char* s,unsigned n){ for(unsigned i=0;i<n;++i)put(s?(i<strlen(s)?s[i]:' '):255,8); }
static std::string msg(std::vector<Varcode> dd,unsigned ns,bool comp){ while(B.size()%16)B+='0'; std::string d; for(size_t i=0;i<B.size();i+=8)d+=(char)strtoul(B.substr(i,8).c_str(),0,2); B="";
 auto n3=[](size_t n){return std::string{(char)(n>>16),(char)(n>>8),(char)n};};auto n2=[](unsigned n){return std::string{(char)(n>>8),(char)n};};
 std::string s1=n3(22)+std::string(10,'\\0')+std::string(1,(char)23)+std::string(1,'\\0')+n2(2020)+"\\x01\\x01\\x01\\x01\\x01";
 std::string s3=n3(8+2*dd.size())+std::string(1,'\\0')+n2(ns)+std::string(1,(char)(comp?0xc0:0x80));for(auto c:dd)s3+=n2(c);s3+='\\0';std::string s4=n3(d.size()+4)+std::string(1,'\\0')+d;
 return "BUFR"+n3(8+s1.size()+s3.size()+s4.size()+4)+std::string(1,(char)4)+s1+s3+s4+"7777"; }
#define T WR_VAR(0,12,101)
'''
mkbug('c11-sig2','C11',[('wreport/bulletin/associated_fields.cc','''            return var.enqa(WR_VAR(0, 33, 3));''','''            return var.enqa(WR_VAR(0, 33, 2));''')],
H+'''int main(){ put(2,6); put(1,2); put(28000,16); std::string m=msg({WR_VAR(2,4,2),WR_VAR(0,31,21),T,WR_VAR(2,4,0)},1,false); auto b=BufrBulletin::decode(m); CHECK(b->subset(0)[1].enqa(WR_VAR(0,33,3))->enqi()==1); CHECK(b->encode()==m); return 0; }''',
'encoding an associated field with significance 2','the attribute is looked up with the wrong code and the associated field is encoded as missing')
mkbug('c11-short-bitmap','C11',[('wreport/bufr_encoder.cc',"ob.add_bits(var.enqc()[i] == '+' ? 0 : 1, 1);","ob.add_bits(var.enqc()[i] == '-' ? 1 : 0, 1);")],
H+'''int main(){ auto b=BufrBulletin::create(); b->edition_number=4; b->master_table_version_number=23; b->load_tables(); Subset& s=b->obtain_subset(0); b->datadesc={T,T,WR_VAR(2,22,0),WR_VAR(1,1,2),WR_VAR(0,31,31),WR_VAR(0,33,7)}; s.store_variable_d(T,280.0); s.store_variable_d(T,281.0); s[0].seta(Var(b->tables.btable->query(WR_VAR(0,33,7)),50)); s.append_fixed_dpb(WR_VAR(2,22,0),2); s.back().setc("+");
 auto d=BufrBulletin::decode(b->encode()); CHECK(d->subset(0)[2].enqs()=="+-"); CHECK(d->subset(0)[0].enqa(WR_VAR(0,33,7))); return 0; }''',
'a bitmap variable whose text is shorter than the bitmap','entries that are not there are encoded as present')
mkbug('c11-text-carry','C11',[('wreport/bufr/input.cc','''    if (diffbits == 0)
    {
        if (!missing)
            dest.setc(str);
    } else {''','''    if (diffbits == 0 || missing)
    {
        if (!missing)
            dest.setc(str);
    } else {''')],
H+'''#include <wreport/bufr/input.h>
int main(){ auto b=BufrBulletin::create(); b->edition_number=4; b->master_table_version_number=23; b->load_tables(); Varinfo i=b->tables.btable->query(WR_VAR(0,1,6)); text(0,8); put(8,6); text("abcdefg",8); text("abcdefg",8); text("xx",2); while(B.size()%8)B+='0'; std::string d; for(size_t k=0;k<B.size();k+=8)d+=(char)strtoul(B.substr(k,8).c_str(),0,2);
 bufr::Input in(d); in.s4_cursor=0; in.pbyte_len=0; Var v(i); in.decode_string(v,2); CHECK(v.isset() && v.enqs()=="abcdefg"); return 0; }''',
'a text shared by the subsets of compressed data, with a base that is all ones and differences','the text is missing, and what follows is decoded from the wrong bits')
mkbug('c11-refval','C11',[('wreport/bufr/decoder.cc','''    if (res & (1 << (bits - 1)))
        return -(res & ~sign_bit);''','''    if ((res & sign_bit) && res != sign_bit)
        return -(res & ~sign_bit);''')],
H+'''int main(){ put(0x80,8); put(100,16); auto b=BufrBulletin::decode(msg({WR_VAR(2,3,8),T,WR_VAR(2,3,255),T,WR_VAR(2,3,0)},1,false)); CHECK(b->subset(0)[0].enqd()==1.0); return 0; }''',
'a changed reference value of minus zero','the reference value is wrong, and with it all the values that follow')
mkbug('c11-af-wide','C11',[('wreport/bufr_encoder.cc','''            ob.append_missing(associated_field.bit_count);''','''            ob.append_missing(associated_field.bit_count > 8 ? 8 : associated_field.bit_count);''')],
H+'''int main(){ put(1,6); put(0x3ff,10); put(28000,16); std::string m=msg({WR_VAR(2,4,10),WR_VAR(0,31,21),T,WR_VAR(2,4,0)},1,false); auto b=BufrBulletin::decode(m); CHECK(b->encode()==m); return 0; }''',
'a missing associated field wider than 8 bits','the associated field is encoded with the wrong width, and what follows is misplaced')
