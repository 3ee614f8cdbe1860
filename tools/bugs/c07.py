import sys; sys.path.insert(0,__file__.rsplit('/',2)[0])
from mkbug import mkbug
H='''#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/error.h>
#include <cstring>
#include <cstdio>
using namespace wreport;
#define CHECK(x) do{ if(!(x)){ printf("FAILED: %s\\n",#x); return 1; } }while(0)
static std::string sec(std::string s){ s[0]=s.size()>>16; s[1]=s.size()>>8; s[2]=s.size(); return s; }
// a BUFR message of the given edition with one subset of one B12101 and the given optional section
static std::string msg(int ed,const std::string&opt="",bool has=false,const std::string&dd=std::string("\\x0c\\x65\\0",3)){
    std::string s1(ed==4?22:18,0); s1[ed==4?9:7]=has?0x80:0; if(ed==4){s1[13]=24;s1[15]=7;s1[16]=0xe2;s1[17]=3;s1[18]=4;s1[19]=5;s1[20]=6;s1[21]=7;}else{s1[10]=14;s1[12]=18;s1[13]=3;s1[14]=4;s1[15]=5;s1[16]=6;}
    std::string s3(7,0); s3[5]=1; s3[6]=(char)0x80; s3+=dd;
    std::string m="BUFR"; m.append(3,0); m+=(char)ed; m+=sec(s1); if(has)m+=sec(std::string(4,0)+opt); m+=sec(s3); m+=sec(std::string(4,0)+std::string("\\x12\\x34",2)); m+="7777"; return m; }
'''
mkbug('c07-opt-local','C07',[('wreport/bufr/decoder.cc','''        if (s2_length < 4)
            error_consistency::throwf("Optional section length is %u but it must be at least 4", s2_length);
        out.optional_section = std::string((const char*)in.data + in.sec[2] + 4, s2_length - 4);''','''        if (s2_length < 4)
            error_consistency::throwf("Optional section length is %u but it must be at least 4", s2_length);
        out.optional_section = std::string((const char*)in.data + in.sec[2] + 4, (s2_length - 4) & ~1);''')],
H+'''int main(){ for(int ed=2;ed<=4;++ed){ auto b=BufrBulletin::decode(msg(ed,"abc",true)); CHECK(b->optional_section=="abc"); b=BufrBulletin::decode(msg(ed,"abcd",true)); CHECK(b->optional_section=="abcd"); } return 0; }''',
'an optional section with an odd number of bytes','the last byte of an odd sized optional section is lost')
mkbug('c07-flag-bits','C07',[('wreport/bufr/decoder.cc','    out.compression = (in.read_byte(3, 6) & 0x40) ? 1 : 0;','    out.compression = (in.read_byte(3, 6) & 0xf0) == 0xc0 || in.read_byte(3, 6) == 0x40 ? 1 : 0;')],
H+'''int main(){ std::string m=msg(4); m[8+22+6]=(char)0xc0; CHECK(BufrBulletin::decode_header(m)->compression); m[8+22+6]=(char)0xe0; CHECK(BufrBulletin::decode_header(m)->compression); m[8+22+6]=(char)0x41; CHECK(BufrBulletin::decode_header(m)->compression); m[8+22+6]=(char)0x80; CHECK(!BufrBulletin::decode_header(m)->compression); return 0; }''',
'a compressed message with reserved bits set in the flags of section 3','the message is decoded as uncompressed')
mkbug('c07-end-section','C07',[('wreport/bufr/decoder.cc','    if (memcmp(in.data + in.sec[5], "7777", 4) != 0)','    if (memcmp(in.data + in.sec[5], "7777", in.data_len - in.sec[5] < 8 ? 4 : 3) != 0)')],
H+'''int main(){ std::string m=msg(4); BufrBulletin::decode(m); m[m.size()-1]='8'; bool ok=false; try{ BufrBulletin::decode(m); }catch(error&){ ok=true; } CHECK(ok); ok=false; try{ BufrBulletin::decode(m+"trailing"); }catch(error&){ ok=true; } CHECK(ok); BufrBulletin::decode(msg(4)+"trailing"); return 0; }''',
'a message with a damaged end section followed by other data','a message that does not end in 7777 is accepted')
mkbug('c07-section-check','C07',[('wreport/bufr/input.cc','    if (sec[sec_no] + 3 > data_len)','    if (sec_no != 4 && sec[sec_no] + 3 > data_len)')],
H+'''int main(){ std::string m=msg(4); m.resize(8+22+10); m.shrink_to_fit(); char*p=new char[m.size()]; memcpy(p,m.data(),m.size()); std::string e; try{ BufrBulletin::decode_header(m); e="accepted"; }catch(error_parse&x){ e=x.what(); }catch(error&x){ e="other"; } CHECK(e.find("too short")!=std::string::npos); BufrBulletin::decode_header(msg(4)); return 0; }''',
'a message truncated at the end of section 3','the length of section 4 is read from outside a truncated message')
