import sys; sys.path.insert(0,__file__.rsplit('/',2)[0])
from mkbug import mkbug
H='''#include <wreport/var.h>
#include <wreport/varinfo.h>
#include <wreport/error.h>
#include <wreport/buffers/bufr.h>
#include <wreport/bufr/input.h>
#include <cstring>
#include <cstdio>
#include <climits>
using namespace wreport;
#define CHECK(x) do{ if(!(x)){ printf("FAILED: %s\\n",#x); return 1; } }while(0)
'''
mkbug('c04-blank-missing','C04',[('wreport/bufr/input.cc','if (bitval != 0xff && bitval != 0)','if (bitval != 0xff && bitval > \' \')')],
H+'''int main(){ std::string m="    "; bufr::Input in(m); char b[8]; size_t len; bool r=in.decode_string(32,b,len); CHECK(r); CHECK(len==1); CHECK(!strcmp(b," "));
 std::string m2="\\001\\002  "; bufr::Input in2(m2); CHECK(in2.decode_string(32,b,len)); CHECK(len==2); return 0; }''',
'a text field made only of blanks or control characters','text that is present is decoded as missing')
mkbug('c04-setc-pad','C04',[('wreport/var.cc','''        strncpy(m_value.c, val, size);
        m_value.c[size] = 0;''','''        memcpy(m_value.c, val, size);
        m_value.c[size] = 0;''')],
H+'''int main(){ _Varinfo i; memset(&i,0,sizeof i); i.set_bufr(WR_VAR(0,1,19),"T","CCITT IA5",0,20,0,160);
 Var v(&i); std::string s("ab\\0cd",5); v.sets(s); std::string o; buffers::BufrOutput b(o); b.append_var(&i,v);
 CHECK(v.enqs()=="ab"); CHECK(i.len==20); 
 // bytes after the terminator must not leak into the stored value
 char c[20]; memcpy(c,v.enqc(),6); CHECK(memcmp(c,"ab\\0\\0\\0\\0",6)==0); return 0; }''',
'setting a text variable from a std::string that contains a NUL','x')
mkbug('c04-int-min','C04',[('wreport/var.cc','''    unsigned digits = count_digits(dec);
    if (digits > size)''','''    unsigned digits = count_digits(val < 0 ? dec - 1 : dec);
    if (digits > size)''')],
H+'''int main(){ _Varinfo i; memset(&i,0,sizeof i); i.set_bufr(WR_VAR(0,1,19),"T","NUMERIC",0,9,-2147483647,32); Var v(&i);
 v.seti(-1000); CHECK(!strcmp(v.enqc(),"-1000")); v.seti(-10); CHECK(!strcmp(v.enqc(),"-10")); v.seti(-99); CHECK(!strcmp(v.enqc(),"-99")); return 0; }''',
'a negative power of ten read as text','the text of the number loses a digit')
mkbug('c04-opaque-mask','C04',[('wreport/var.cc','''        memcpy(m_value.c, val, m_info->len);
        if (m_info->bit_len % 8)
            m_value.c[m_info->len - 1] &=''','''        memcpy(m_value.c, val, m_info->len);
        if (m_info->bit_len % 8 > 1)
            m_value.c[m_info->len - 1] &=''')],
H+'''int main(){ _Varinfo i; memset(&i,0,sizeof i); i.set_bufr(WR_VAR(0,205,1),"T","CCITT IA5",0,2,0,16); i.type=Vartype::Binary; i.bit_len=9; i.len=2;
 Var v(&i); v.setc("\\x55\\xf1"); CHECK((unsigned char)v.enqc()[1]==1); v.setc("\\x55\\xf0"); CHECK((unsigned char)v.enqc()[1]==0); return 0; }''',
'an opaque variable whose width is one bit more than whole bytes','bits outside the field are kept in the stored value')
