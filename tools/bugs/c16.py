import sys; sys.path.insert(0,__file__.rsplit('/',2)[0])
from mkbug import mkbug
H='''#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <wreport/bulletin.h>
#include <wreport/error.h>
#include <cstdio>
#include <string>
using namespace wreport;
#define CHECK(x) do{ if(!(x)){ printf("FAILED: %s\\n",#x); return 1; } }while(0)
static FILE* file(std::string& s){ return fmemopen(&s[0],s.size(),"r"); }
static std::string msg(unsigned n){ std::string r="BUFR"; r+=(char)(n>>16); r+=(char)(n>>8); r+=(char)n; r+=(char)4; while(r.size()<n) r+=(char)r.size(); return r; }
'''
B='wreport/bulletin.cc'
mkbug('c16-long','C16',[(B,'int bufrlen = ntohl(hl_length) >> 8;','uint16_t bufrlen = ntohl(hl_length) >> 8;')],
H+'''int main(){ std::string m=msg(65536+40), s="x"+m+msg(20), b; FILE* f=file(s); off_t o=0; CHECK(BufrBulletin::read(f,b,nullptr,&o)); CHECK(o==1); CHECK(b==m); CHECK(BufrBulletin::read(f,b,nullptr,&o)); CHECK(b==msg(20)); return 0; }''',
'a BUFR message of 65536 bytes or more','only its first bytes are read')
mkbug('c16-short','C16',[(B,'    if (bufrlen < 12)\n','    if (bufrlen < 8)\n')],
H+'''int main(){ std::string s=msg(10)+msg(20), b; FILE* f=file(s); try { BufrBulletin::read(f,b); } catch (error_consistency&) { return 0; } printf("FAILED: read\\n"); return 1; }''',
'a message that says it is 9, 10 or 11 bytes long','it is given as a message')
mkbug('c16-offset','C16',[(B,'if (offset) *offset = ftello(fd) - 6;','if (offset && !*offset) *offset = ftello(fd) - 6;')],
H+'''int main(){ std::string m="CREX++\\r\\r\\nT++\\r\\r\\n7777\\r\\r\\n", s=" "+m+m, b; FILE* f=file(s); off_t o=0; CHECK(CrexBulletin::read(f,b,nullptr,&o)); CHECK(o==1); CHECK(CrexBulletin::read(f,b,nullptr,&o)); CHECK(o==(off_t)m.size()+1); return 0; }''',
'a second CREX message read with the same offset variable','its offset is that of the first')
mkbug('c16-newline','C16',[(B,'''if (target[got] == '\\r' && (c == '\\n' || c == '\\r'))''','''if (target[got] == '\\r' && c == '\\r')''')],
H+'''int main(){ std::string m="CREX++\\nT++\\n7777", s=m+"\\n"+m, b; FILE* f=file(s); CHECK(CrexBulletin::read(f,b)); CHECK(b==m); CHECK(CrexBulletin::read(f,b)); CHECK(b==m); return 0; }''',
'a CREX message whose lines end with LF only','its end is not found')
mkbug('c16-write','C16',[(B,'''void BufrBulletin::write(const std::string& buf, FILE* out, const char* fname)
{
    if (fwrite(buf.data(), buf.size(), 1, out) != 1)''','''void BufrBulletin::write(const std::string& buf, FILE* out, const char* fname)
{
    if (fwrite(buf.data(), 1, buf.size(), out) == 0)''')],
H+'''int main(){ std::string d(30,0), m=msg(100); FILE* f=fmemopen(&d[0],d.size(),"w"); setvbuf(f,nullptr,_IONBF,0); try { BufrBulletin::write(m,f); } catch (error_system&) { return 0; } printf("FAILED: written\\n"); return 1; }''',
'a device that becomes full in the middle of a message','the truncated message is reported as written')
