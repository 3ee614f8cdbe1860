#include "h.h"
using namespace wreport; using buffers::BufrOutput;
static _Varinfo tinfo(int type,unsigned len,unsigned bl){_Varinfo i;memset((void*)&i,0,sizeof(i));i.code=WR_VAR(0,1,19);i.type=(Vartype)type;strcpy(i.desc,"TEST");strcpy(i.unit,type==2?"CCITT IA5":"BINARY");i.len=len;i.bit_len=bl;return i;}
static unsigned L8(unsigned bl){return (bl+7)/8;}
static void prefill(Var&v,unsigned n){v.setc(std::string(n,'#').c_str());}
// text
static int t_text(const std::string&how,int alloc,unsigned len,std::string t){
    if(len<1||len>5000)return 2;t=t.substr(0,t.find('\0'));_Varinfo i=tinfo(2,len,len*8);Var v(&i);if(alloc){prefill(v,len);if(alloc>1)v.unset();}
    // the argument sits in a buffer with no slack
    std::unique_ptr<char[]> p(new char[t.size()+1]);memcpy(p.get(),t.c_str(),t.size()+1);
    std::string e=outcome([&]{if(how=="setc")v.setc(p.get());else if(how=="sets")v.sets(t);else if(how=="setc_truncate")v.setc_truncate(p.get());else if(how=="setval"){_Varinfo j=tinfo(2,std::max<size_t>(1,t.size()),8*std::max<size_t>(1,t.size()));Var s(&j);s.setc(p.get());v.setval(s);}else v.setf(p.get());});
    if(e!="")return bad("%s of %zu characters on a text variable of %u: %s",how.c_str(),t.size(),len,e.c_str());
    if(how=="setf"&&t.empty())return v.isset()?bad("setf(\"\") sets"):0;
    std::string w=t.substr(0,len);
    if(!v.isset()||v.enqc()!=w||v.enqs()!=w||v.format()!=w)return bad("%s of %zu characters on a text variable of %u gives '%s' instead of '%s'",how.c_str(),t.size(),len,v.isset()?v.enqc():"(unset)",w.c_str());
    return 0;}
static int t_opaque(const std::string&how,int alloc,unsigned bl,std::string t){
    if(bl<1||bl>20000)return 2;unsigned n=L8(bl);_Varinfo i=tinfo(3,n,bl);if(how=="setc"&&t.size()<n)t.resize(n,'\xa5');Var v(&i);if(alloc){std::string f(n,'\xff');v.setc(f.c_str());if(alloc>1)v.unset();}
    std::unique_ptr<char[]> p(new char[t.size()+1]);memcpy(p.get(),t.data(),t.size());
    std::string e=outcome([&]{if(how=="setc"){std::unique_ptr<char[]> q(new char[n]);memcpy(q.get(),t.data(),n);v.setc(q.get());}else v.sets(t);});
    std::string w=t.substr(0,n);w.resize(n,0);if(bl%8&&t.size()>=n)w[n-1]=(unsigned char)w[n-1]&((1<<(bl%8))-1);
    if(e!=""||!v.isset()||v.enqs()!=w)return bad("%s of %zu bytes on an opaque variable of %u bits gives %s instead of %s %s",how.c_str(),t.size(),bl,v.isset()?hex(v.enqs()).c_str():"unset",hex(w).c_str(),e.c_str());
    return 0;}
static int t_num(int n,int type){_Varinfo i=tinfo(type,10,32);i.imin=INT32_MIN;i.imax=INT32_MAX;i.scale=type?2:0;Var v(&i);v.m_isset=true;v.m_value.i=n;std::string w=std::to_string(n);
    if(v.enqc()!=w||v.enqs()!=w)return bad("text of %d: enqc '%s' enqs '%s'",n,v.enqc(),v.enqs().c_str());
    if(n%64)return 0;v.m_isset=false;if(outcome([&]{v.enqc();})!="error_notfound"||outcome([&]{v.enqs();})!="error_notfound")return bad("unset variable read as text");return 0;}
static std::string shifted(const std::string&m,unsigned sh){std::string o;BufrOutput b(o);b.add_bits(0x55,sh);for(unsigned char c:m)b.add_bits(c,8);b.flush();return o;}
static int t_dectext(unsigned bl,unsigned left,const std::string&s,unsigned sh=3){
    if(bl%8||bl<8||s.size()*8<bl||left>bl)return 2;unsigned n=bl/8;
    std::string m=shifted(s.substr(0,left/8),sh);if(left<bl)m=shifted(s.substr(0,left/8),0),sh=0;
    bufr::Input in(m);in.fname="x";in.get_bits(sh);std::unique_ptr<char[]> b(new char[n+2]);memset(b.get(),'~',n+2);size_t len=999;bool r=false;
    std::string e=outcome([&]{r=in.decode_string(bl,b.get(),len);});
    if(left<bl)return e=="error_parse"?0:bad("decode_string past the end: '%s'",e.c_str());
    bool gone=true;for(unsigned i=0;i<n;++i)if((unsigned char)s[i]!=0&&(unsigned char)s[i]!=255)gone=false;
    if(e!=""||r==gone)return bad("decode_string of %s: missing=%d expected %d %s",hex(s.substr(0,n)).c_str(),!r,gone,e.c_str());
    if(8u*in.s4_cursor-in.pbyte_len!=sh+bl)return bad("decode_string read %u bits of %u",8u*in.s4_cursor-in.pbyte_len-sh,bl);
    std::string w=s.substr(0,n);while(w.size()>1){unsigned char c=w.back();if(c==0||c==32||(c>=9&&c<=13))w.pop_back();else break;}
    if(r&&(len!=w.size()||std::string(b.get(),len)!=w||b[len]!=0))return bad("decode_string of %s gives %s length %zu",hex(s.substr(0,n)).c_str(),hex(std::string(b.get(),std::min<size_t>(len,n))).c_str(),len);
    _Varinfo i=tinfo(2,n,bl);Var v(&i);bufr::Input in2(m);in2.fname="x";in2.get_bits(sh);e=outcome([&]{in2.decode_string(v);});
    if(e!=""||v.isset()==gone||(!gone&&strcmp(v.enqc(),w.c_str())))return bad("decode_string(Var) of %s gives %s",hex(s.substr(0,n)).c_str(),v.isset()?v.enqc():"unset");
    // and back
    if(v.isset()){std::string o;BufrOutput bo(o);bo.append_var(&i,v);bo.flush();std::string x=v.enqc();x.resize(n,' ');if(o!=x)return bad("append_var of text '%s' writes %s",v.enqc(),hex(o).c_str());}
    return 0;}
static int t_decopaque(unsigned bl,unsigned left,const std::string&s,unsigned sh=5){
    if(bl<1||s.size()*8<bl+8||left>bl)return 2;unsigned n=L8(bl);_Varinfo i=tinfo(3,n,bl);Var v(&i);
    if(left<bl){std::string m=s.substr(0,left/8);bufr::Input in(m);in.fname="x";return outcome([&]{in.decode_binary(v);})=="error_parse"?0:bad("decode_binary past the end");}
    std::string m=shifted(s,sh);bufr::Input in(m);in.fname="x";in.get_bits(sh);std::string e=outcome([&]{in.decode_binary(v);});
    std::string w=s.substr(0,n);if(bl%8)w[n-1]=(unsigned char)w[n-1]>>(8-bl%8);
    bool gone=true;for(unsigned k=0;k<bl;++k)if(!(((unsigned char)s[k/8]>>(7-k%8))&1))gone=false;
    if(e!=""||v.isset()==gone||8u*in.s4_cursor-in.pbyte_len!=sh+bl)return bad("decode_binary of %u bits of %s: set=%d %s",bl,hex(s.substr(0,n)).c_str(),v.isset(),e.c_str());
    if(!gone&&v.enqs()!=w)return bad("decode_binary of %u bits of %s gives %s",bl,hex(s.substr(0,n)).c_str(),hex(v.enqs()).c_str());
    std::string o;BufrOutput b(o);b.append_var(&i,v);unsigned nb=o.size()*8+b.pbyte_len;b.flush();if(nb!=bl)return bad("append_var of opaque wrote %u bits of %u",nb,bl);
    for(unsigned k=0;k<bl;++k)if((((unsigned char)o[k/8]>>(7-k%8))&1)!=(((unsigned char)s[k/8]>>(7-k%8))&1))return bad("opaque %u bits %s written back as %s",bl,hex(s.substr(0,n)).c_str(),hex(o).c_str());
    return 0;}
CMD(set_text){return t_text(a[0],U(a[1]),U(a[2]),unhex(a[3]));}
CMD(set_binary){return t_opaque(a[0],U(a[1]),U(a[2]),unhex(a[3]));}
CMD(enq_text){return t_num((int)U(a[0]),0);}
CMD(decode_text){return t_dectext(U(a[0]),U(a[1]),unhex(a[2]));}
CMD(decode_opaque){return t_decopaque(U(a[0]),U(a[1]),unhex(a[2]));}
static std::string rs(std::mt19937&R,unsigned n){std::string s(n,0);int k=R()%7;for(auto&c:s)switch(k){case 0:c=R();break;case 1:c=1+R()%255;break;case 2:c='a'+R()%26;break;case 3:c=R()%2?0:-1;break;case 4:c=-1;break;case 5:c=R()%3?' ':(char)(R()%14);break;default:c=R()%5?'A'+R()%20:" \t\r\n"[R()%4];}
    if(R()%3==0)for(unsigned j=R()%(n+1);j<n;++j)s[j]=" \0\t\r\xff"[R()%3?0:R()%5];return s;}
SEARCH(text){static const char*hs[]={"setc","sets","setc_truncate","setf","setval"};
    for(int q=0;q<150000;++q){int r=0;unsigned len=1+R()%(R()%10?24:300);
    switch(R()%4){case 0:r=t_text(hs[R()%5],R()%3,len,rs(R,R()%3?R()%(len+3):len+R()%40));break;
    case 1:{unsigned bl=1+R()%(8*len);r=t_opaque(R()%2?"setc":"sets",R()%3,bl,rs(R,R()%(len+5)));break;}
    case 2:{unsigned bl=8*len;r=t_dectext(bl,R()%8?bl:R()%bl,rs(R,len),R()%8);break;}
    default:{unsigned bl=1+R()%(8*len);r=t_decopaque(bl,R()%8?bl:R()%bl,rs(R,len+2),R()%8);}}
    if(r==1)return 1;}return 0;}
SEARCH(numtext){for(int q=0;q<3000000;++q){int n=(int)R();switch(R()%4){case 0:n>>=R()%32;break;case 1:{long long p=1;for(unsigned k=R()%10;k;--k)p*=10;n=(int)(p*(R()%2?1:-1)+(int)(R()%3)-1);break;}case 2:n=R()%2?INT32_MIN+(int)(R()%3):INT32_MAX-(int)(R()%3);}
    int r=t_num(n,R()%2);if(r==1)return 1;}return 0;}
