#include "h.h"
#include <wreport/bulletin.h>
#include <cerrno>
#include <cstring>
using namespace wreport;
namespace {
std::string vis(const std::string&s){std::string r;char b[8];for(unsigned char c:s)if(c>=32&&c<127&&c!='\\')r+=c;else{snprintf(b,8,"\\x%02x",c);r+=b;}return r.size()>300?r.substr(0,300)+"...":r;}
struct Src{std::string d;size_t pos,fail;bool werr;};
ssize_t rd(void*c,char*b,size_t n){auto s=(Src*)c;size_t lim=std::min(s->d.size(),s->fail);if(s->pos>=lim){if(s->fail<=s->pos&&s->fail!=(size_t)-1){errno=EIO;return -1;}return 0;}n=std::min(n,lim-s->pos);memcpy(b,s->d.data()+s->pos,n);s->pos+=n;return n;}
int sk(void*c,off64_t*o,int w){auto s=(Src*)c;off64_t p=w==SEEK_SET?*o:w==SEEK_CUR?(off64_t)s->pos+*o:(off64_t)s->d.size()+*o;if(p<0)return -1;s->pos=p;*o=p;return 0;}
ssize_t wt(void*c,const char*b,size_t n){auto s=(Src*)c;if(s->pos+n>s->fail){n=s->fail>s->pos?s->fail-s->pos:0;s->d.append(b,n);s->pos+=n;if(!n){errno=ENOSPC;s->werr=true;}return n;}s->d.append(b,n);s->pos+=n;return n;}
FILE*rfile(Src&s){cookie_io_functions_t f={rd,nullptr,sk,nullptr};return fopencookie(&s,"r",f);}
std::string junk(std::mt19937&R,const char*sig){std::string r;unsigned n=R()%6,m=strlen(sig);for(unsigned i=0;i<n;++i){if(R()%2)r+=std::string(sig,R()%m);else for(unsigned j=R()%5;j;--j)r+=(char)(R()%3?R():sig[R()%m]);}return r;}
std::string crexbody(std::mt19937&R){static const char*P[]={"+","++","+++","++\r\r\n","\r","\n","7","77","777","+\n","++\r\n777","++7777","++\r\n++\r\n","A"," ","B12101","++\n7777","++\r\r\n7777"};std::string r;unsigned n=R()%9;for(unsigned i=0;i<n;++i)r+=P[R()%18];return r;}
// where a CREX message that starts at p ends; npos if it does not
size_t crexend(const std::string&d,size_t p){size_t best=std::string::npos;for(size_t i=p+6;i+1<d.size();++i)if(d[i]=='+'&&d[i+1]=='+'){size_t j=i+2;while(j<d.size()&&(d[j]=='\r'||d[j]=='\n'))++j;if(j>i+2&&d.compare(j,4,"7777")==0)best=std::min(best,j+4);}return best;}
int reading(std::mt19937&R,bool crex){
    const char*sig=crex?"CREX++":"BUFR";size_t sl=strlen(sig);Src s;s.pos=0;s.fail=-1;s.werr=false;unsigned n=R()%4;
    for(unsigned i=0;i<n;++i){s.d+=junk(R,sig);s.d+=sig;
        if(crex){s.d+=crexbody(R);if(R()%8)s.d+=R()%2?"++\r\r\n7777":"+++\n7777";}
        else{unsigned len=R()%9==0?R()%12:R()%7==0?12+R()%3:R()%5==0?250+R()%70000:12+R()%40;s.d+=(char)(len>>16);s.d+=(char)(len>>8);s.d+=(char)len;s.d+=(char)(R()%5);if(len>8){std::string b;for(unsigned j=8;j<len;++j)b+=(char)R();if(b.size()>=4)b.replace(b.size()-4,4,"7777");if(R()%10==0)b.resize(b.size()-1-R()%std::min<size_t>(4,b.size()));s.d+=b;}}}
    s.d+=junk(R,sig);if(R()%6==0)s.fail=R()%(s.d.size()+1);
    bool named=R()%2,off=R()%3;FILE*f=rfile(s);struct C{FILE*f;~C(){fclose(f);}}cl{f};std::string buf="old data";size_t at=0;std::string what=" reading "+std::string(crex?"CREX":"BUFR")+" messages from "+vis(s.d);
    while(true){off_t o=-7;bool got=false;std::string e=outcome([&]{got=crex?CrexBulletin::read(f,buf,named?"name":nullptr,off?&o:nullptr):BufrBulletin::read(f,buf,named?"name":nullptr,off?&o:nullptr);});
        size_t p=s.d.find(sig,at);
        if(s.fail!=(size_t)-1){size_t end=p==std::string::npos?std::string::npos:crex?crexend(s.d,p):p+8<=s.d.size()?p+(((unsigned char)s.d[p+4]<<16)|((unsigned char)s.d[p+5]<<8)|(unsigned char)s.d[p+6]):std::string::npos;
            if(p==std::string::npos||end>s.fail||end>s.d.size()||end<p+12){ if(e.empty())return bad("%s is reported after a read error at %zu%s",got?"a message":"the end of the file",s.fail,what.c_str());return 0;}}
        if(p==std::string::npos){if(!e.empty())return bad("fails with %s at the end%s",e.c_str(),what.c_str());if(got)return bad("there is no message after offset %zu, but %s has been read%s",at,vis(buf).c_str(),what.c_str());return 0;}
        size_t end;
        if(crex){end=crexend(s.d,p);if(end==std::string::npos){if(e.find("error_parse")==std::string::npos)return bad("the message at %zu has no end, but %s%s",p,e.empty()?"it is read":e.c_str(),what.c_str());return 0;}}
        else{if(p+8>s.d.size()){if(e.empty())return bad("the message at %zu is truncated, but it is read%s",p,what.c_str());return 0;}
            size_t len=((unsigned char)s.d[p+4]<<16)|((unsigned char)s.d[p+5]<<8)|(unsigned char)s.d[p+6];end=p+len;
            if(len<12||end>s.d.size()){if(e.find("error_consistency")==std::string::npos)return bad("the message at %zu is not whole, but %s%s",p,e.empty()?"it is read":e.c_str(),what.c_str());return 0;}}
        if(!e.empty())return bad("the message at %zu is not read: %s%s",p,e.c_str(),what.c_str());
        if(!got)return bad("the message at %zu is not found%s",p,what.c_str());
        if(buf!=s.d.substr(p,end-p))return bad("the message at %zu is %s, but %s is read%s",p,vis(s.d.substr(p,end-p)).c_str(),vis(buf).c_str(),what.c_str());
        if(off&&o!=(off_t)p)return bad("the message at %zu is said to be at %ld%s",p,(long)o,what.c_str());
        if((size_t)ftello(f)!=end)return bad("reading the message at %zu to %zu leaves the file at %ld%s",p,end,(long)ftello(f),what.c_str());
        at=end;(void)sl;}
}
int writing(std::mt19937&R,bool crex){
    Src s;s.pos=0;s.fail=-1;s.werr=false;cookie_io_functions_t io={nullptr,wt,nullptr,nullptr};std::string m;unsigned n=1+R()%300;for(unsigned i=0;i<n;++i)m+=(char)(R()%4?R():0);std::string want=m+(crex?"\r\r\n":"");
    if(R()%3==0)s.fail=R()%(want.size()+1);
    FILE*f=fopencookie(&s,"w",io);bool unb=s.fail!=(size_t)-1;if(unb)setvbuf(f,nullptr,_IONBF,0);bool named=R()%2;
    std::string e=outcome([&]{if(crex)CrexBulletin::write(m,f,named?"name":nullptr);else BufrBulletin::write(m,f,named?"name":nullptr);});fclose(f);
    if(s.fail<want.size()){if(e.find("error_system")==std::string::npos)return bad("only %zu of %zu characters can be written, but %s",s.fail,want.size(),e.empty()?"writing succeeds":e.c_str());return 0;}
    if(!e.empty())return bad("writing fails with %s",e.c_str());
    if(s.d!=want)return bad("%s is written as %s",vis(want).c_str(),vis(s.d).c_str());
    return 0;}
}
SEARCH(framing){for(int i=0;i<30000;++i){int r=i%6<2?reading(R,false):i%6<5?reading(R,true):writing(R,i/6%2);if(r)return r;}return 0;}
