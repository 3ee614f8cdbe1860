#include "h.h"
#include <wreport/buffers/crex.h>
#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <signal.h>
#include <unistd.h>
#include <climits>
using namespace wreport;
namespace {
std::string now;
void hang(int){printf("MISMATCH decoding does not end: %s\n",now.c_str());fflush(stdout);_exit(1);}
struct Limit{Limit(const std::string&s){now=s;signal(SIGALRM,hang);alarm(5);}~Limit(){alarm(0);}};
bool blank(char c){return c==' '||(c>=9&&c<=13);}
std::string vis(const std::string&s){std::string r;char b[8];for(unsigned char c:s)if(c>=32&&c<127&&c!='\\')r+=c;else{snprintf(b,8,"\\x%02x",c);r+=b;}return r;}
std::string bl(std::mt19937&R){static const char*b[]={" "," ","  ","\r\r\n","\n","\t "," \r\n","\v\f"};return b[R()%8];}
struct El{unsigned code;unsigned len;bool text;};
const std::vector<El> EL={{WR_VAR(0,1,1),2,false},{WR_VAR(0,1,2),3,false},{WR_VAR(0,12,1),3,false},{WR_VAR(0,1,15),20,true},{WR_VAR(0,1,19),32,true},{WR_VAR(0,7,4),5,false},{WR_VAR(0,4,1),4,false},{WR_VAR(0,1,41),10,false}};
struct V{unsigned code;bool set;std::string s;bool text;};
struct Gen{std::mt19937&R;std::vector<unsigned> desc;std::string hdr,data,msg;std::vector<std::vector<V>> subs;bool chk=false;int dig=1;unsigned cat=0,sub=255;int mt=0,ed=1,ver=3;bool longcat=false;
    Gen(std::mt19937&R):R(R){}
    const El&el(unsigned c){for(auto&e:EL)if(e.code==c)return e;abort();}
    void field(const std::string&f){data+=bl(R);if(chk){data+=char('0'+dig);dig=(dig+1)%10;}data+=f;}
    void value(unsigned c,std::vector<V>&o){const El&e=el(c);V v{c,true,"",e.text};
        if(R()%5==0){v.set=false;field(std::string(e.len,'/'));o.push_back(v);return;}
        if(e.text){unsigned n=1+R()%e.len;for(unsigned i=0;i<n;++i)v.s+=(char)(i==0||i+1==n?'A'+R()%26:32+R()%90);if(v.s[0]=='/')v.s[0]='x';field(v.s+std::string(e.len-n,' '));}
        else{long m=1;for(unsigned i=0;i<e.len&&i<9;++i)m*=10;long x=R()%3==0?R()%20:R()%(m-1);if(R()%3==0)x=-x;if(e.len==10&&R()%2)x=(long)(int32_t)R();if(x==INT_MIN)x=7;char b[40];snprintf(b,40,"%0*ld",(int)e.len+(x<0),x);v.s=std::to_string(x);field(b);}
        o.push_back(v);}
    void count(unsigned n,unsigned code,std::vector<V>&o){char b[8];snprintf(b,8,"%04u",n);field(b);o.push_back(V{code,true,std::to_string(n),false});}
    void make(){
        chk=R()%2;longcat=R()%2;cat=R()%256;if(longcat)sub=R()%256;
        char b[40];hdr="CREX++"+bl(R)+"T000103"+bl(R);snprintf(b,40,longcat?"A%03u%03u":"A%03u",cat,sub);hdr+=b;
        unsigned n=1+R()%4;std::vector<int> kind;std::vector<std::vector<unsigned>> items;
        for(unsigned i=0;i<n;++i){int k=R()%3;std::vector<unsigned> g;unsigned m=k?1+R()%2:1;for(unsigned j=0;j<m;++j)g.push_back(EL[R()%EL.size()].code);
            kind.push_back(k);items.push_back(g);if(k==1)desc.push_back(WR_VAR(1,m,0));if(k==2)desc.push_back(WR_VAR(1,m,2));for(unsigned c:g)desc.push_back(c);}
        for(unsigned d:desc){snprintf(b,40,"%c%02u%03u","BRCD"[d>>14],(d>>8)&63,d&255);hdr+=bl(R)+b;}
        if(chk)hdr+=bl(R)+"E";
        if(R()%2)hdr+=bl(R);
        hdr+="++";
        unsigned ns=1+R()%3;
        for(unsigned s=0;s<ns;++s){std::vector<V> o;
            for(unsigned i=0;i<n;++i){unsigned times=1;if(kind[i]==1){times=R()%3;count(times,WR_VAR(0,31,12),o);}if(kind[i]==2)times=2;
                for(unsigned t=0;t<times;++t)for(unsigned c:items[i])value(c,o);}
            subs.push_back(o);data+="+";if(s+1<ns)data+=bl(R);}
        data+="+";msg=hdr+data+bl(R);
        if(R()%3==0)msg+=std::string("SUPP 12+3 4")+(R()%2?" ":"")+"++"+bl(R);
        msg+="7777"+bl(R);}
};
int check(const CrexBulletin&b,const Gen&g){
    const char*m=vis(g.msg).c_str();std::string ms=vis(g.msg);m=ms.c_str();
    if(b.master_table_number!=g.mt||b.edition_number!=g.ed||b.master_table_version_number!=g.ver)return bad("edition T%02d%02d%02d: %s",b.master_table_number,b.edition_number,b.master_table_version_number,m);
    if(b.data_category!=g.cat||b.data_subcategory!=g.sub||b.data_subcategory_local!=(g.longcat?255:0))return bad("category %d %d %d: %s",b.data_category,b.data_subcategory,b.data_subcategory_local,m);
    if(b.has_check_digit!=g.chk)return bad("check digits %d: %s",(int)b.has_check_digit,m);
    if(b.datadesc.size()!=g.desc.size())return bad("%zu descriptors: %s",b.datadesc.size(),m);
    for(size_t i=0;i<g.desc.size();++i)if(b.datadesc[i]!=g.desc[i])return bad("descriptor %zu is %s: %s",i,varcode_format(b.datadesc[i]).c_str(),m);
    return 0;}
int check_data(const CrexBulletin&b,const Gen&g){std::string ms=vis(g.msg);const char*m=ms.c_str();
    if(b.subsets.size()!=g.subs.size())return bad("%zu subsets instead of %zu: %s",b.subsets.size(),g.subs.size(),m);
    for(size_t s=0;s<g.subs.size();++s){auto&x=b.subsets[s];auto&y=g.subs[s];if(x.size()!=y.size())return bad("subset %zu has %zu values instead of %zu: %s",s,x.size(),y.size(),m);
        for(size_t i=0;i<y.size();++i){if(x[i].code()!=y[i].code)return bad("subset %zu value %zu is a %s: %s",s,i,varcode_format(x[i].code()).c_str(),m);
            if(x[i].isset()!=y[i].set)return bad("subset %zu value %zu %s set: %s",s,i,x[i].isset()?"is":"is not",m);
            if(!y[i].set)continue;
            std::string v=y[i].text?x[i].enqc():std::to_string(x[i].enqi());if(v!=y[i].s)return bad("subset %zu value %zu is '%s' instead of '%s': %s",s,i,v.c_str(),y[i].s.c_str(),m);}}
    return 0;}
int decode(std::mt19937&R){Gen g(R);g.make();Limit l(vis(g.msg));
    try{auto h=CrexBulletin::decode_header(g.msg,"file",42);if(int r=check(*h,g))return r;if(h->fname!="file"||h->offset!=42)return bad("file name or offset of the bulletin");
        auto b=R()%2?CrexBulletin::decode(g.msg):CrexBulletin::decode_verbose(g.msg,stderr);if(int r=check(*b,g))return r;return check_data(*b,g);}
    catch(std::exception&e){return bad("%s %s: %s",exc_name(e).c_str(),e.what(),vis(g.msg).c_str());}}
int broken(std::mt19937&R){Gen g(R);g.make();std::string s=g.msg;int k=R()%6;
    if(k==0)s.resize(R()%s.size());
    else if(k==1){unsigned n=1+R()%3;while(n--)s[R()%s.size()]=(char)R();}
    else if(k==2)s.erase(R()%s.size(),1+R()%4);
    else if(k==3)s.insert(R()%s.size(),1,"+/-EBRCD SUP79X"[R()%15]);
    else if(k==4)s=s.substr(0,g.hdr.size()-1-R()%10)+"X"+s.substr(g.hdr.size());
    else {size_t i=s.find("++",6);s.resize(i+R()%3);}
    s.shrink_to_fit();Limit l(vis(s));std::string o=outcome([&]{CrexBulletin::decode(s);});
    if(o.compare(0,4,"std:")==0)return bad("%s: %s",o.c_str(),vis(s).c_str());return 0;}
int refused(std::mt19937&R){
    // values that are not there: decoding must refuse them
    static const char*m[]={"CREX++\nT000103 A000 B01001++\n xy++\n7777\n","CREX++\nT000103 A000 B12001++\n 12x++\n7777\n","CREX++\nT000103 A000 B01041++\n 9999999999++\n7777\n","CREX++\nT000103 A000 B01041++\n -9999999999++\n7777\n","CREX++\nT000103 A000 R01000 B01001++\n //// 12++\n7777\n","CREX++\nT000103 A000 R01000 B01001++\n -0001 12++\n7777\n",
      "CREX++\nT000103 A000 B01001 E++\n 206++\n7777\n","CREX++\nT000103 A000 B01001 B01001 E++\n 106 106++\n7777\n","CREX++\nT000103 A000 B01001++\n 06+7777\n","CREX++\nT000103 A000 B01001++\n 06++\n777\n","CREX++\nT000103 A000 B01001++\n 06++\nSUPP 7777\n","CREX++\nT000103 A000 B01001+\n 06++\n7777\n","CREX+\nT000103 A000 B01001++\n 06++\n7777\n","CREX++\nT000103 A0000 B01001++\n 06++\n7777\n","CREX++\nT000103 A000 B0100++\n 06++\n7777\n","CREX++\nT0001 A000 B01001++\n 06++\n7777\n","CREX++\nT000103 A000 X B01001++\n 06++\n7777\n","CREX++\nT000103 A000 B01001 ","CREX++\nT000103 A000 B01001++\n 06++\nSUPP 12 +"};
    for(const char*x:m){std::string s(x);Limit l(vis(s));std::string o=outcome([&]{CrexBulletin::decode(s);});if(o.empty()||o.compare(0,4,"std:")==0)return bad("is not refused (%s): %s",o.c_str(),vis(s).c_str());
        if(o!="error_parse"&&o!="error_consistency")return bad("refused with %s: %s",o.c_str(),vis(s).c_str());}
    return 0;}
int input(std::mt19937&R){
    std::string s;unsigned n=R()%30;for(unsigned i=0;i<n;++i)s+=(char)("  \n\t-0123456789/abA+"[R()%20]);s.shrink_to_fit();
    buffers::CrexInput in(s,"x",0);if(in.cur!=in.data||in.data_len!=s.size()||in.has_check_digit)return bad("CrexInput constructor");
    size_t p=R()%(n+1);in.cur=in.data+p;auto nb=[&](size_t i){while(i<n&&blank(s[i]))++i;return i;};auto pos=[&]{return (size_t)(in.cur-in.data);};
    std::string w=vis(s)+" at "+std::to_string(p);
    if(in.eof()!=(p==n))return bad("eof %s",w.c_str());
    if(in.remaining()!=n-p)return bad("remaining %s",w.c_str());
    std::string o=outcome([&]{in.check_eof("x");});if(o!=(p==n?"error_parse":""))return bad("check_eof %s: %s",w.c_str(),o.c_str());
    unsigned k=R()%8;o=outcome([&]{in.check_available_data(k,"x");});if(o!=(p+k>n?"error_parse":""))return bad("check_available_data(%u) %s: %s",k,w.c_str(),o.c_str());
    unsigned q=R()%5;o=outcome([&]{in.mark_section_start(q);});if(o!=(p==n?"error_parse":"")||(o.empty()&&in.sec[q]!=p))return bad("mark_section_start %s",w.c_str());
    in.skip_spaces();if(pos()!=nb(p))return bad("skip_spaces %s goes to %zu",w.c_str(),pos());
    in.cur=in.data+p;if(p+k<=n){in.skip_data_and_spaces(k);if(pos()!=nb(p+k))return bad("skip_data_and_spaces(%u) %s goes to %zu",k,w.c_str(),pos());}
    in.cur=in.data+p;{unsigned z=1+R()%12;std::vector<char> b(z,1);in.read_word(b.data(),z);size_t e=p;while(e<n&&!blank(s[e])&&e-p<z-1)++e;if(std::string(b.data())!=s.substr(p,e-p)||pos()!=nb(e))return bad("read_word(%u) %s: '%s' goes to %zu",z,w.c_str(),b.data(),pos());}
    in.cur=in.data+p;{int len=R()%8,sg=R()%2;in.has_check_digit=R()%2;in.expected_check_digit=R()%3?(p<n?(s[p]-'0'):0):R()%10;if(in.expected_check_digit<0||in.expected_check_digit>9)in.expected_check_digit=9;int ex=in.expected_check_digit;
        const char*a=0,*e=0;o=outcome([&]{in.parse_value(len,sg,&a,&e);});bool badv=p+len+2>n||(in.has_check_digit&&s[p]!='0'+ex);if(o!=(badv?"error_parse":""))return bad("parse_value(%d,%d) %s: %s",len,sg,w.c_str(),o.c_str());
        if(!badv){size_t st=p+(in.has_check_digit?1:0),en=st+len+(sg&&s[st]=='-'),t=en;while(t>st&&blank(s[t-1]))--t;
            if(a!=in.data+st||e!=in.data+t||pos()!=nb(en))return bad("parse_value(%d,%d) %s: %zu to %zu, then %zu",len,sg,w.c_str(),(size_t)(a-in.data),(size_t)(e-in.data),pos());
            if(in.expected_check_digit!=(in.has_check_digit?(ex+1)%10:ex))return bad("parse_value expects check digit %d after %d",in.expected_check_digit,ex);}}
    return 0;}
}
SEARCH(crex){for(int i=0;i<1500;++i){int r;if((r=input(R)))return r;if(i%2==0&&(r=decode(R)))return r;if(i%2&&(r=broken(R)))return r;if(i==0&&(r=refused(R)))return r;}return 0;}
SEARCH(varcode){
    if(outcome([]{varcode_parse(0);})!="error_consistency")return bad("varcode_parse(NULL)");
    for(int f=0;f<4;++f)for(int x=0;x<64;++x)for(int y=0;y<256;++y){unsigned c=f<<14|x<<8|y;char b[10];snprintf(b,10,"%c%02d%03d","BRCD"[f],x,y);if(varcode_format(c)!=b)return bad("varcode_format(%u) is %s",c,varcode_format(c).c_str());
        if(varcode_parse(b)!=c)return bad("varcode_parse(%s) is %u",b,varcode_parse(b));b[0]='0'+f;if(varcode_parse(b)!=c)return bad("varcode_parse(%s) is %u",b,varcode_parse(b));}
    for(int i=0;i<2000;++i){unsigned n=R()%8;char*b=new char[n+1];for(unsigned k=0;k<n;++k)b[k]=R()%4?'0'+R()%10:1+R()%255;b[n]=0;bool ok=n>=6;for(unsigned k=1;k<6&&ok;++k)ok=b[k]>='0'&&b[k]<='9';
        std::string o=outcome([&]{varcode_parse(b);});std::string t=vis(b);delete[] b;if(o!=(ok?"":"error_consistency"))return bad("varcode_parse(%s): %s",t.c_str(),o.c_str());}
    return 0;}
