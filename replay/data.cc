#include "h.h"
#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
using namespace wreport;
// data sections written bit by bit from a model, decoded and encoded again by the library
namespace {
struct El { unsigned code; int scale,ref; unsigned bits; bool text; };
const El ELS[]={{WR_VAR(0,12,101),2,0,16,false},{WR_VAR(0,7,30),1,-4000,17,false},{WR_VAR(0,1,1),0,0,7,false},{WR_VAR(0,1,2),0,0,10,false},{WR_VAR(0,12,1),1,0,12,false},{WR_VAR(0,8,23),0,0,6,false},{WR_VAR(0,1,15),0,0,160,true},{WR_VAR(0,1,6),0,0,64,true}};
struct At { unsigned code; bool set; El e; uint32_t raw; std::string s; };
struct V { El e; bool set; uint32_t raw; std::string s; std::vector<At> at; std::string bmp; };
// one field of the data: per subset a number (or text), as laid out in the message
struct Fld { unsigned bits; bool text,uniform,bit,af; std::vector<uint32_t> raw; std::vector<std::string> s; std::vector<uint32_t> afraw; unsigned afbits; };
struct Msg { std::vector<unsigned> dd; unsigned ns; std::vector<std::vector<V>> v; std::vector<Fld> f; };
uint32_t ones(unsigned n){return n>=32?~0u:(1u<<n)-1;}
void put(std::string&b,uint32_t v,unsigned n){for(int k=(int)n-1;k>=0;--k)b+=(v>>k&1)?'1':'0';}
void puts_(std::string&b,const std::string&s,unsigned chars,bool miss){for(unsigned i=0;i<chars;++i)put(b,miss?255:i<s.size()?(unsigned char)s[i]:' ',8);}
std::string pack(std::string b){while(b.size()%8)b+='0';std::string r;for(size_t i=0;i<b.size();i+=8)r+=(char)strtoul(b.substr(i,8).c_str(),0,2);if(r.size()%2)r+='\0';return r;}
struct Gen {
    std::mt19937&R;Msg m;bool comp;
    Gen(std::mt19937&R,bool comp):R(R),comp(comp){m.ns=1+R()%4;m.v.resize(m.ns);}
    const El&any(){return ELS[R()%(sizeof ELS/sizeof*ELS)];}
    uint32_t rv(const El&e){unsigned k=R()%6;uint32_t mx=ones(e.bits);return k==0?0:k==1?mx-1:k==2?mx:R()%mx;}
    std::string rt(const El&e){std::string s;unsigned n=R()%3?1+R()%(e.bits/8):e.bits/8;for(unsigned i=0;i<n;++i)s+=(char)('a'+R()%26);return s;}
    void vals(const El&e,Fld&f){f.bits=e.bits;f.text=e.text;f.uniform=f.bit=f.af=false;bool same=R()%3==0;
        for(unsigned i=0;i<m.ns;++i){if(i&&same){f.raw.push_back(f.raw[0]);f.s.push_back(f.s[0]);}else{bool miss=R()%6==0;f.raw.push_back(e.text?miss:rv(e));f.s.push_back(e.text?rt(e):"");}}}
    bool isset(const El&e,const Fld&f,unsigned i){return e.text?!f.raw[i]:f.raw[i]!=ones(e.bits);}
    void elem(const El&e){Fld f;vals(e,f);for(unsigned i=0;i<m.ns;++i)m.v[i].push_back(V{e,isset(e,f,i),f.raw[i],f.s[i],{},""});m.f.push_back(f);}
    void uni(const El&e,uint32_t raw,bool store=true){Fld f;f.bits=e.bits;f.text=false;f.uniform=true;f.bit=f.af=false;f.raw.assign(m.ns,raw);f.s.resize(m.ns);m.f.push_back(f);if(store)for(auto&v:m.v)v.push_back(V{e,raw!=ones(e.bits),raw,"",{},""});}
    void afield(){static const struct{unsigned sig,code,bits;}T[]={{1,WR_VAR(0,33,2),2},{2,WR_VAR(0,33,3),3},{6,WR_VAR(0,33,50),4},{7,WR_VAR(0,33,40),7},{8,WR_VAR(0,33,2),2},{21,WR_VAR(0,33,41),2},{63,0,4},{4,0,3},{15,0,5},{33,0,6}};
        auto t=T[R()%10];unsigned w=t.bits+(R()%4==0?R()%3:0);m.dd.push_back(WR_VAR(2,4,w));m.dd.push_back(WR_VAR(0,31,21));uni(El{WR_VAR(0,31,21),0,0,6,false},t.sig);unsigned n=1+R()%3;
        for(unsigned k=0;k<n;++k){const El&e=any();m.dd.push_back(e.code);Fld f;vals(e,f);f.af=true;f.afbits=w;bool allmiss=R()%4==0||!t.code;
            for(unsigned i=0;i<m.ns;++i){uint32_t a=allmiss?ones(w):R()%(ones(t.bits)-(t.sig==7?26:0));if(!comp&&R()%5==0)a=ones(w);if(!t.code)a=ones(w);f.afraw.push_back(a);V v{e,isset(e,f,i),f.raw[i],f.s[i],{},""};
                if(t.code){bool miss=a==ones(w);if(!miss)v.at.push_back(At{t.code,true,El{t.code,0,0,t.bits,false},a,""});else if(t.sig<3||t.sig==7)if(!(comp&&allmiss))v.at.push_back(At{t.code,false,El{t.code,0,0,t.bits,false},0,""});}
                m.v[i].push_back(v);}
            m.f.push_back(f);}
        m.dd.push_back(WR_VAR(2,4,0));}
    void repl(){unsigned g=1+R()%3,c=R()%4;std::vector<const El*> es;for(unsigned i=0;i<g;++i)es.push_back(&any());bool del=R()%2;if(!del&&!c)c=1;m.dd.push_back(WR_VAR(1,g,del?0:c));if(del){m.dd.push_back(WR_VAR(0,31,1));uni(El{WR_VAR(0,31,1),0,0,8,false},c);}for(auto e:es)m.dd.push_back(e->code);for(unsigned k=0;k<c;++k)for(auto e:es)elem(*e);}
    void refv(){const El&e=ELS[R()%2?0:1];unsigned w=14+R()%6;int r=(int)(R()%8000)-4000;if(R()%6==0)r=R()%2?8191:-8191;m.dd.push_back(WR_VAR(2,3,w));m.dd.push_back(e.code);m.dd.push_back(WR_VAR(2,3,255));m.dd.push_back(e.code);m.dd.push_back(WR_VAR(2,3,0));
        Fld f;f.bits=w;f.text=f.uniform=f.bit=f.af=false;f.raw.assign(m.ns,r<0?(uint32_t)-r|1u<<(w-1):r);f.s.resize(m.ns);m.f.push_back(f);El x=e;x.ref=r;elem(x);}
    void chars(){unsigned n=1+R()%12;m.dd.push_back(WR_VAR(2,5,n));El e{WR_VAR(2,5,n),0,0,n*8,true};Fld f;f.bits=n*8;f.text=true;f.uniform=f.bit=f.af=false;for(unsigned i=0;i<m.ns;++i){f.raw.push_back(0);std::string s;for(unsigned k=0;k<n;++k)s+=(char)('a'+R()%26);f.s.push_back(s);m.v[i].push_back(V{e,true,0,s,{},""});}m.f.push_back(f);}
    // a bitmap for the last n variables of data, and values for the ones present
    bool bmp(){unsigned start=m.v[0].size();unsigned nd=0;for(auto&v:m.v[0])if(WR_VAR_F(v.e.code)==0)++nd;if(!nd)return false;unsigned n=1+R()%nd;if(n>60)n=60;
        bool sub=R()%3==0;unsigned op=sub?WR_VAR(2,23,0):WR_VAR(2,22,0);m.dd.push_back(op);bool del=R()%2;m.dd.push_back(WR_VAR(1,1,del?0:n));if(del){m.dd.push_back(WR_VAR(0,31,2));uni(El{WR_VAR(0,31,2),0,0,16,false},n,false);}m.dd.push_back(WR_VAR(0,31,31));
        std::string b;for(unsigned k=0;k<n;++k)b+=R()%2?'+':'-';b[R()%n]='+';
        for(char c:b){Fld f;f.bits=1;f.text=f.uniform=f.af=false;f.bit=true;f.raw.assign(m.ns,c=='-');f.s.resize(m.ns);m.f.push_back(f);}
        // positions, going back from the bitmap
        std::vector<unsigned> pos;for(unsigned p=start,k=0;k<n;){--p;if(WR_VAR_F(m.v[0][p].e.code)==0){if(b[n-1-k]=='+')pos.insert(pos.begin(),p);++k;}}
        for(auto&v:m.v){V x{El{op,0,0,n*8,true},true,0,b,{},b};v.push_back(x);}
        unsigned cnt=pos.size();m.dd.push_back(WR_VAR(1,1,cnt));m.dd.push_back(sub?WR_VAR(2,23,255):WR_VAR(0,33,7));
        for(unsigned p:pos){El e=sub?m.v[0][p].e:El{WR_VAR(0,33,7),0,0,7,false};Fld f;vals(e,f);if(!sub)for(auto&r:f.raw)if(r!=127)r%=101;if(WR_VAR_X(e.code)==31)for(auto&r:f.raw)r%=ones(e.bits);for(unsigned i=0;i<m.ns;++i)if(isset(e,f,i))m.v[i][p].at.push_back(At{e.code,true,e,f.raw[i],f.s[i]});m.f.push_back(f);}
        return true;}
    void all(bool withbmp){unsigned n=1+R()%4;for(unsigned k=0;k<n;++k)switch(R()%(comp?6:8)){case 0:case 1:case 2:{const El&e=any();m.dd.push_back(e.code);elem(e);break;}case 3:case 4:afield();break;case 5:repl();break;case 6:if(k==0)refv();else chars();break;case 7:chars();break;}
        if(withbmp)bmp();}
    std::string bits(unsigned i){std::string b;for(auto&f:m.f){if(f.af)put(b,f.afraw[i],f.afbits);if(f.text)puts_(b,f.s[i],f.bits/8,f.raw[i]);else put(b,f.raw[i],f.bits);}return b;}
    // base, size of the differences, differences
    void cnum(std::string&b,const std::vector<uint32_t>&r,unsigned bits,bool uni,bool af){bool same=true;uint32_t mn=~0u,mx=0;for(auto x:r){if(x!=r[0])same=false;if(af||x!=ones(bits)){mn=std::min(mn,x);mx=std::max(mx,x);}}
        bool miss=false;for(auto x:r)if(x==ones(bits))miss=true;
        if(same&&(uni||r[0]==ones(bits)||R()%2)){put(b,r[0],bits);put(b,0,6);if(af)return;return;}
        uint32_t base=R()%2?mn:R()%(mn+1);unsigned w=1;while(ones(w)<=mx-base)++w;if(R()%3==0&&w<31)++w;put(b,base,bits);put(b,w,6);if(!af)diffs(b,r,bits,base,w,miss);else for(auto x:r)put(b,x-base,w);}
    void diffs(std::string&b,const std::vector<uint32_t>&r,unsigned bits,uint32_t base,unsigned w,bool){for(auto x:r)put(b,x==ones(bits)?ones(w):x-base,w);}
    std::string cbits(){std::string b;for(auto&f:m.f){
        if(f.af){bool allm=true;for(auto x:f.afraw)if(x!=ones(f.afbits))allm=false;if(allm){put(b,ones(f.afbits),f.afbits);put(b,0,6);}else{uint32_t mn=*std::min_element(f.afraw.begin(),f.afraw.end()),mx=*std::max_element(f.afraw.begin(),f.afraw.end());unsigned w=0;while(ones(w)<mx-mn)++w;if(R()%3==0)++w;put(b,mn,f.afbits);put(b,w,6);for(auto x:f.afraw)put(b,x-mn,w);}}
        if(f.bit){put(b,f.raw[0],1);put(b,0,6);}
        else if(f.text){bool same=true;for(unsigned i=1;i<m.ns;++i)if(f.s[i]!=f.s[0]||f.raw[i]!=f.raw[0])same=false;for(unsigned i=0;i<m.ns;++i)if(f.raw[i]!=f.raw[0])same=false;
            if(same){puts_(b,f.s[0],f.bits/8,f.raw[0]);put(b,0,6);}else{size_t l=1;for(auto&s:f.s)l=std::max(l,s.size());if(R()%2)l=f.bits/8;for(unsigned i=0;i<f.bits;++i)b+='0';put(b,l,6);for(unsigned i=0;i<m.ns;++i)puts_(b,f.s[i],l,f.raw[i]);}}
        else cnum(b,f.raw,f.bits,f.uniform,false);}
        return b;}
};
std::string message(const Msg&m,const std::string&data,bool comp){
    auto n3=[](size_t n){return std::string{(char)(n>>16),(char)(n>>8),(char)n};};auto n2=[](unsigned n){return std::string{(char)(n>>8),(char)n};};
    std::string s1=n3(22)+std::string(1,'\0')+n2(0)+n2(0)+std::string(5,'\0')+std::string(1,(char)23)+std::string(1,'\0')+n2(2020)+"\x01\x01\x01\x01\x01";
    std::string s3=n3(8+2*m.dd.size())+std::string(1,'\0')+n2(m.ns)+std::string(1,(char)(comp?0xc0:0x80));for(auto c:m.dd)s3+=n2(c);s3+='\0';
    std::string s4=n3(data.size()+4)+std::string(1,'\0')+data;
    return "BUFR"+n3(8+s1.size()+s3.size()+s4.size()+4)+std::string(1,(char)4)+s1+s3+s4+"7777";}
std::string vs(unsigned c){char b[16];snprintf(b,16,"%01u%02u%03u",WR_VAR_F(c),WR_VAR_X(c),WR_VAR_Y(c));return b;}
bool samev(const El&e,bool set,uint32_t raw,const std::string&s,const Var&v){
    if(v.code()!=e.code||v.isset()!=set)return false;if(!set)return true;if(e.text)return v.enqs()==s;
    double w=((double)raw+e.ref)/pow(10.0,e.scale);return fabs(v.enqd()-w)<=1e-9*(1+fabs(w));}
std::string hdd(const Msg&m){std::string r;for(auto c:m.dd)r+=vs(c)+" ";return r;}
int t_data(std::mt19937&R,bool comp){
    Gen g(R,comp);g.all(R()%2);Msg&m=g.m;std::string ub;for(unsigned i=0;i<m.ns;++i)ub+=g.bits(i);std::string data=comp?pack(g.cbits()):pack(ub),msg=message(m,data,comp);
    std::unique_ptr<BufrBulletin> b;std::string e=outcome([&]{b=BufrBulletin::decode(msg);});const char*how=comp?"compressed":"uncompressed";
    if(e!="")return bad("good %s message refused: %s [%s] %s",how,e.c_str(),hdd(m).c_str(),hex(msg).c_str());
    if(b->subsets.size()!=m.ns)return bad("%zu subsets instead of %u: %s",b->subsets.size(),m.ns,hex(msg).c_str());
    for(unsigned i=0;i<m.ns;++i){const Subset&s=b->subsets[i];if(s.size()!=m.v[i].size())return bad("%s: subset %u has %zu variables instead of %zu [%s] %s",how,i,s.size(),m.v[i].size(),hdd(m).c_str(),hex(msg).c_str());
        for(unsigned p=0;p<s.size();++p){const V&w=m.v[i][p];
            if(!samev(w.e,w.set,w.raw,w.s,s[p]))return bad("%s: subset %u variable %u is %s=%s, expected %s %s %u %s [%s] %s",how,i,p,vs(s[p].code()).c_str(),s[p].format().c_str(),vs(w.e.code).c_str(),w.set?"":"missing",w.raw,w.s.c_str(),hdd(m).c_str(),hex(msg).c_str());
            unsigned na=0;for(const Var*a=s[p].next_attr();a;a=a->next_attr())++na;
            if(na!=w.at.size())return bad("%s: subset %u variable %u %s has %u attributes, expected %zu [%s] %s",how,i,p,vs(w.e.code).c_str(),na,w.at.size(),hdd(m).c_str(),hex(msg).c_str());
            for(auto&a:w.at){const Var*x=nullptr;for(const Var*y=s[p].next_attr();y;y=y->next_attr())if(y->code()==a.code)x=y;if(!x||!samev(a.e,a.set,a.raw,a.s,*x))return bad("%s: subset %u variable %u attribute %s is %s, expected %s%u %s [%s] %s",how,i,p,vs(a.code).c_str(),x?x->format().c_str():"not there",a.set?"":"missing ",a.raw,a.s.c_str(),hdd(m).c_str(),hex(msg).c_str());}}}
    std::string o;e=outcome([&]{o=b->encode();});
    if(e!="")return bad("decoded %s message not encoded: %s [%s] %s",how,e.c_str(),hdd(m).c_str(),hex(msg).c_str());
    std::string w=message(m,pack(ub),false);if(o!=w)return bad("%s message encoded again as %s, expected %s [%s]",how,hex(o).c_str(),hex(w).c_str(),hdd(m).c_str());
    return 0;}
// messages that must be refused
int t_refuse(std::mt19937&R){
    std::string b;Msg m;m.ns=2+R()%3;unsigned k=R()%9;std::string want;const char*what="";bool comp=true;
    switch(k){
    case 0:m.dd={WR_VAR(0,12,101)};put(b,65535,16);put(b,3,6);for(unsigned i=0;i<m.ns;++i)put(b,1,3);what="missing base with differences";break;
    case 1:{unsigned w=33+R()%31;m.dd={WR_VAR(0,12,101)};put(b,5,16);put(b,w,6);for(unsigned i=0;i<m.ns;++i)for(unsigned j=0;j<w;++j)b+='0';what="differences wider than 32 bits";break;}
    case 2:{unsigned w=9+R()%20;m.dd={WR_VAR(0,1,6)};for(int j=0;j<64;++j)b+='0';put(b,w,6);for(unsigned i=0;i<m.ns;++i)for(unsigned j=0;j<w*8;++j)b+='0';what="text differences longer than the text";break;}
    case 3:m.dd={WR_VAR(1,1,0),WR_VAR(0,31,1),WR_VAR(0,12,101)};put(b,1,8);put(b,2,6);for(unsigned i=0;i<m.ns;++i)put(b,i&1,2);for(unsigned i=0;i<200;++i)b+='0';what="different replication factors in compressed data";break;
    case 4:m.dd={WR_VAR(0,12,101),WR_VAR(2,22,0),WR_VAR(1,1,1),WR_VAR(0,31,31),WR_VAR(1,1,1),WR_VAR(0,33,7)};put(b,7,16);put(b,0,6);put(b,0,1);put(b,1,6);for(unsigned i=0;i<m.ns;++i)put(b,i&1,1);put(b,7,7);put(b,0,6);for(unsigned i=0;i<80;++i)b+='0';what="bitmaps that differ between subsets";break;
    case 5:{unsigned w=33+R()%31;m.dd={WR_VAR(2,4,2),WR_VAR(0,31,21),WR_VAR(0,12,101),WR_VAR(2,4,0)};put(b,1,6);put(b,0,6);put(b,0,2);put(b,w,6);for(unsigned j=0;j<w*m.ns+200;++j)b+='0';what="associated field differences wider than 32 bits";break;}
    case 6:comp=false;m.dd={WR_VAR(1,1,0),WR_VAR(0,31,1),WR_VAR(0,12,101)};for(unsigned i=0;i<m.ns;++i)put(b,255,8);what="a missing replication factor";break;
    case 7:m.dd={WR_VAR(2,5,3)};for(unsigned i=0;i<400;++i)b+='0';what="raw characters in compressed data";break;
    case 8:comp=false;m.dd={WR_VAR(0,12,101),WR_VAR(0,12,101)};put(b,5,16);what="data that ends too early";b+="";m.ns=40;break;
    }
    std::string msg=message(m,pack(b),comp);std::unique_ptr<BufrBulletin> d;std::string e=outcome([&]{d=BufrBulletin::decode(msg);});
    if(e==""||e.compare(0,5,"error"))return bad("%s: %s [%s] %s",what,e==""?"accepted":e.c_str(),hdd(m).c_str(),hex(msg).c_str());return 0;}
// bulletins that must not be encoded
int t_encrefuse(std::mt19937&R){
    auto b=BufrBulletin::create();b->edition_number=4;b->master_table_version_number=23;b->load_tables();Subset&s=b->obtain_subset(0);const char*what="";unsigned k=R()%5;bool ok=false;
    switch(k){
    case 0:{b->datadesc={WR_VAR(2,4,2),WR_VAR(0,31,21),WR_VAR(0,12,101),WR_VAR(2,4,0)};s.store_variable_i(WR_VAR(0,31,21),7);s.store_variable_d(WR_VAR(0,12,101),280.0);unsigned v=R()%90;s.back().seta(Var(b->tables.btable->query(WR_VAR(0,33,40)),(int)v));ok=v<4;what="an associated field that does not fit";break;}
    case 1:{unsigned n=R()%5;for(int i=0;i<3;++i)b->datadesc.push_back(WR_VAR(0,12,101));for(unsigned i=0;i<n;++i)s.store_variable_d(WR_VAR(0,12,101),280.0);ok=n>=3;what="too few variables";break;}
    case 2:{unsigned n=1+R()%4;b->datadesc={WR_VAR(0,12,101),WR_VAR(0,12,101),WR_VAR(2,22,0),WR_VAR(1,1,2),WR_VAR(0,31,31),WR_VAR(1,1,2),WR_VAR(0,33,7)};s.store_variable_d(WR_VAR(0,12,101),280.0);s.store_variable_d(WR_VAR(0,12,101),281.0);s.append_fixed_dpb(WR_VAR(2,22,0),n);if(n==2&&R()%2){s[0].seta(Var(b->tables.btable->query(WR_VAR(0,33,7)),50));s.back().setc("+");b->datadesc={WR_VAR(0,12,101),WR_VAR(0,12,101),WR_VAR(2,22,0),WR_VAR(1,1,2),WR_VAR(0,31,31),WR_VAR(0,33,7)};std::string o;std::unique_ptr<BufrBulletin> d;std::string e=outcome([&]{o=b->encode();d=BufrBulletin::decode(o);});if(e==""&&d->subset(0)[2].enqs()!="+-")return bad("a bitmap of '+' and nothing else is encoded as %s",d->subset(0)[2].enqs().c_str());if(e!="")return bad("a bitmap of '+' and nothing else: %s",e.c_str());return 0;}ok=n==2;what="a bitmap of the wrong size";break;}
    case 3:{unsigned w=2+R()%20;b->datadesc={WR_VAR(2,3,w),WR_VAR(0,7,30),WR_VAR(2,3,255),WR_VAR(0,7,30),WR_VAR(2,3,0)};s.store_variable_d(WR_VAR(0,7,30),100.0);ok=w>=13;what="a reference value that does not fit";break;}
    case 4:{b->datadesc={WR_VAR(0,12,101),WR_VAR(2,22,0),WR_VAR(1,1,1),WR_VAR(0,31,31),WR_VAR(1,1,1),WR_VAR(0,33,7)};s.store_variable_d(WR_VAR(0,12,101),280.0);s.store_variable_d(WR_VAR(0,12,101),281.0);what="a value in place of a bitmap";break;}
    }
    std::string e=outcome([&]{b->encode();});if(ok&&e!="")return bad("%s (it does): %s",what,e.c_str());if(!ok&&e!="error_consistency")return bad("%s: '%s'",what,e.c_str());return 0;}
// pieces of data that no template reaches, decoded directly
int t_direct(std::mt19937&R){
    static std::unique_ptr<BufrBulletin> b;if(!b){b=BufrBulletin::create();b->edition_number=4;b->master_table_version_number=23;b->load_tables();}
    // one text shared by all subsets
    unsigned n=1+R()%4,d=R()%3?8:R()%9;bool bm=R()%3==0,dm=R()%3==0;std::string bits,base,txt;for(unsigned i=0;i<8;++i)base+=(char)('a'+R()%26);for(unsigned i=0;i<d;++i)txt+=(char)('a'+R()%26);int odd=R()%5==0&&n>1&&d?(int)(1+R()%(n-1)):-1;
    puts_(bits,base,8,bm);put(bits,d,6);if(d)for(unsigned i=0;i<n;++i)puts_(bits,(int)i==odd?std::string(d,'Z'):txt,d,(int)i==odd?!dm&&false:dm);size_t len=bits.size();std::string buf=pack(bits+"1011001110001111");
    bufr::Input in(buf);in.s4_cursor=0;in.pbyte_len=0;Var v(b->tables.btable->query(WR_VAR(0,1,6)));std::string e=outcome([&]{in.decode_string(v,n);});
    if(odd>=0){if(e!="error_consistency")return bad("text that differs between subsets: '%s'",e.c_str());}
    else{bool miss=d?dm:bm;if(e!="")return bad("text shared by %u subsets: %s",n,e.c_str());if(v.isset()==miss||(!miss&&v.enqs()!=(d?txt:base)))return bad("text shared by %u subsets: base %s%s, %u characters %s%s: decoded %s",n,base.c_str(),bm?" (missing)":"",d,txt.c_str(),dm?" (missing)":"",v.format("missing").c_str());
        size_t at=in.s4_cursor*8-in.pbyte_len;if(at!=len)return bad("text shared by %u subsets: %zu bits read instead of %zu",n,at,len);}
    return 0;}
int t_ref(std::mt19937&R){
    unsigned w=1+R()%14;uint32_t f=R()%4?R()&ones(w):R()%2?1u<<(w-1):ones(w);Msg m;m.ns=1;m.dd={WR_VAR(2,3,w),WR_VAR(0,12,101),WR_VAR(2,3,255),WR_VAR(0,12,101),WR_VAR(2,3,0),WR_VAR(0,12,101)};std::string b;put(b,f,w);put(b,1000,16);put(b,1000,16);
    int ref=f&(1u<<(w-1))?-(int)(f&~(1u<<(w-1))):(int)f;std::unique_ptr<BufrBulletin> d;std::string e=outcome([&]{d=BufrBulletin::decode(message(m,pack(b),false));});if(e!="")return bad("reference value %x of %u bits: %s",f,w,e.c_str());
    double x=d->subset(0)[0].isset()?d->subset(0)[0].enqd():-1e9,y=d->subset(0)[1].enqd();if(fabs(x-(1000+ref)/100.0)>1e-6||d->subset(0)[0].info()->bit_ref!=ref)return bad("reference value %x of %u bits: raw 1000 decoded as %g",f,w,x);if(fabs(y-10)>1e-6)return bad("after 203000, raw 1000 decoded as %g",y);return 0;}
// bitmaps made from the attributes of the variables
int t_dpb(std::mt19937&R){
    static std::unique_ptr<BufrBulletin> b;if(!b){b=BufrBulletin::create();b->edition_number=4;b->master_table_version_number=23;b->load_tables();}
    Subset s(b->tables);std::string w;unsigned n=R()%12,size=R()%14,plus=0;if(!size)size=1;
    for(unsigned i=0;i<n;++i){if(R()%4==0){s.append_fixed_dpb(WR_VAR(2,22,0),1+R()%3);if(R()%2)s.back().seta(Var(b->tables.btable->query(WR_VAR(0,33,7)),1));continue;}s.store_variable_d(WR_VAR(0,12,101),280.0);bool h=R()%2;if(h)s.back().seta(Var(b->tables.btable->query(WR_VAR(0,33,7)),(int)(R()%100)));if(w.size()<size){w+=h?'+':'-';plus+=h;}}
    w.resize(size,'-');size_t before=s.size();int r=0;std::string e=outcome([&]{r=s.append_dpb(WR_VAR(2,22,0),size,WR_VAR(0,33,7));});if(e!="")return bad("append_dpb: %s",e.c_str());
    if(s.size()!=before+1||s.back().code()!=WR_VAR(2,22,0)||s.back().enqs()!=w||s.back().info()->len!=size||r!=(int)plus)return bad("append_dpb of %u on %zu variables: %s, expected %s; returned %d, expected %u",size,before,s.back().enqs().c_str(),w.c_str(),r,plus);
    s.append_fixed_dpb(WR_VAR(2,23,0),size);if(s.back().code()!=WR_VAR(2,23,0)||s.back().enqs()!=std::string(size,'+'))return bad("append_fixed_dpb of %u: %s",size,s.back().enqs().c_str());
    s.store_variable_undef(WR_VAR(0,12,101));if(s.back().isset()||s.back().code()!=WR_VAR(0,12,101))return bad("store_variable_undef");
    s.store_variable_c(WR_VAR(0,1,15),"abc");if(s.back().enqs()!="abc")return bad("store_variable_c");s.store_variable_i(WR_VAR(0,1,1),(int)(R()%90));if(s.back().code()!=WR_VAR(0,1,1)||!s.back().isset())return bad("store_variable_i");
    Var x(b->tables.btable->query(WR_VAR(0,12,101)),280.5);s.store_variable(WR_VAR(0,12,1),x);if(s.back().code()!=WR_VAR(0,12,1)||fabs(s.back().enqd()-280.5)>1e-6)return bad("store_variable with another code");s.store_variable(x);if(!(s.back()==x)||!x.isset())return bad("store_variable");
    return 0;}
}
SEARCH(compressed){for(int q=0;q<12000;++q){if(t_data(R,true))return 1;if(q%4==0&&(t_refuse(R)||t_direct(R)))return 1;}return 0;}
SEARCH(sections){for(int q=0;q<12000;++q){if(t_data(R,false))return 1;if(q%4==0&&(t_refuse(R)||t_encrefuse(R)||t_dpb(R)||t_ref(R)))return 1;}for(int q=0;q<4000;++q)if(t_data(R,true))return 1;return 0;}
