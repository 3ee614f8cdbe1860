#include "h.h"
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/opcodes.h>
#include <unistd.h>
using namespace wreport;
// table files are written in a scratch directory
struct Scratch{std::string d;Scratch(){char t[]="/tmp/wvtab.XXXXXX";if(!mkdtemp(t))throw std::runtime_error("mkdtemp");d=t;}
    ~Scratch(){for(auto&f:fs)unlink(f.c_str());rmdir(d.c_str());}
    std::vector<std::string> fs;
    std::string file(const std::string&txt){std::string p=d+"/t"+std::to_string(fs.size())+".txt";std::ofstream(p)<<txt;fs.push_back(p);return p;}};
struct B{std::string desc,unit;int scale,ref;unsigned bits;};
static std::string bline(Varcode c,const B&b){char l[300];snprintf(l,300," 0%02d%03d %-64.64s %-24.24s %3d %12d %3u CHARACTER                 0          0\n",WR_VAR_X(c),WR_VAR_Y(c),b.desc.c_str(),b.unit.c_str(),b.scale,b.ref,b.bits);return l;}
static unsigned digits(unsigned bits){char t[30];return snprintf(t,30,"%llu",1ull<<bits);}
struct Want{Varcode code;int scale,ref;unsigned bits,len;Vartype type;std::string desc,unit;int imin,imax;};
static Want now(Varinfo i){return {i->code,i->scale,i->bit_ref,i->bit_len,i->len,i->type,std::string(i->desc,strnlen(i->desc,64)),std::string(i->unit,strnlen(i->unit,24)),i->imin,i->imax};}
static bool eq(const Want&a,const Want&b){return a.code==b.code&&a.scale==b.scale&&a.ref==b.ref&&a.bits==b.bits&&a.len==b.len&&a.type==b.type&&a.desc==b.desc&&a.unit==b.unit&&a.imin==b.imin&&a.imax==b.imax;}
static std::string str(const Want&w){char b[300];snprintf(b,300,"%04x scale %d ref %d bits %u len %u type %d range %d..%d unit '%s'",w.code,w.scale,w.ref,w.bits,w.len,(int)w.type,w.imin,w.imax,w.unit.c_str());return b;}
static Want fresh(const Want&base,int scale,unsigned bits,int ref){
    Want w=base;w.scale=scale;w.bits=bits;w.ref=ref;
    if(w.type==Vartype::String)w.len=bits/8;
    else{w.type=scale?Vartype::Decimal:Vartype::Integer;w.len=digits(bits);}
    _Varinfo v;memset(&v,0,sizeof v);v.code=w.code;v.type=w.type;v.scale=scale;v.len=w.len;v.bit_ref=ref;v.bit_len=bits;v.compute_range();w.imin=v.imin;w.imax=v.imax;return w;}
SEARCH(btable){
    Scratch S;
    for(int round=0;round<12;++round){
        std::map<Varcode,B> m;unsigned n=round<3?1+round:round==3?1200:round==4?5000:1+R()%200;
        while(m.size()<n){Varcode c=R()%0x4000;bool text=R()%4==0;B b;b.desc="ENTRY "+std::to_string(m.size())+(R()%3?"":" WITH A LONGER TEXT, WHICH FILLS THE WHOLE OF THE SIXTY-FOUR CHARACTERS");b.unit=text?"CCITTIA5":(R()%3?"K":"CODE TABLE");b.scale=text?0:(int)(R()%9)-3;b.ref=text?0:(int)(R()%2001)-1000;b.bits=text?8*(1+R()%20):1+R()%31;m[c]=b;}
        std::string txt;for(auto&i:m)txt+=bline(i.first,i.second);
        const Vartable*t=Vartable::load_bufr(S.file(txt));
        std::vector<std::pair<Varinfo,Want>> seen;
        for(unsigned c=0;c<0x10000;++c){
            bool in=m.count(c);std::string e;Varinfo i=0;
            try{i=t->query(c);}catch(std::exception&x){e=exc_name(x);}
            if(in!=t->contains(c))return bad("contains(%04x) is %d",c,(int)!in);
            if(in&&!i)return bad("query(%04x): %s but it is in the table",c,e.c_str());
            if(!in&&e!="error_notfound")return bad("query(%04x): it is not in the table, got '%s'",c,e.c_str());
            if(!in)continue;
            const B&b=m[c];std::string d=b.desc.substr(0,64);
            if(i->code!=c||i->scale!=b.scale||i->bit_ref!=b.ref||i->bit_len!=b.bits||std::string(i->desc,strnlen(i->desc,64))!=d||b.unit!=i->unit)return bad("query(%04x) gives %s",c,str(now(i)).c_str());
            if((b.unit=="CCITTIA5")!=(i->type==Vartype::String)||(b.unit!="CCITTIA5"&&(i->type==Vartype::Decimal)!=(b.scale!=0)))return bad("query(%04x): type %d",c,(int)i->type);
            seen.push_back({i,now(i)});}
        std::map<std::pair<Varcode,std::vector<long>>,Varinfo> given;
        for(int k=0;k<3000;++k){
            auto it=m.begin();std::advance(it,R()%std::min<size_t>(m.size(),6));Varcode c=it->first;const B&b=it->second;
            int sc=R()%8?b.scale+(int)(R()%5)-2:(int)(R()%50)-25;unsigned bits=R()%8?b.bits+R()%9:R()%50;int ref=R()%2?b.ref:(int)(R()%7)-3;
            bool text=b.unit=="CCITTIA5";if(text){sc=0;ref=0;bits=8*(R()%40);}
            Varinfo base=t->query(c);bool same=sc==b.scale&&bits==b.bits&&ref==b.ref,ok=same||text||(sc>=-16&&sc<=16&&bits>=1&&bits<=32);
            std::string e;Varinfo i=0;try{i=t->query_altered(c,sc,bits,ref);}catch(std::exception&x){e=exc_name(x);}
            if(!ok&&e!="error_consistency")return bad("query_altered(%04x,%d,%u,%d) is accepted",c,sc,bits,ref);
            if(ok&&!i)return bad("query_altered(%04x,%d,%u,%d): %s",c,sc,bits,ref,e.c_str());
            if(i){
                Want w=same?now(base):fresh(now(base),sc,bits,ref);
                if(!eq(now(i),w))return bad("query_altered(%04x,%d,%u,%d) gives %s instead of %s",c,sc,bits,ref,str(now(i)).c_str(),str(w).c_str());
                auto&g=given[{c,{sc,(long)bits,ref}}];if(g&&g!=i)return bad("query_altered(%04x,%d,%u,%d) gives another description the second time",c,sc,bits,ref);g=i;
                if(k%10==0)seen.push_back({i,now(i)});}}
        for(auto&x:seen)if(!eq(now(x.first),x.second))return bad("a description changed: %s, it was %s",str(now(x.first)).c_str(),str(x.second).c_str());
        for(auto&i:m)if(now(t->query(i.first)).bits!=i.second.bits)return bad("query(%04x) changed",i.first);
        if(m.size()>2){ // out of order, repeated
            std::string u;std::vector<Varcode> k;for(auto&i:m)k.push_back(i.first);unsigned p=1+R()%(k.size()-1);bool rep=R()%2;
            for(unsigned i=0;i<k.size();++i)u+=bline(rep&&i==p?k[i-1]:!rep&&i==p?k[i-1]:!rep&&i==p-1?k[p]:k[i],m[k[i]]);
            std::string e;try{Vartable::load_bufr(S.file(u));}catch(std::exception&x){e=exc_name(x);}
            if(e!="error_parse")return bad("a table with %s codes is accepted",rep?"repeated":"unsorted");}
    }
    return 0;}
SEARCH(dtable){
    Scratch S;
    for(int round=0;round<12;++round){
        std::map<Varcode,std::vector<Varcode>> m;unsigned n=round<3?1+round:round==3?1200:round==4?5000:1+R()%150;
        while(m.size()<n){Varcode c=0xc000|R()%0x4000;if(WR_VAR_Y(c)>255)continue;auto&v=m[c];v.clear();for(unsigned i=1+R()%9;i;--i)v.push_back(R()%0x10000);}
        std::string txt;char l[100];
        for(auto&i:m)for(unsigned k=0;k<i.second.size();++k){Varcode c=i.second[k];if(!k)snprintf(l,100," 3%02d%03d %2u %d%02d%03d\n",WR_VAR_X(i.first),WR_VAR_Y(i.first),(unsigned)i.second.size(),WR_VAR_FXY(c));else snprintf(l,100,"           %d%02d%03d\n",WR_VAR_FXY(c));txt+=l;}
        const DTable*t=DTable::load_bufr(S.file(txt));
        for(unsigned c=0xbff0;c<0x10000;++c){
            std::string e;std::vector<Varcode> got;try{Opcodes o=t->query(c);for(unsigned i=0;i<o.size();++i)got.push_back(o[i]);}catch(std::exception&x){e=exc_name(x);}
            if(!m.count(c)){if(e!="error_notfound")return bad("query(%04x): it is not in the table, got '%s'",c,e.c_str());continue;}
            if(!e.empty())return bad("query(%04x): %s but it is in the table",c,e.c_str());
            if(got!=m[c])return bad("query(%04x): not the sequence in the table",c);}
    }
    return 0;}
SEARCH(tables_made){
    Tables t;std::map<std::string,std::pair<Varinfo,Want>> seen;
    for(int k=0;k<3000;++k){
        Varcode c=R()%2?0x8500|R()%6:R()%0x10000;int what=R()%3;Varinfo i=0;std::string key;Want w;
        if(what==0){std::string b;unsigned n=R()%5?1+R()%4:R()%300;for(unsigned j=0;j<n;++j)b+=R()%2?'+':'-';if(R()%2)c=0x9600|(R()%3)*0x100;i=t.get_bitmap(c,b);key="b"+std::to_string(c)+b;w={c,0,0,8*n,n,Vartype::String,"DATA PRESENT BITMAP","CCITTIA5",0,0};}
        else if(what==1){c=0x8500|R()%256;unsigned n=WR_VAR_Y(c);i=t.get_chardata(c,n);key="c"+std::to_string(c);w={c,0,0,8*n,n,Vartype::String,"CHARACTER DATA","CCITTIA5",0,0};}
        else{unsigned n=R()%256;i=t.get_unknown(c,n);key="u"+std::to_string(c)+"/"+std::to_string(n);w={c,0,0,n,(n+7)/8,Vartype::Binary,"UNKNOWN LOCAL DESCRIPTOR","UNKNOWN",0,0};}
        w.desc=now(i).desc;w.unit=now(i).unit;
        if(!eq(now(i),w))return bad("%s: got %s instead of %s",key.c_str(),str(now(i)).c_str(),str(w).c_str());
        auto&s=seen[key];if(s.first&&s.first!=i)return bad("%s: another description the second time",key.c_str());s={i,w};}
    for(auto&x:seen)if(!eq(now(x.second.first),x.second.second))return bad("%s: changed to %s",x.first.c_str(),str(now(x.second.first)).c_str());
    return 0;}
