#include "h.h"
#include <wreport/bulletin.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/opcodes.h>
#include <wreport/bulletin/interpreter.h>
using namespace wreport;
typedef std::vector<Varcode> Codes;
static const BufrBulletin& tb(){static std::unique_ptr<BufrBulletin> b;if(!b){b=BufrBulletin::create();b->edition_number=4;b->master_table_version_number=14;b->load_tables();}return *b;}
static std::string F(const char*f,...){char b[400];va_list ap;va_start(ap,f);vsnprintf(b,400,f,ap);va_end(ap);return b;}
// what the data would have said: a fixed sequence of numbers
struct Source{unsigned seed,n=0;explicit Source(unsigned s):seed(s){}unsigned next(unsigned lim){std::mt19937 r(seed*1000+n++);return r()%lim;}};
typedef std::vector<std::string> Log;
static std::string desc(Varinfo i){return F("%04x scale %d len %u ref %d",i->code,i->scale,i->bit_len,i->bit_ref);}
// the real interpreter, with recording callbacks
struct Rec:public bulletin::Interpreter{
    Log&log;Source src;Subset sub;
    Rec(const Tables&t,const Opcodes&o,Log&l,unsigned seed):Interpreter(t,o),log(l),src(seed),sub(t){}
    void store(Varinfo i){sub.store_variable(Var(i));if(log.size()>5000)throw std::runtime_error("too long");}
    void define_variable(Varinfo i)override{log.push_back("var "+desc(i));store(i);}
    void define_variable_with_associated_field(Varinfo i)override{log.push_back(F("var+af(%u,%u) ",associated_field.bit_count,associated_field.significance)+desc(i));store(i);}
    unsigned define_delayed_replication_factor(Varinfo i)override{unsigned v=src.next(4);log.push_back(F("factor %u ",v)+desc(i));store(i);return v;}
    unsigned define_bitmap_delayed_replication_factor(Varinfo i)override{unsigned v=src.next(5);log.push_back(F("bitmap size %u ",v)+desc(i));return v;}
    unsigned define_associated_field_significance(Varinfo i)override{unsigned v=src.next(64);log.push_back(F("significance %u ",v)+desc(i));store(i);return v;}
    void define_substituted_value(unsigned p)override{log.push_back(F("subst %u",p));}
    void define_attribute(Varinfo i,unsigned p)override{log.push_back(F("attr %u ",p)+desc(i));}
    void define_raw_character_data(Varcode c)override{log.push_back(F("chars %04x",c));store(tables.get_chardata(c,WR_VAR_Y(c)));}
    void define_c03_refval_override(Varcode c)override{int v=(int)src.next(1000)-500;log.push_back(F("refval %04x %u %d",c,c03_refval_override_bits,v));c03_refval_overrides[c]=v;}
    void define_bitmap(unsigned n)override{std::string b;for(unsigned i=0;i<n;++i)b+=src.next(2)?'+':'-';log.push_back("bitmap "+b);
        Varinfo i=tables.get_bitmap(bitmaps.pending_definitions,b);Var v(i);if(n)v.setc(b.c_str());sub.store_variable(v);if(!n)throw error_consistency("empty");bitmaps.define(v,sub);}
};
struct Stop{};
// an independent reading of the descriptors
struct Oracle{
    const Tables&t;Log&log;Source src;std::vector<unsigned> vars;std::map<Varcode,int> refs;
    int width=0,scale=0,inc=0,slen=0;unsigned rbits=0,afbits=0,afsig=63;Varcode pending=0;
    bool act=false,haslast=false;std::vector<unsigned> cur,last;size_t at=0;
    Oracle(const Tables&t,Log&l,unsigned seed):t(t),log(l),src(seed){}
    [[noreturn]] void err(){throw Stop();}
    struct D{Varcode c;int sc;int len;int ref;};
    std::string d(const D&x){return F("%04x scale %d len %u ref %d",x.c,x.sc,x.len,x.ref);}
    Varinfo q(Varcode c){if(!t.btable->contains(c))err();return t.btable->query(c);}
    D plain(Varcode c){Varinfo i=q(c);return {c,i->scale,(int)i->bit_len,i->bit_ref};}
    D info(Varcode c){Varinfo i=q(c);D r{c,i->scale,(int)i->bit_len,i->bit_ref};
        bool str=i->type==Vartype::String,num=!str&&strcmp(i->unit,"CODE TABLE")&&strcmp(i->unit,"FLAG TABLE");
        if(str&&slen)r.len=slen*8;
        if(num){r.sc+=scale+inc;r.len+=width+(inc?(10*inc+2)/3:0);if(inc&&r.ref){double x=r.ref*std::pow(10.0,inc);if(std::fabs(x)>2147483647.0)err();r.ref=(int)x;}}
        if(refs.count(c))r.ref=refs[c];
        if(num&&(width||scale||inc||refs.size()||slen)&&(r.sc!=i->scale||r.len!=(int)i->bit_len||r.ref!=i->bit_ref)&&(r.sc<-16||r.sc>16||r.len<=0||r.len>32))err();
        return r;}
    void nextbm(unsigned&p){p=cur[at++];if(at==cur.size()){last=cur;haslast=true;act=false;}}
    void elem(Varcode c){
        if(rbits){int v=(int)src.next(1000)-500;log.push_back(F("refval %04x %u %d",c,rbits,v));refs[c]=v;return;}
        D x=info(c);
        if(WR_VAR_X(c)==33&&act){unsigned p;nextbm(p);log.push_back(F("attr %u ",p)+d(x));return;}
        if(afbits)log.push_back(F("var+af(%u,%u) ",afbits,afsig)+d(x));else log.push_back("var "+d(x));
        vars.push_back(c);if(log.size()>5000)throw Stop();}
    void run(const Codes&k){
        size_t i=0;auto pop=[&]{if(i>=k.size())err();return k[i++];};
        while(i<k.size()){Varcode c=k[i++];unsigned f=c>>14,x=c>>8&63,y=c&255;
            if(f==0)elem(c);
            else if(f==3){auto o=t.dtable->query(c);Codes s(o.begin,o.end);run(s);}
            else if(f==1){
                Varcode dc=0;if(!y){if(i<k.size()&&k[i]>>14==0&&(k[i]>>8&63)==31)dc=k[i++];else dc=31<<8|12;}
                if(k.size()-i<x)err();Codes s(k.begin()+i,k.begin()+i+x);i+=x;
                if(pending){if(x!=1||s[0]!=(31<<8|31))err();unsigned n=y;if(!y){D r=plain(dc);n=src.next(5);log.push_back(F("bitmap size %u ",n)+d(r));}
                    std::string b;for(unsigned j=0;j<n;++j)b+=src.next(2)?'+':'-';log.push_back("bitmap "+b);
                    vars.push_back(pending);if(!n)err();
                    std::vector<unsigned> pos;for(unsigned j=0;j<vars.size();++j)if(vars[j]>>14==0)pos.push_back(j);
                    if(pos.size()<n)err();cur.clear();for(unsigned j=0;j<n;++j)if(b[j]=='+')cur.push_back(pos[pos.size()-n+j]);
                    at=0;act=!cur.empty();if(!act){last.clear();haslast=true;}
                    pending=0;
                }else{unsigned n=y;if(!y){D r=plain(dc);n=src.next(4);log.push_back(F("factor %u ",n)+d(r));vars.push_back(dc);}for(unsigned j=0;j<n;++j)run(s);}
            }else switch(x){
                case 1:width=y?(int)y-128:0;break;
                case 2:scale=y?(int)y-128:0;break;
                case 3:if(y==255)rbits=0;else if(y==0){rbits=0;refs.clear();}else if(y>32)err();else rbits=y;break;
                case 4:if(y){if(afbits||y>32||pop()!=(31<<8|21))err();D r=plain(31<<8|21);afsig=src.next(64);log.push_back(F("significance %u ",afsig)+d(r));vars.push_back(31<<8|21);}afbits=y;break;
                case 5:log.push_back(F("chars %04x",c));vars.push_back(c);break;
                case 6:{Varcode n=pop();if(y){bool k=t.btable->contains(n);D r{n,0,0,0};if(k)r=info(n);if(!k||r.len!=(int)y)r=D{n,0,(int)y,0};log.push_back("var "+d(r));vars.push_back(n);}break;}
                case 7:inc=y;break;
                case 8:slen=y;break;
                case 22:if(y)err();pending=c;break;
                case 23:if(y==0)pending=c;else if(y==255){if(!act)err();unsigned p;nextbm(p);log.push_back(F("subst %u",p));}else err();break;
                case 36:break;
                case 37:if(y==0){act=false;if(haslast){cur=last;at=0;act=!cur.empty();haslast=!act;}pending=0;}else if(y==255)haslast=false;else err();break;
                default:break;
            }
        }}
};
static std::string show(const Codes&k){std::string r;for(auto c:k)r+=F("%04x",c);return r;}
static int t_interp(const Codes&k,unsigned seed){
    Log a,b;bool ea=false,eb=false;const Tables&t=tb().tables;
    {Rec r(t,Opcodes(k),a,seed);try{r.run();}catch(error&){ea=true;}catch(std::runtime_error&){return 0;}}
    {Oracle o(t,b,seed);try{o.run(k);}catch(Stop&){eb=true;}catch(error&){eb=true;}}
    if(b.size()>4990)return 0;
    for(size_t i=0;i<std::max(a.size(),b.size());++i){std::string x=i<a.size()?a[i]:ea?"error":"end",y=i<b.size()?b[i]:eb?"error":"end";if(x!=y)return bad("interp %s %u: step %zu is '%s' instead of '%s'",show(k).c_str(),seed,i,x.c_str(),y.c_str());}
    if(ea!=eb)return bad("interp %s %u: %s",show(k).c_str(),seed,ea?"refused":"not refused");
    return 0;}
CMD(interp){Codes k;for(size_t i=0;i+3<a[0].size();i+=4)k.push_back(strtoul(a[0].substr(i,4).c_str(),0,16));return t_interp(k,U(a[1]));}
static int t_ops(const Codes&v,size_t b,size_t e,unsigned i){
    // a copy on the heap of the exact size, so that reading outside it is seen
    Codes x(v.begin()+b,v.begin()+e);Opcodes o(x);
    Varcode w=i<x.size()?x[i]:0;if(o[i]!=w)return bad("[%u] of %zu opcodes",i,x.size());
    Opcodes p(o);std::string er=outcome([&]{Varcode c=p.pop_left();if(c!=x.at(0)||p.size()!=x.size()-1||p.begin!=o.begin+1||p.end!=o.end)bad("pop_left");});
    if((er=="error_consistency")!=x.empty())return bad("pop_left of %zu opcodes: %s",x.size(),er.c_str());
    Opcodes r(o);Opcodes got(r);er=outcome([&]{got=r.pop_left(i);});
    if((er=="error_consistency")!=(i>x.size()))return bad("pop_left(%u) of %zu opcodes: %s",i,x.size(),er.c_str());
    if(er==""&&(got.begin!=o.begin||got.size()!=i||r.begin!=o.begin+i||r.end!=o.end))return bad("pop_left(%u)",i);
    return 0;}
SEARCH(opcodes){Codes v(20);for(int q=0;q<20000;++q){for(auto&c:v)c=R();size_t n=R()%20;if(t_ops(v,0,n,R()%4?R()%24:R()))return 1;}return 0;}
static Varcode rndcode(std::mt19937&R,int depth){
    static Codes bs,ds;if(bs.empty()){for(unsigned x=0;x<48;++x)for(unsigned y=0;y<256;++y)if(tb().tables.btable->contains(WR_VAR(0,x,y)))bs.push_back(WR_VAR(0,x,y));
        for(unsigned x=0;x<40;++x)for(unsigned y=0;y<256;++y){try{auto o=tb().tables.dtable->query(WR_VAR(3,x,y));if(o.size()<8)ds.push_back(WR_VAR(3,x,y));}catch(error&){}}}
    unsigned k=R()%24;
    if(k<8)return bs[R()%bs.size()];if(k<10)return WR_VAR(0,33,R()%2?7:2);if(k<11)return ds[R()%ds.size()];if(k<12)return WR_VAR(0,R()%64,R()%256);
    if(k<14)return WR_VAR(1,R()%4,R()%4);if(k==14)return WR_VAR(0,31,R()%4);
    static const unsigned xs[]={1,2,3,4,5,6,7,8,22,23,36,37};unsigned x=R()%12?xs[R()%12]:R()%64,y;
    switch(x){case 1:case 2:y=R()%3?120+R()%16:R()%256;break;case 3:y=R()%3==0?255:R()%4==0?0:R()%40;break;case 4:y=R()%3?0:R()%40;break;case 7:y=R()%3?R()%6:R()%256;break;case 8:y=R()%2?0:R()%2?R()%40:R()%256;break;
        case 22:y=R()%10==0;break;case 23:y=R()%2?0:R()%8?255:R();break;case 37:y=R()%3?0:R()%3?255:R();break;case 6:y=R()%3?R()%40:R()%256;break;default:y=R()%256;}
    return WR_VAR(2,x,(y&255));}
static Codes rndprog(std::mt19937&R){
    Codes k;unsigned n=R()%14;
    for(unsigned i=0;i<n;++i){
        unsigned z=R()%10;
        if(z==0){k.push_back(WR_VAR(2,4,1+R()%8));k.push_back(WR_VAR(0,31,21));}
        else if(z==1||z==2){ // a bitmap and what it selects
            if(R()%3==0)k.push_back(WR_VAR(2,36,0));
            bool sub=R()%2;k.push_back(sub?WR_VAR(2,23,0):WR_VAR(2,22,0));unsigned m=R()%4;
            k.push_back(WR_VAR(1,1,m));if(!m)k.push_back(WR_VAR(0,31,1));k.push_back(WR_VAR(0,31,31));
            for(unsigned j=R()%4;j;--j)k.push_back(sub?WR_VAR(2,23,255):WR_VAR(0,33,7));
            if(R()%2){k.push_back(WR_VAR(2,22,0));k.push_back(WR_VAR(2,37,0));for(unsigned j=R()%4;j;--j)k.push_back(WR_VAR(0,33,2));}
            if(R()%4==0)k.push_back(WR_VAR(2,37,255));
        }else if(z==3){unsigned m=R()%3;k.push_back(WR_VAR(1,R()%4,m));if(!m&&R()%4)k.push_back(WR_VAR(0,31,R()%3));}
        else if(z==5&&R()%8==0){unsigned m=1+R()%14;for(unsigned j=0;j<m;++j)k.push_back(WR_VAR(1,m-j,R()%6?1:2));k.push_back(rndcode(R,0));}
        else if(z==4){k.push_back(WR_VAR(2,3,R()%40));k.push_back(rndcode(R,0));k.push_back(WR_VAR(2,3,255));}
        else k.push_back(rndcode(R,0));
    }
    return k;}
static int interp_search(std::mt19937&R){for(int q=0;q<60000;++q){Codes k=rndprog(R);if(t_interp(k,R()%100000))return 1;}return 0;}
SEARCH(interp){return interp_search(R);}
// bitmaps made over random subsets
#include <wreport/bulletin/bitmaps.h>
static int t_bitmap(std::mt19937&R){
    const Tables&t=tb().tables;Subset s(t);unsigned n=R()%10;std::vector<unsigned> pos;
    for(unsigned i=0;i<n;++i){if(R()%3)s.store_variable(Var(t.btable->query(WR_VAR(0,12,101))));else s.store_variable(Var(t.get_chardata(WR_VAR(2,5,4),4)));}
    unsigned anchor=R()%3?n:R()%(n+1);for(unsigned i=0;i<anchor;++i)if(s[i].code()>>14==0)pos.push_back(i);
    auto mk=[&](std::string&b,std::vector<unsigned>&w){unsigned m=1+R()%(pos.size()+2);b="";for(unsigned i=0;i<m;++i)b+=R()%3?'+':'-';w.clear();if(m>pos.size())return false;for(unsigned i=0;i<m;++i)if(b[i]=='+')w.push_back(pos[pos.size()-m+i]);return true;};
    bulletin::Bitmaps B;std::vector<unsigned> cur,last;size_t at=0;bool act=false,hl=false;std::string h;
    for(int k=0;k<8;++k){
        if(B.active()!=act)return bad("bitmap %s: active is %d instead of %d",h.c_str(),(int)B.active(),(int)act);
        unsigned z=R()%4;
        if(z==0){std::string b;std::vector<unsigned> w;bool ok=mk(b,w);h+=" define "+b;Varinfo i=t.get_bitmap(WR_VAR(2,22,0),b);Var v(i,b.c_str());
            std::string e=outcome([&]{B.define(v,s,anchor);});if((e=="")!=ok)return bad("bitmap%s (anchor %u, %zu data variables): '%s'",h.c_str(),anchor,pos.size(),e.c_str());
            if(ok){cur=w;at=0;act=!cur.empty();if(!act){last=cur;hl=true;}}}
        else if(z==1){h+=" reuse";B.reuse_last();act=false;if(hl){cur=last;at=0;act=!cur.empty();hl=!act;}}
        else if(z==2&&R()%3==0){h+=" discard";B.discard_last();hl=false;}
        else{h+=" next";unsigned p=0;std::string e=outcome([&]{p=B.next();});if((e=="")!=act)return bad("bitmap%s: '%s'",h.c_str(),e.c_str());
            if(act){if(p!=cur[at])return bad("bitmap%s: %u instead of %u",h.c_str(),p,cur[at]);if(++at==cur.size()){act=false;last=cur;hl=true;}}}
    }
    return 0;}
SEARCH(bitmap){for(int q=0;q<60000;++q)if(t_bitmap(R))return 1;return interp_search(R);}
