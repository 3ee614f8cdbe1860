#include "h.h"
#include <wreport/tableinfo.h>
#include <wreport/internals/tabledir.h>
#include <wreport/tables.h>
#include <wreport/bulletin.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace wreport;
namespace {
typedef BufrTableID B; typedef CrexTableID C;
std::string str(const B&x){char b[100];snprintf(b,100,"BUFR(%u:%u %u:%u:%u)",x.originating_centre,x.originating_subcentre,x.master_table_number,x.master_table_version_number,x.master_table_version_number_local);return b;}
std::string str(const C&x){char b[100];snprintf(b,100,"CREX(%u %u:%u %u:%u:%u:%u)",x.edition_number,x.originating_centre,x.originating_subcentre,x.master_table_number,x.master_table_version_number,x.master_table_version_number_bufr,x.master_table_version_number_local);return b;}
bool ok(const B&w,const B&c){return c.master_table_number==w.master_table_number&&c.master_table_version_number>=w.master_table_version_number;}
bool ok(const C&w,const B&c){return c.master_table_number==w.master_table_number&&c.master_table_version_number>=w.master_table_version_number_bufr;}
bool ok(const C&w,const C&c){return c.edition_number==w.edition_number&&c.master_table_number==w.master_table_number&&c.master_table_version_number>=w.master_table_version_number&&c.master_table_version_number_bufr>=w.master_table_version_number_bufr;}
template<class W,class T> void where(std::vector<int>&r,const W&w,const T&c){
    bool exact=c.originating_centre==w.originating_centre;r.push_back(exact?0:c.originating_centre==0?1:c.originating_centre==0xffff?2:3);
    int l=c.master_table_version_number_local,wl=w.master_table_version_number_local;r.push_back(!exact||!wl?0:l>=wl?l:1000-l);r.push_back(!exact||c.originating_subcentre==w.originating_subcentre?0:1);}
template<class W> std::vector<int> rank(const W&w,const B&c,bool){std::vector<int> r{c.master_table_version_number};where(r,w,c);return r;}
template<class W> std::vector<int> rank(const W&w,const C&c,bool cross){std::vector<int> r;if(cross)r={c.master_table_version_number_bufr};else r={c.master_table_version_number,c.master_table_version_number_bufr};where(r,w,c);return r;}
int sgn(int x){return x<0?-1:x>0;}
int cmp(const std::vector<int>&a,const std::vector<int>&b){return a<b?-1:b<a?1:0;}
unsigned pick(std::mt19937&R,std::initializer_list<unsigned> l){return *(l.begin()+R()%l.size());}
B rb(std::mt19937&R){return B(pick(R,{0,98,200,0xffff,255}),pick(R,{0,1,2,0xffff}),pick(R,{0,0,0,10}),pick(R,{0,13,14,15,14,13,255}),pick(R,{0,1,2,3,4,200}));}
C rc(std::mt19937&R){return C(pick(R,{1,2,2}),pick(R,{0,98,200,0xffff}),pick(R,{0,1,2,0xffff}),pick(R,{0,0,0,10}),pick(R,{0,3,13,14,255}),pick(R,{0,13,14,15,255}),pick(R,{0,1,2,3,4,200}));}
template<class T> int order(const T&x,const T&y,const T&z,bool eq){
    if(eq&&(x<y||y<x))return bad("%s and itself are ordered",str(x).c_str());
    if(!eq&&(x<y)==(y<x))return bad("%s and %s: < is %d both ways",str(x).c_str(),str(y).c_str(),(int)(x<y));
    if(x<y&&y<z&&!(x<z))return bad("< is not transitive on %s %s %s",str(x).c_str(),str(y).c_str(),str(z).c_str());return 0;}
struct Scratch{std::string d;std::vector<std::string> fs;Scratch(){char t[]="/tmp/wvdir.XXXXXX";if(!mkdtemp(t))throw std::runtime_error("mkdtemp");d=t;}
    ~Scratch(){for(auto&f:fs)unlink(f.c_str());rmdir(d.c_str());}
    void file(const std::string&n,const std::string&s){std::string p=d+"/"+n;std::ofstream(p)<<s;fs.push_back(p);}};
bool isdup(const Scratch&S,const std::string&n){for(auto&f:S.fs)if(f==S.d+"/"+n)return true;return false;}
template<class W> int found(tabledir::Tabledirs&T,const W&w,const tabledir::Table*t,const std::vector<std::pair<std::string,B>>&bs,const std::vector<std::pair<std::string,C>>&cs,bool crex){
    const std::pair<std::string,B>*pb=0;const std::pair<std::string,C>*pc=0;
    if(!t){for(auto&b:bs)if(ok(w,b.second))return bad("no table for %s, but %s is acceptable",str(w).c_str(),b.first.c_str());
        if constexpr(std::is_same<W,C>::value)for(auto&c:cs)if(ok(w,c.second))return bad("no table for %s, but %s is acceptable",str(w).c_str(),c.first.c_str());
        return 0;}
    std::string p=t->btable_pathname.string(),q=t->dtable_pathname.string();
    for(auto&b:bs)if(b.first==p)pb=&b;
    for(auto&c:cs)if(c.first==p)pc=&c;
    if(!pb&&!pc)return bad("for %s the table is %s, which is no BUFR or CREX table",str(w).c_str(),p.c_str());
    std::string wq=p;wq[p.rfind('/')+1]='D';if(q!=wq)return bad("the D table of %s is %s",p.c_str(),q.c_str());
    auto dir=[](const std::string&x){return x.substr(0,x.rfind('/'));};
    auto closer=[&](const char*n,int){return bad("for %s the table is %s, but %s is closer, or found first",str(w).c_str(),p.c_str(),n);};
    if(pb){ if(!ok(w,pb->second))return bad("for %s the table is %s, which is not acceptable",str(w).c_str(),p.c_str());
        for(auto&b:bs)if(ok(w,b.second)&&cmp(rank(w,b.second,false),rank(w,pb->second,false))<(&b<pb&&dir(b.first)!=dir(p)))return closer(b.first.c_str(),0);
    }
    if constexpr(std::is_same<W,C>::value){
        if(pc){ if(!ok(w,pc->second))return bad("for %s the table is %s, which is not acceptable",str(w).c_str(),p.c_str());
            for(auto&c:cs)if(ok(w,c.second)&&cmp(rank(w,c.second,false),rank(w,pc->second,false))<(&c<pc&&dir(c.first)!=dir(p)))return closer(c.first.c_str(),0);
            const std::pair<std::string,B>*best=0;for(auto&b:bs)if(ok(w,b.second)&&(!best||cmp(rank(w,b.second,false),rank(w,best->second,false))<0))best=&b;
            if(best&&cmp(rank(w,best->second,true),rank(w,pc->second,true))<0)return closer(best->first.c_str(),0);
        }else{
            const std::pair<std::string,C>*best=0;for(auto&c:cs)if(ok(w,c.second)&&(!best||cmp(rank(w,c.second,false),rank(w,best->second,false))<0))best=&c;
            if(best&&cmp(rank(w,best->second,true),rank(w,pb->second,true))<0)return closer(best->first.c_str(),0);}
    }else if(pc)return bad("for %s the table is %s",str(w).c_str(),p.c_str());
    return 0;}
}
SEARCH(tabledir){
    for(int k=0;k<200000;++k){
        B w=rb(R),x=rb(R),y=R()%4?rb(R):x;C cw=rc(R),cx=rc(R),cy=R()%4?rc(R):cx;
        if(R()%2){x.originating_centre=y.originating_centre=w.originating_centre;cx.originating_centre=cy.originating_centre=cw.originating_centre;} if(R()%2)y.master_table_version_number=x.master_table_version_number;if(R()%2){cy.master_table_version_number=cx.master_table_version_number;cy.master_table_version_number_bufr=cx.master_table_version_number_bufr;} if(R()%2)cy.master_table_version_number_bufr=x.master_table_version_number;
        if(w.is_acceptable_replacement(x)!=ok(w,x))return bad("%s for %s: acceptable is %d",str(x).c_str(),str(w).c_str(),(int)!ok(w,x));
        if(cw.is_acceptable_replacement(x)!=ok(cw,x))return bad("%s for %s: acceptable is %d",str(x).c_str(),str(cw).c_str(),(int)!ok(cw,x));
        if(cw.is_acceptable_replacement(cx)!=ok(cw,cx))return bad("%s for %s: acceptable is %d",str(cx).c_str(),str(cw).c_str(),(int)!ok(cw,cx));
        if(w.is_acceptable_replacement(cx))return bad("%s is acceptable for %s",str(cx).c_str(),str(w).c_str());
#define CL(W,X,Y,cr) if(sgn(W.closest_match(X,Y))!=cmp(rank(W,X,cr),rank(W,Y,cr)))return bad("closest to %s between %s and %s: %d",str(W).c_str(),str(X).c_str(),str(Y).c_str(),W.closest_match(X,Y));
        CL(w,x,y,false) CL(cw,x,y,false) CL(cw,cx,cy,false) CL(cw,x,cy,true)
        bool e=x.originating_centre==y.originating_centre&&x.originating_subcentre==y.originating_subcentre&&x.master_table_number==y.master_table_number&&x.master_table_version_number==y.master_table_version_number&&x.master_table_version_number_local==y.master_table_version_number_local;
        if(order(x,y,w,e))return 1;
        bool ce=str(cx)==str(cy);if(order(cx,cy,cw,ce))return 1;}
    for(int round=0;round<40;++round){
        Scratch S[3];tabledir::Tabledirs T;std::vector<std::pair<std::string,B>> bs;std::vector<std::pair<std::string,C>> cs;unsigned nd=1+R()%3;
        for(unsigned d=0;d<nd;++d){
            for(int k=R()%12;k>=0;--k){char n[64];unsigned sc=pick(R,{0,1,2}),ce=pick(R,{0,98,200}),mv=pick(R,{13,14,15,16}),lv=pick(R,{0,1,2,3});
                switch(R()%5){
                case 0:snprintf(n,64,"B00000%03u%03u%02u%02u.txt",sc,ce,mv,lv);if(isdup(S[d],n))break;S[d].file(n,"");bs.push_back({S[d].d+"/"+n,B(ce,sc,0,mv,lv)});break;
                case 1:case 2:snprintf(n,64,"B00%03u%04u%04u%03u%03u.txt",0u,sc,ce,mv,lv);if(isdup(S[d],n))break;S[d].file(n,"");bs.push_back({S[d].d+"/"+n,B(ce,sc,0,mv,lv)});break;
                case 3:{unsigned mt=pick(R,{0,0,10}),ed=pick(R,{1,2,2});snprintf(n,64,"B%02u%02u%02u.txt",mt,ed,mv);if(isdup(S[d],n))break;S[d].file(n,"");cs.push_back({S[d].d+"/"+n,C(ed,0,0,mt,mv,0,0)});break;}
                case 4:{const char*o[]={"D0000000000085014000.txt","notes.txt","B0000000000085014000.csv","B00.txt","local.txt","Bxxxxxx.txt"};snprintf(n,64,"%s",o[R()%6]);if(!isdup(S[d],n))S[d].file(n,"");break;}}}
            T.add_directory(S[d].d+(R()%2?"/":""));
            for(int k=0;k<60;++k){
                B w=rb(R);w.master_table_number=0;C cw=rc(R);if(R()%2){cw.master_table_version_number_bufr=0;cw.edition_number=2;}
                if(found(T,w,T.find_bufr(w),bs,cs,false))return 1;
                if(found(T,cw,T.find_crex(cw),bs,cs,true))return 1;
                if(T.find_bufr(w)!=T.find_bufr(w))return bad("another table the second time for %s",str(w).c_str());}}}
    // what a bulletin asks for
    auto b=BufrBulletin::create();auto&D=tabledir::Tabledirs::get();
    for(int k=0;k<300;++k){
        B w=rb(R);w.master_table_number=0;b->clear();b->originating_centre=w.originating_centre;b->originating_subcentre=w.originating_subcentre;b->master_table_number=0;b->master_table_version_number=w.master_table_version_number;b->master_table_version_number_local=w.master_table_version_number_local;
        std::string e=outcome([&]{b->load_tables();});auto t=D.find_bufr(w);
        if(!t&&e!="error_notfound")return bad("%s: no table, but load_tables gives '%s'",str(w).c_str(),e.c_str());
        if(t&&e=="" )if(b->tables.btable!=Vartable::load_bufr(t->btable_pathname)||b->tables.dtable!=DTable::load_bufr(t->dtable_pathname))return bad("%s: load_tables does not load %s",str(w).c_str(),t->btable_pathname.c_str());}
    auto c=CrexBulletin::create();
    for(int k=0;k<300;++k){
        C w=rc(R);w.master_table_number=0;c->clear();c->edition_number=w.edition_number;c->originating_centre=w.originating_centre;c->originating_subcentre=w.originating_subcentre;c->master_table_number=0;c->master_table_version_number=w.master_table_version_number;c->master_table_version_number_bufr=w.master_table_version_number_bufr;c->master_table_version_number_local=w.master_table_version_number_local;
        std::string e=outcome([&]{c->load_tables();});auto t=D.find_crex(w);
        if(!t&&e!="error_notfound")return bad("%s: no table, but load_tables gives '%s'",str(w).c_str(),e.c_str());
        if(t&&e=="")if(c->tables.btable!=Vartable::load_crex(t->btable_pathname)||c->tables.dtable!=DTable::load_crex(t->dtable_pathname))return bad("%s: load_tables does not load %s",str(w).c_str(),t->btable_pathname.c_str());}
    return 0;
}
